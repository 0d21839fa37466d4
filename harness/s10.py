"""S10: setups happen exactly when the process changes, and take their time."""
from symx.engine import Scenario

from . import flow
from . import oracle as O
from . import simlib as S

ASSUMPTIONS = ["arrival gaps, process and setup times are arbitrary positive reals up to 10000", "machines of capacity 1, no breakdowns"]


def setups(counts, pairs, policy="FIFO", free=2, known=1):
    """products of types A, B, .. share one machine; pairs: declared setups"""

    def fn(ctx):
        tms = {"tt": 1}
        procs, prods, srcs = {}, {}, {}
        n = 0
        for i, c in enumerate(counts):
            x = "ABC"[i]
            procs[f"P{x}"] = {"t": f"t{x}"}
            tms[f"t{x}"] = ctx.real(f"t{x}", 0, None, True) if i < free else 1
            prods[x] = {"procs": [f"P{x}"]}
            tms[f"arr{x}"] = [1 + i if n + k < known else ctx.real(f"gap{x}", 0, None, True) for k in range(c)]
            srcs[f"src{x}"] = {"product": x, "t": f"arr{x}"}
            n += c
        states, fresh = {}, {}
        for a, b in pairs:
            sid = f"S_{a}{b}"
            tms[f"t{sid}"] = 1
            fresh[f"t{sid}"] = lambda k, sid=sid: ctx.real(f"{sid}", 0, None, True)
            states[sid] = {"type": "SetupState", "time_model_id": f"t{sid}", "origin_setup": f"P{a}", "target_setup": f"P{b}"}
        ad = S.build(tms, procs, {"M1": {"procs": list(procs), "cap": 1, "policy": policy, "states": list(states)}}, prods, srcs, states=states)
        r = S.Run(ctx, ad, tms=fresh).go()
        ctx.observe("log", S.plain_log(r.log))
        ops = sorted(O.ops(ctx, r.log), key=lambda o: o.first)
        ctx.require(r.ended == "idle" and len(r.finished()) == n, "every product is finished", f"{len(r.finished())}")
        check(ctx, r, ops, "M1", pairs, r.draws, tms)

    return fn


def check(ctx, r, ops, m, pairs, draws, tms):
    lg = flow.legs(ops, r.log)
    ready = flow.ready_times([o for o in ops if o.kind != "Setup"], r.log, lg)
    prods = [o for o in ops if o.resource == m and o.kind == "Production"]
    sets = [o for o in ops if o.resource == m and o.kind == "Setup"]
    used = []
    for a, b in zip([None] + prods, prods):
        lo = a.last if a else -1
        between = [x for x in sets if lo < x.first < b.first]
        used += between
        pa, pb = a.state[1:] if a else None, b.state[1:]
        free = ctx.Max(a.end, ready[id(b)]) if a else ready[id(b)]
        if a is None or pa == pb or (pa, pb) not in pairs:
            ctx.require(not between, "no setup without a declared change of process", f"{pa} to {pb}: {between}")
            ctx.require(ctx.eq(b.start, free), "work without setup starts at once", repr(b))
            continue
        ctx.require(len(between) == 1 and between[0].state == f"S_{pa}{pb}", "a change of process needs exactly its setup", f"{pa} to {pb}: {between}")
        if len(between) != 1:
            continue
        x = between[0]
        ctx.cover("a setup happens", True)
        ctx.require(x.closed and x.last < b.first, "work starts after the setup", repr(b))
        d = draws[f"t{x.state}"]
        k = len([y for y in sets if y.state == x.state and y.first < x.first])
        ctx.require(len(d) == len([y for y in sets if y.state == x.state]), "one setup time per setup", x.state)
        ctx.require(ctx.eq(x.end - x.start, d[k]), "a setup takes its setup time", repr(x))
        # with only this product waiting the setup starts at once
        ctx.require(ctx.le(free, x.start), "a setup starts when the machine is free and work waits", repr(x))
        ctx.require(ctx.eq(x.start, free), "a setup starts at once", repr(x))
        ctx.require(ctx.eq(b.start, x.end), "work starts right after the setup", repr(b))
    ctx.require(len(used) == len(sets), "no setup without following work", repr(sets))


def slots(counts, pairs, cap=2, free=1, known=2, batch=None, gaps=None, fixed=None, ties=True):
    """a machine that does several operations at once: setups between them"""

    def fn(ctx):
        tms = {"tt": 1}
        procs, prods, srcs = {}, {}, {}
        n = 0
        for i, c in enumerate(counts):
            x = "ABC"[i]
            procs[f"P{x}"] = {"t": f"t{x}"}
            tms[f"t{x}"] = fixed if fixed and i < free else ctx.real(f"t{x}", 0, None, True) if i < free else 4
            prods[x] = {"procs": [f"P{x}"]}
            tms[f"arr{x}"] = [(1 + i if n + k < known else ctx.real(f"gap{x}", 0, None, True)) if not gaps or gaps[i][k] is None else gaps[i][k] for k in range(c)]
            srcs[f"src{x}"] = {"product": x, "t": f"arr{x}"}
            n += c
        states = {}
        for a, b in pairs:
            sid = f"S_{a}{b}"
            tms[f"t{sid}"] = ctx.real(f"t{sid}", 0, None, True)
            states[sid] = {"type": "SetupState", "time_model_id": f"t{sid}", "origin_setup": f"P{a}", "target_setup": f"P{b}"}
        m = {"procs": list(procs), "cap": cap, "pcaps": [cap] * len(procs), "states": list(states)}
        if batch:
            m["batch"] = batch
        ad = S.build(tms, procs, {"M1": m}, prods, srcs, states=states)
        r = S.Run(ctx, ad).go()
        ctx.observe("log", S.plain_log(r.log))
        every = O.ops(ctx, r.log)
        ops = sorted((o for o in every if o.resource == "M1"), key=lambda o: o.first)
        ctx.require(r.ended == "idle" and len(r.finished()) == n, "every product is finished", f"{len(r.finished())}")
        if not ties:
            # work that gets ready at the instant at which other work ends: see capacity-2-tie
            there = flow.ready_times([o for o in every if o.kind != "Setup"], r.log, flow.legs(every, r.log))
            for o in ops:
                for b in ops:
                    if o.kind == b.kind == "Production" and o.product[0] != b.product[0]:
                        ctx.assume(ctx.Not(ctx.eq(there[id(b)], o.end)))
        now = None
        sets = [o for o in ops if o.kind == "Setup"]
        for o in ops:
            ctx.require(o.closed, "every operation ends", repr(o))
            if o.kind == "Setup":
                ctx.cover("a setup happens")
                ctx.require(now == o.state[2], "a setup starts from what the machine is set up for", repr(o))
                ctx.require(ctx.eq(o.end - o.start, tms[f"t{o.state}"]), "a setup takes its setup time", repr(o))
                now = o.state[3]
                continue
            x = o.state[1:]
            if now is None or (now, x) not in pairs:
                now = x
            ctx.require(now == x, "work starts only on a machine that is set up for it", f"{o.state}: set up for {now}")
            for y in sets:
                if y.closed and o.closed:
                    ctx.require(ctx.Or(ctx.le(o.end, y.start), ctx.le(y.end, o.start)), "nothing runs during a setup", f"{o.state} {y.state}")
        for a, b in zip(sets, [next((o for o in ops if o.first > a.first), None) for a in sets]):
            ctx.require(b is not None and b.kind == "Production" and b.state[1:] == a.state[3], "work follows a setup", a.state)

    return fn


def scenarios(tier):
    q = tier == "quick"
    full = [("A", "B"), ("B", "A")]
    three = [(a, b) for a in "ABC" for b in "ABC" if a != b]
    w = ["a setup happens"]
    return [
        Scenario("two-types", setups((2, 1), full, free=1 if q else 2, known=2 if q else 1), w, bounds="2 + 1 products of two types, both setups declared"),
        Scenario("two-types-2-2", setups((1, 1) if q else (2, 2), full), w, bounds="1+1 (thorough 2+2) products"),
        Scenario("SPT", setups((2, 1), full, policy="SPT", free=1 if q else 2, known=2 if q else 1), w, bounds="as two-types, shortest processing time first"),
        Scenario("three-types", setups((1, 1, 1), three, known=2 if q else 1, free=1 if q else 2), w, bounds="one product each of three types, all setups declared"),
        Scenario("one-direction", setups((2, 1), [("B", "A")], free=1 if q else 2), bounds="only the setup from B to A is declared"),
        Scenario("capacity-2", slots((2, 1), full, ties=False), w, bounds="2 + 1 products of two types on a machine of capacity 2, both setups declared; no work gets ready at the very instant at which other work ends"),
        Scenario("capacity-2-tie", slots((2, 1), full, gaps=[[1, 1], [3]], fixed=2), w, bounds="as capacity-2, one history in which work gets ready at the instant at which other work ends; setup times are free"),
        Scenario("batch", slots((2, 2), full, batch=2, gaps=[[1, 1], [None, 1]], known=0), w, bounds="2 + 2 products of two types in batches of 2, both setups declared"),
    ]
