"""S13: batch machines work on full batches only, all members together."""
from symx.engine import Scenario

from . import flow
from . import oracle as O
from . import simlib as S

ASSUMPTIONS = ["arrival gaps and process times are arbitrary positive reals up to 10000", "no breakdowns; one batch size per machine"]


def batch(n, b, cap=None, gaps="sym", draw=True, rest=0, pre=None, policy="FIFO", sources=1):
    """n products of one type, machine with batches of b"""

    def fn(ctx):
        tms = {"tt": 1, "arr": [ctx.real("gap", 0, None, True) if gaps == "sym" or gaps[i] is None else gaps[i] for i in range(n)], "tP": 1}
        fresh = {"tP": lambda k: ctx.real(f"tP{k}", 0, None, True)} if draw else {}
        c = cap or b
        procs = {"P": {"t": "tP"}}
        route = ["P"]
        ms = {"M1": {"procs": ["P"], "cap": c, "pcaps": [c], "batch": b, "policy": policy}}
        if pre:
            # a normal machine in front
            tms["tQ"] = pre
            procs["Q"] = {"t": "tQ"}
            ms["M0"] = {"procs": ["Q"]}
            route = ["Q", "P"]
        srcs = {"src": {"product": "A", "t": "arr"}}
        if sources == 2:
            tms["arr2"] = tms["arr"][n // 2 :]
            tms["arr"] = tms["arr"][: n // 2]
            srcs["src2"] = {"product": "A", "t": "arr2"}
        ad = S.build(tms, procs, ms, {"A": {"procs": route}}, srcs)
        r = S.Run(ctx, ad, tms=fresh).go()
        ctx.observe("log", S.plain_log(r.log))
        check(ctx, r, n, b, c, r.draws.get("tP"), 1)

    return fn


def check(ctx, r, n, b, c, draws, const, m="M1"):
    log = r.log
    ops = sorted(O.ops(ctx, log), key=lambda o: o.first)
    full = n - n % b
    ctx.require(r.ended == "idle" and len(r.finished()) == full, "all products that fill a batch are finished", f"{r.ended} {len(r.finished())} of {full}")
    mine = [o for o in ops if o.resource == m and o.kind == "Production"]
    ctx.require(len(mine) == full and len({o.product for o in mine}) == full, "every product is worked on once, only in full batches", repr(mine))
    if len(mine) != full or any(not o.closed for o in mine):
        ctx.require(all(o.closed for o in mine), "every operation ends", "")
        return
    lg = flow.legs(ops, log)
    ready = flow.ready_times(ops, log, lg)
    ready = {o.product: ready[id(o)] for o in mine}
    groups = [mine[i : i + b] for i in range(0, full, b)]
    if draws is not None:
        ctx.require(len(draws) == len(groups), "one process time is drawn per batch", f"{len(draws)}")
    ends = []
    for k, g in enumerate(groups):
        s, e = g[0].start, g[0].end
        d = draws[k] if draws is not None and len(draws) == len(groups) else const
        for o in g:
            ctx.require(ctx.eq(o.start, s), "the members of a batch start together", repr(g))
            ctx.require(ctx.eq(o.end, e), "the members of a batch end together", repr(g))
        ctx.require(ctx.eq(e - s, d), "a batch takes its process time", repr(g))
        # exactly when the batch is complete and a slot is free (work-conserving)
        there = ctx.Max(*[ready[o.product] for o in g])
        later = [ready[o.product] for h in groups[k:] for o in h]
        ctx.require(ctx.le(there, s), "a batch waits for all its members", repr(g))
        for o in g:
            for h in groups[k + 1 :]:
                for x in h:
                    ctx.require(ctx.le(ready[o.product], ready[x.product]), "products are batched in the order of arrival", repr(g))
        slots = c // b
        if slots == 1:
            want = ctx.Max(there, ends[-1]) if ends else there
            ctx.require(ctx.eq(s, want), "a full batch starts as soon as the machine is free", repr(g))
            if ends:
                ctx.cover("a full batch waits for the machine", ctx.lt(there, s))
        else:
            over = [x for x in ends if x is not None]
            free = ctx.Sum(ctx.Ite(ctx.le(x, s), 1, 0) if ctx.symbolic else int(ctx.le(x, s)) for x in over)
            ctx.require(len(over) - free < slots, "no more batches at once than fit", repr(g))
        ends.append(e)
        ctx.cover("the batch waits for its last member", ctx.lt(ctx.Min(*[ready[o.product] for o in g]), s))


def again(n, b, gaps):
    """every product visits the batch machine twice, for two processes"""

    def fn(ctx):
        tms = {"tt": 1, "tP": ctx.real("tP", 0, None, True), "tQ": ctx.real("tQ", 0, None, True), "arr": [ctx.real(f"gap{k}", 0, None, True) if g is None else g for k, g in enumerate(gaps)]}
        ms = {"M1": {"procs": ["P", "Q"], "cap": b, "pcaps": [b, b], "batch": b}}
        ad = S.build(tms, {"P": {"t": "tP"}, "Q": {"t": "tQ"}}, ms, {"A": {"procs": ["P", "Q"]}}, {"src": {"product": "A", "t": "arr"}})
        r = S.Run(ctx, ad).go()
        ctx.observe("log", S.plain_log(r.log))
        mine = [o for o in sorted(O.ops(ctx, r.log), key=lambda o: o.first) if o.resource == "M1" and o.kind == "Production"]
        full = n - n % b
        ctx.require(r.ended == "idle" and len(r.finished()) == full, "all products that fill a batch are finished", f"{r.ended} {len(r.finished())}")
        ctx.require(len({(o.product, o.state) for o in mine}) == len(mine) == 2 * full, "every product is worked on once, only in full batches", repr(mine))
        for i in range(0, len(mine), b):
            g = mine[i : i + b]
            ctx.require(len(g) == b and len({o.state for o in g}) == 1 and len({o.product for o in g}) == b, "a batch holds products of one type and process", repr(g))
            for o in g:
                ctx.require(ctx.eq(o.start, g[0].start), "the members of a batch start together", repr(g))
                ctx.require(o.closed and ctx.eq(o.end - o.start, tms["tP" if o.state == "P" else "tQ"]), "a batch takes its process time", repr(g))
                ctx.require(i == 0 or ctx.le(mine[i - 1].end, o.start), "no more batches at once than fit", repr(g))
        ctx.cover("a batch of the second process before one of the first", any(a.state == "Q" and b_.state == "P" for a, b_ in zip(mine, mine[b:])))

    return fn


def mixed(na, nb, b, gaps, two_procs=False, slots=1):
    """two product types on one batch machine"""

    def fn(ctx):
        tms = {"tt": 1, "tP": 2, "tQ": 3}
        tms["arrA"] = [ctx.real("gapA", 0, None, True) if g is None else g for g in gaps[0]]
        tms["arrB"] = [ctx.real("gapB", 0, None, True) if g is None else g for g in gaps[1]]
        procs = {"P": {"t": "tP"}, "Q": {"t": "tQ"}}
        q = "Q" if two_procs else "P"
        ms = {"M1": {"procs": ["P", "Q"], "cap": b * slots, "pcaps": [b * slots] * 2, "batch": b}}
        ad = S.build(tms, procs, ms, {"A": {"procs": ["P"]}, "B": {"procs": [q]}}, {"sA": {"product": "A", "t": "arrA"}, "sB": {"product": "B", "t": "arrB"}})
        r = S.Run(ctx, ad).go()
        ctx.observe("log", S.plain_log(r.log))
        ops = sorted(O.ops(ctx, r.log), key=lambda o: o.first)
        ctx.require(r.ended == "idle" and len(r.finished()) == na - na % b + nb - nb % b, "all products that fill a batch are finished", f"{r.ended} {len(r.finished())}")
        mine = [o for o in ops if o.resource == "M1" and o.kind == "Production"]
        ctx.require(len(mine) == len({o.product for o in mine}) == na - na % b + nb - nb % b, "every product is worked on once, only in full batches", repr(mine))
        for i in range(0, len(mine), b):
            g = mine[i : i + b]
            ctx.require(len(g) == b and len({(o.product[0], o.state) for o in g}) == 1, "a batch holds products of one type and process", repr(g))
            for o in g:
                ctx.require(o.state == ("P" if o.product[0] == "A" else q), "every product gets its own process", repr(g))
                ctx.require(ctx.eq(o.start, g[0].start), "the members of a batch start together", repr(g))
            if i >= b * slots:
                ctx.require(ctx.Or(*[ctx.le(o.end, g[0].start) for o in mine[i - b * slots : i]]), "no more batches at once than fit", repr(g))

    return fn


def scenarios(tier):
    q = tier == "quick"
    w = ["the batch waits for its last member"]
    return [
        Scenario("batch-2", batch(4, 2, gaps=[1, None, 1, None] if q else "sym"), w + ["a full batch waits for the machine"], bounds="4 products, batches of 2"),
        Scenario("batch-3", batch(3, 3), w, bounds="3 products, one batch of 3"),
        Scenario("incomplete", batch(3, 2), w, bounds="3 products, batches of 2: the last one stays waiting"),
        Scenario("batch-2-capacity-4", batch(4, 2, cap=4, gaps=[1, None, 1, None], draw=not q), w, bounds="4 products, batches of 2, two batches at once"),
        Scenario("two-sources", batch(4, 2, cap=4, gaps=[1, None, 1, None], sources=2, draw=not q), w, bounds="4 products from two sources, simultaneous arrivals included"),
        Scenario("two-types", mixed(2, 2, 2, ([1, None], [2, None])), bounds="2 products each of two types, same process"),
        Scenario("two-types-two-processes", mixed(2, 2, 2, ([1, None], [2, None]), True), bounds="2 products each of two types, two processes"),
        Scenario("capacity-3", batch(4, 2, cap=3, gaps=[1, None, 1, None], draw=not q), w, bounds="4 products, batches of 2, machine of capacity 3"),
        Scenario("other-type-incomplete", mixed(1, 2, 2, ([1], [2, None])), bounds="an incomplete batch of another type waits"),
        Scenario("second-type-later", mixed(2, 2, 2, ([1, 1], [9, None])), bounds="a second batch of another type arrives during or after the first"),
        Scenario("second-type-later-two-processes", mixed(3, 2, 2, ([1, 1, 1 if q else None], [9, None]), True), bounds="3 + 2 products of two types, two processes"),
        Scenario("two-types-capacity-4", mixed(2, 4, 2, ([1, 1 if q else None], [2, 1, 1, None]), True, 2), bounds="2 + 4 products of two types, two processes, two batches at once"),
        Scenario("two-visits", again(4, 2, [1, 1, None, 1 if q else None]), ["a batch of the second process before one of the first"], bounds="4 products that visit the batch machine twice"),
        Scenario("after-machine", batch(4, 2, gaps=[1, 1, 1, None], pre=3, draw=not q), w, bounds="4 products, a normal machine in front"),
    ]
