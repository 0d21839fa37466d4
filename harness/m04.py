"""M04: work goes to exactly those resources that can do it."""
from symx.engine import Scenario

from . import oracle as O
from . import simlib as S
from .names import name

ASSUMPTIONS = [
    "machines and transports that are busy for longer than the run, so that every resource that is offered work gets some",
    "capabilities are arbitrary strings (two listed ones, or any other)",
    "compound processes are not looked at (the simulation does not support them)",
]
LONG = 5000.0
CAPS = ["turn", "turning"]


def at(ctx, ops, kind):
    out = {}
    for o in ops:
        if o.kind == kind and not o.empty:
            out.setdefault(o.resource, []).append(o)
    return out


def run(ctx, ad, caps, end):
    for p in ad.process_data:
        if p.ID in caps:
            p.capability = caps[p.ID]
    r = S.Run(ctx, ad)
    try:
        r.go(until=lambda r: r.env.now > end)
        r.refused = None
    except ValueError as e:
        r.refused = str(e)
    r.events = list(r.log) if getattr(r.r, "event_logger", None) else []
    return r


def production(n, sets):
    """n machines whose processes are any of the given sets; every kind of required process"""

    def fn(ctx):
        k = {i: name(ctx, "k" + i, CAPS)[0] for i in ("CA", "CB", "RQ")}
        procs = {
            "P1": {"t": "t"}, "P11": {"t": "t"}, "CA": {"kind": "cap", "t": "t", "capability": "turn"},
            "CB": {"kind": "cap", "t": "t", "capability": "turn"}, "RQ": {"kind": "req", "capability": "turn"},
        }
        want = ["P1", "CA", "RQ"][ctx.choice(3, "required")]
        has = {f"M{i}": sets[ctx.choice(len(sets), f"of M{i}")] for i in range(n)}
        t = ctx.real("t", LONG, None)
        ad = S.build(
            {"t": t, "tt": 0.125, "arr": [1] * (2 * n + 1)}, procs, {m: {"procs": list(ps), "inq": 1} for m, ps in has.items()},
            {"A": {"procs": [want]}}, {"src": {"product": "A", "t": "arr", "cap": 0}},
        )
        r = run(ctx, ad, k, 100)
        ops = O.ops(ctx, r.events)
        ctx.observe("log", S.plain_log(r.events))
        ctx.observe("refused", bool(r.refused))

        def does(p):
            if want == "P1":
                return p == "P1"
            return p in ("CA", "CB") and (p == want or k[p] == k[want])

        can = {m: [p for p in ps if does(p)] for m, ps in has.items()}
        able = {m for m, c in can.items() if c}
        got = at(ctx, ops, "Production")
        ctx.require(bool(r.refused) == (not able), "work nobody can do is refused, other work is not", f"{want} of {has}: {r.refused}")
        ctx.require(set(got) == able, "exactly the machines that can do it get work", f"{want} of {has}: {sorted(got)}")
        for m, os in got.items():
            ctx.require(len(os) == 1 and os[0].state in can[m], "a machine does it with a process that fits", f"{want} at {m}: {os}")
        ctx.cover("some can", 0 < len(able) < n)
        ctx.cover("nobody can", not able)

    return fn


def transport(pairs=False):
    """two transports of any kind of process (one with two); every kind of required process"""

    def fn(ctx):
        k = {i: name(ctx, "k" + i, CAPS)[0] for i in ("LA", "LB", "RQ")}
        no_cap = ctx.choice(2, "LA has a capability") == 0
        if no_cap:
            k.pop("LA")
        there = ctx.choice(2, "LB reaches") == 1
        goal = [["src", "M1"], ["M1", "K_A"]] if there else [["M2", "M1"], ["M1", "K_A"]]
        procs = {
            "TP1": {"kind": "transport", "t": "t"}, "TP11": {"kind": "transport", "t": "t"},
            "LA": {"kind": "link", "t": "t", "links": [["src", "M1"]], "capability": "" if no_cap else "turn"},
            "LB": {"kind": "link", "t": "t", "links": goal, "capability": "turn"},
            "RQ": {"kind": "req", "capability": "turn"}, "P": {"t": "tm"}, "PX": {"t": "tm"},
        }
        want = ["TP1", "LA", "RQ", "LB"][ctx.choice(4, "required")]
        kinds = ["TP1", "TP11", "LA", "LB"]
        a = ctx.choice(4, "of T1")
        b = 1 + 2 * ctx.choice(2, "of T2") if pairs else ctx.choice(4, "of T2")
        if pairs:
            c = ctx.choice(4, "also of T1")
            ctx.assume(a != c)
            has = {"T1": [kinds[a], kinds[c]], "T2": [kinds[b]]}
        else:
            ctx.assume(a <= b)
            has = {"T1": [kinds[a]], "T2": [kinds[b]]}
        ad = S.build(
            {"t": ctx.real("t", LONG, None), "tm": 1, "arr": [1, 1, 1]}, procs, {"M1": {"procs": ["P"]}, "M2": {"procs": ["PX"]}},
            {"A": {"procs": ["P"], "tp": want}}, {"src": {"product": "A", "t": "arr", "heuristic": "shortest_queue"}},
            transports={t: {"procs": ps, "cap": 1, "loc": [0.0, 10.0]} for t, ps in has.items()},
        )
        r = run(ctx, ad, k, 100)
        ops = O.ops(ctx, r.events)
        ctx.observe("log", S.plain_log(r.events))
        ctx.observe("refused", bool(r.refused))

        def does(p):
            if p == "LB" and not there:
                return False
            if want == "TP1" or p in ("TP1", "TP11"):
                return p == want
            if p == want:
                return True
            if p not in k or want not in k:
                return False
            return k[p] == k[want]

        able = {t for t, ps in has.items() if any(does(p) for p in ps)}
        got = {o.resource for o in ops if o.kind == "Transport"}
        ctx.require(bool(r.refused) == (not able), "work nobody can do is refused, other work is not", f"{want} of {has}: {r.refused}")
        ctx.require(got == able, "exactly the transports that can do it get work", f"{want} of {has}: {sorted(got)}")
        ctx.cover("one can", len(able) == 1)
        ctx.cover("nobody can", not able)

    return fn


def reach():
    """machines a transport over links does not reach get no work"""

    def fn(ctx):
        offered = [["src", "M1"], ["n1", "src"], ["n1", "M2"], ["M1", "M2"], ["M2", "n2"]]
        links = [e for i, e in enumerate(offered) if ctx.bool(f"e{i}")]
        ctx.assume(len(links) >= 1)
        procs = {"LP": {"kind": "link", "t": "tt", "links": links, "capability": ""}, "P": {"t": "t"}, "PX": {"t": "t"}}
        ad = S.build(
            {"t": ctx.real("t", LONG, None), "tt": 0.125, "arr": [1] * 5}, procs,
            {"M1": {"procs": ["P"], "inq": 1}, "M2": {"procs": ["PX", "P"], "inq": 1}, "M3": {"procs": ["PX"]}},
            {"A": {"procs": ["P"], "tp": "LP"}}, {"src": {"product": "A", "t": "arr"}},
            transports={"T": {"procs": ["LP"], "cap": 1, "loc": [0.0, 10.0]}}, nodes={"n1": [5.0, 0.0], "n2": [5.0, 5.0]},
        )
        r = run(ctx, ad, {}, 100)
        ops = O.ops(ctx, r.events)
        ctx.observe("log", S.plain_log(r.events))
        seen = {"src"}
        while True:
            more = {b for a, b in links if a in seen} | {a for a, b in links if b in seen}
            if more <= seen:
                break
            seen |= more
        able = seen & {"M1", "M2"}
        ctx.require(bool(r.refused) == (not able), "work nobody can do is refused, other work is not", f"{links}: {r.refused}")
        got = at(ctx, ops, "Production")
        ctx.require(set(got) == able, "exactly the machines that are reached get work", f"{links}: {sorted(got)}")
        ctx.cover("one is reached", len(able) == 1)
        ctx.cover("none is reached", not able)

    return fn


def sinks():
    """finished products go to the sinks that can be reached"""

    def fn(ctx):
        offered = [["M1", "K1"], ["n1", "M1"], ["n1", "K2"], ["K1", "K2"]]
        links = [["src", "M1"]] + [e for i, e in enumerate(offered) if ctx.bool(f"e{i}")]
        ad = S.build(
            {"t": ctx.real("t", 1, 10), "tt": 0.125, "arr": [1]}, {"LP": {"kind": "link", "t": "tt", "links": links, "capability": ""}, "P": {"t": "t"}},
            {"M1": {"procs": ["P"]}}, {"A": {"procs": ["P"], "tp": "LP"}, "B": {"procs": ["P"], "tp": "LP"}}, {"src": {"product": "A", "t": "arr"}},
            transports={"T": {"procs": ["LP"], "cap": 1, "loc": [0.0, 10.0]}}, nodes={"n1": [5.0, 0.0]},
            sinks={"K1": {"product": "A"}, "K3": {"product": "B"}, "K2": {"product": "A"}},
        )
        r = run(ctx, ad, {}, 100)
        ops = O.ops(ctx, r.events)
        ctx.observe("log", S.plain_log(r.events))
        seen = {"M1"}
        while True:
            more = {b for a, b in links if a in seen} | {a for a, b in links if b in seen}
            if more <= seen:
                break
            seen |= more
        able = seen & {"K1", "K2"}
        ctx.require(bool(r.refused) == (not able), "work nobody can do is refused, other work is not", f"{links}: {r.refused}")
        done = any(S.act(e) == "finished product" for e in r.events)
        ctx.require(done == bool(able), "a product that can be brought to a sink is", f"{links}")
        ctx.cover("one of two", len(able) == 1)
        ctx.cover("no sink", not able)

    return fn


def scenarios(tier):
    q = tier == "quick"
    one = [("P1",), ("P11",), ("CA",), ("CB",)]
    two = one + [("P11", "P1"), ("CB", "P1"), ("CA", "CB"), ("P11", "CA")]
    return [
        Scenario("production", production(2 if q else 3, one), ["some can", "nobody can"], bounds="2 (quick) / 3 machines with one process each: by name, similar name, or capability"),
        Scenario("production-two", production(2, two), ["some can", "nobody can"], bounds="2 machines with one or two processes"),
        Scenario("transport", transport(), ["one can", "nobody can"], bounds="2 transports with one process each: plain, over links, with or without capability"),
        Scenario("transport-two", transport(True), ["one can", "nobody can"], bounds="2 transports, one with two processes"),
        Scenario("sinks", sinks(), ["one of two", "no sink"], bounds="every subset of 4 links to two sinks, by a node or not"),
        Scenario("reach", reach(), ["one is reached", "none is reached"], bounds="every subset of 5 links over 2 machines and 2 nodes"),
    ]
