from symx.engine import Scenario

from . import flow
from . import oracle as O
from . import simlib as S

ASSUMPTIONS = ["arrival gaps, process and transport times are arbitrary positive reals up to 10000", "no breakdowns in these systems"]


def with_check(build):
    def fn(ctx):
        flow.check_queues(ctx, build(ctx))

    return fn


def stored(jobs, gaps, cap=1, tcap=1, shared=False, tt=1):
    """finished products may wait in an external store of finite capacity"""

    def fn(ctx):
        tms = {"tP1": 1, "tP2": ctx.real("tP2", 0, None, True), "tt": tt, "arr": [ctx.real("gap", 0, None, True) if g is None else g for g in gaps]}
        procs = {"P1": {"t": "tP1"}, "P2": {"t": "tP2"}}
        ms = {"M1": {"procs": ["P1"], "outq": ["M1_out", "ST"]}, "M2": {"procs": ["P2"], "inq": 1}}
        qs = {"M1_out": 1}
        if shared:
            ms["M3"] = {"procs": ["P1"], "outq": ["M3_out", "ST"]}
            qs["M3_out"] = 1
        ad = S.build(
            tms, procs, ms, {"A": {"procs": ["P1", "P2"]}}, {"src": {"product": "A", "t": "arr"}},
            transports={"T": {"procs": ["TP"], "cap": tcap}}, queues=qs, stores={"ST": {"capacity": cap, "location": [30.0, 5.0]}},
        )
        r = S.Run(ctx, ad, hook=flow.queue_hook).go()
        ctx.observe("log", S.plain_log(r.log))
        r.info = {
            "jobs": jobs, "machines": {m: 1 for m in ms}, "inq": {"M2": 1}, "outq": {m: 1 for m in ms if m != "M2"},
            "tcap": tcap, "tn": 1, "srcq": 0,
        }
        flow.check_queues(ctx, r)
        # a place in the store is taken from the moment a trip to it starts until the product is fetched
        lg = flow.legs(sorted(O.ops(ctx, r.log), key=lambda o: o.first), r.log)
        spans = []
        for g in lg:
            if g["target"] == "ST":
                out = [h["ops"][-1] for h in lg if h["product"] == g["product"] and h["ops"][0].first > g["ops"][-1].last]
                spans.append(flow._Span("ST", g["ops"][-1].first, out[0].first if out else 10**9, g["ops"][-1].start, out[0].start if out else None))
        flow.busy_limit(ctx, spans, cap, "products waiting in or loaded for a finite store never exceed its capacity")
        ctx.cover("the store is full", len(spans) > cap)

    return fn


def choose(jobs, caps, gaps):
    """products of one process wait at the source for a place at either of two machines"""

    def fn(ctx):
        tms = {"tP": ctx.real("tP", 0, None, True), "tt": 1, "arr": [ctx.real("gap", 0, None, True) if g is None else g for g in gaps]}
        ms = {m: {"procs": ["P"], "inq": c} for m, c in caps.items()}
        ad = S.build(tms, {"P": {"t": "tP"}}, ms, {"A": {"procs": ["P"]}}, {"src": {"product": "A", "t": "arr"}}, transports={"T": {"procs": ["TP"], "cap": 8}})
        r = S.Run(ctx, ad, hook=flow.queue_hook).go()
        ctx.observe("log", S.plain_log(r.log))
        r.info = {"jobs": jobs, "machines": {m: 1 for m in ms}, "inq": dict(caps), "outq": {m: 0 for m in ms}, "tcap": 8, "tn": 1, "srcq": 0}
        flow.check_queues(ctx, r)
        log = r.log
        ops = sorted(O.ops(ctx, log), key=lambda o: o.first)
        first, held = {}, {m: [] for m in ms}
        for g in flow.legs(ops, log):
            if g["target"] in ms:
                first[g["product"]] = g["ops"][0].first
                work = [o.first for o in ops if o.kind == "Production" and o.product == g["product"]]
                held[g["target"]].append((g["ops"][0].first, work[0] if work else len(log)))
        born = {e["Product"]: i for i, e in enumerate(log) if S.act(e) == "created product"}
        for i in range(len(log) - 1):
            free = [m for m in ms if sum(a <= i < b for a, b in held[m]) < caps[m]]
            late = [p for p in born if born[p] <= i < first.get(p, len(log))]
            ctx.cover("a product waits for a place", bool(late))
            ctx.cover("one machine has a place", late and len(free) == 1)
            if free and late:
                ctx.require(ctx.eq(log[i]["Time"], log[i + 1]["Time"]), "a product is fetched as soon as there is a place for it", f"{late[0]} {free[0]}")

    return fn


def scenarios(tier):
    q = tier == "quick"
    full = ["input queue is full"]
    return [
        Scenario("input-1", with_check(flow.line(3, ("P1",), (1,), (1,), (0,))), full, bounds="3 products, input queue of capacity 1"),
        Scenario("input-2", with_check(flow.line(3, ("P1",), (1,), (2,), (0,), times="sym")), full, bounds="3 products, input queue of capacity 2"),
        Scenario("output-1", with_check(flow.line(3, ("P1",), (1,), (0,), (1,), tcap=1, tt="sym", times="const")), bounds="3 products, output queue of capacity 1, one transporter"),
        Scenario("line-all-1", with_check(flow.line(3, ("P1", "P2"), (1, 1), (1, 1), (1, 1), gaps=(1, 1, 1))), full, bounds="3 products, two machines, all queues of capacity 1"),
        Scenario("output-blocked", with_check(flow.line(5, ("P1", "P2"), (1, 1), (0, 1), (1, 0), times=(1, None), gaps=(1, 1, 1, 1, 1))), full, bounds="5 products, a slow machine that holds the finished products of the one before it"),
        Scenario("batch-output-blocked", with_check(flow.line(8, ("P1", "P2"), (2, 1), (0, 1), (2, 0), times=(1, None), gaps=(1,) * 8, batch=(2, 0))), full, bounds="8 products, batches of 2 before a slow machine, output queue of capacity 2"),
        Scenario("capacity-2-machine", with_check(flow.line(3, ("P1",), (2,), (1,), (1,))), full, bounds="machine of capacity 2 with queues of capacity 1"),
        Scenario("several-queues", with_check(flow.several(3, (1, 1, 1), gaps=(1, None, 1))), bounds="3 products, two queues of capacity 1 on each side of a machine and at the source"),
        Scenario("several-queues-batch", with_check(flow.several(4, (1, 2, 2), gaps=(1, 1, 1, 1), batch=2, cap=2)), bounds="4 products, the same with batches of 2"),
        Scenario("store", stored(3, (1, 1, None)), ["the store is full"], bounds="3 products, a store of capacity 1 behind the output queue of the first machine"),
        Scenario("store-shared", stored(3, (1, 1, None), shared=True, tcap=2), ["the store is full"], bounds="3 products, two machines share a store of capacity 1"),
        Scenario("store-2", stored(6, (1,) * 6, cap=2, tcap=4, tt=5), ["the store is full"], bounds="6 products, a store of capacity 2 with several products on their way to it"),
        Scenario("either-machine", choose(6, {"M1": 1, "M2": 1}, (1, 5, 1, 1, 1, None)), ["a product waits for a place", "one machine has a place"], bounds="6 products, two machines with input queues of capacity 1"),
        Scenario("source-queue-1", with_check(flow.line(3, ("P1",), (1,), (1,), (0,), srcq=1)), bounds="finite output queue at the source"),
    ]
