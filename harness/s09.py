"""S09: products are routed to resources as the routing heuristic promises."""
from symx.engine import Scenario

from . import flow
from . import oracle as O
from . import simlib as S

ASSUMPTIONS = [
    "arrival gaps and process times are arbitrary positive reals up to 10000",
    "work that arrives or leaves at the very instant of a decision may or may not count in it",
]


def build(ctx, heuristic, n, inq=0, transports=1, tcap=8, times=("sym", "sym"), order=("M1", "M2"), tt=1, gaps=None):
    tms = {"tt": tt if tt != "sym" else ctx.real("tt", 0, None, True)}
    for i, t in enumerate(times):
        tms[f"t{i}"] = ctx.real(f"t{i}", 0, None, True) if t == "sym" else t
    tms["arr"] = [1] + (list(gaps) if gaps else [ctx.real("gap", 0, None, True) for _ in range(n - 1)])
    procs = {"PA": {"t": "t0"}, "PB": {"t": "t1"}, "PX": {"t": "t0"}}
    procs["TP"] = {"kind": "transport", "t": "tt"}
    ms = {"M0": {"procs": ["PX"]}}
    for m in order:
        ms[m] = {"procs": ["PX", "PA"] if m == "M2" else ["PA"], "inq": inq}
    ad = S.build(
        tms, procs, ms, {"A": {"procs": ["PA"]}}, {"src": {"product": "A", "t": "arr", "heuristic": heuristic}},
        transports={f"T{i}": {"procs": ["TP"], "cap": tcap} for i in range(transports)},
    )
    r = S.Run(ctx, ad).go()
    ctx.observe("log", S.plain_log(r.log))
    ops = sorted(O.ops(ctx, r.log), key=lambda o: o.first)
    ctx.require(r.ended == "idle" and len(r.finished()) == n, "every product is finished", f"{len(r.finished())}")
    lg = flow.legs(ops, r.log)
    return r, ops, lg, flow.ready_times(ops, r.log, lg)


def num(ctx, conds):
    return ctx.Sum(ctx.Ite(c, 1, 0) if ctx.symbolic else (1 if c else 0) for c in conds)


def machines(heuristic, n, inq=0, order=("M1", "M2"), times=("sym", "sym"), gaps=None):
    def fn(ctx):
        g = None if not gaps else [ctx.real("gap", 0, None, True) if x is None else x for x in gaps]
        r, ops, lg, ready = build(ctx, heuristic, n, inq, order=order, times=times, gaps=g)
        prod = {o.product: o for o in ops if o.kind == "Production"}
        ins = [g for g in lg if g["target"] in order]
        for g in lg:
            ctx.require(g["target"] in order or g["target"].startswith("K_"), "a product goes to a resource that offers its process", f"{g['product']} to {g['target']}")
        for m in order:
            ctx.cover(f"{m} is chosen", any(g["target"] == m for g in ins))
        for k, g in enumerate(ins):
            s, rd = g["ops"][0].start, ready[id(g)]
            others = [h for h in ins if h is not g]
            # routed to m and not yet taken from its queue, before s for sure / possibly
            reserved_hi = {m: num(ctx, [ctx.And([ctx.le(h["ops"][0].start, s), ctx.le(s, prod[h["product"]].start)]) for h in others if h["target"] == m]) for m in order}
            reserved_lo = {m: num(ctx, [ctx.And([ctx.lt(h["ops"][0].start, s), ctx.lt(s, prod[h["product"]].start)]) for h in others if h["target"] == m]) for m in order}
            if inq:
                ctx.require(reserved_lo[g["target"]] < inq, "a product goes to a resource with room in its queue", g["product"])
                full = [num(ctx, [ctx.And([ctx.le(h["ops"][0].start, rd), ctx.le(rd, prod[h["product"]].start)]) for h in others if h["target"] == m]) >= inq for m in order]
                ctx.require(ctx.Or([ctx.eq(s, rd), ctx.And(full)]), "a product waits only while no resource has room", g["product"])
                ctx.cover("a product waits for room", ctx.lt(rd, s))
            else:
                ctx.require(ctx.eq(s, rd), "a product with a possible resource does not wait", g["product"])
            if heuristic == "shortest_queue":
                lo = {m: num(ctx, [ctx.And([ctx.lt(h["ops"][-1].end, s), ctx.lt(s, prod[h["product"]].start)]) for h in others if h["target"] == m]) for m in order}
                hi = {m: num(ctx, [ctx.And([ctx.le(h["ops"][-1].end, s), ctx.le(s, prod[h["product"]].start)]) for h in others if h["target"] == m]) for m in order}
                for m in order:
                    if m != g["target"]:
                        free = True if not inq else reserved_hi[m] < inq
                        ctx.require(ctx.Implies(free, lo[g["target"]] <= hi[m]), "the resource with the fewest waiting products is chosen", g["product"])
                        ctx.cover("queues of different length", lo[m] > hi[g["target"]])
            if heuristic == "FIFO":
                first = order[0]
                if g["target"] != first:
                    ctx.require(reserved_hi[first] >= inq if inq else False, "the first resource with room is chosen", g["product"])

    return fn


def transporters(heuristic, n, gaps=None, tt=None):
    def fn(ctx):
        r, ops, lg, ready = build(ctx, heuristic, n, transports=2, tcap=1, times=(1, 1), order=("M1",), tt=tt or ("sym" if gaps else 3), gaps=None if not gaps else [ctx.real("gap", 0, None, True) if g is None else g for g in gaps])
        used = {g["resource"] for g in lg}
        ctx.require(used <= {"T0", "T1"}, "a product is moved by a transport resource", repr(used))
        ctx.cover("both transporters are used", len(used) == 2)
        for g in lg:
            rd = ready[id(g)]
            lo, hi = {}, {}
            for t in ("T0", "T1"):
                oth = [h for h in lg if h is not g and h["resource"] == t]
                lo[t] = num(ctx, [ctx.And([ctx.lt(ready[id(h)], rd), ctx.lt(rd, h["ops"][0].start)]) for h in oth])
                hi[t] = num(ctx, [ctx.And([ctx.le(ready[id(h)], rd), ctx.le(rd, h["ops"][0].start)]) for h in oth])
            other = "T1" if g["resource"] == "T0" else "T0"
            if heuristic == "shortest_queue":
                ctx.require(lo[g["resource"]] <= hi[other], "the transport resource with the fewest waiting requests is chosen", g["product"])
                ctx.cover("request queues of different length", lo[other] > hi[g["resource"]])
            if heuristic == "FIFO":
                ctx.require(g["resource"] == "T0", "the first transport resource is chosen", g["product"])

    return fn


def scenarios(tier):
    q = tier == "quick"
    both = ["M1 is chosen", "M2 is chosen"]
    sq = both + ["queues of different length"]
    n = 3 if q else 4
    t = ("sym", 1)
    return [
        Scenario("shortest-queue", machines("shortest_queue", 3, times=(5, 1) if q else t), both, bounds="3 products, two machines with the process"),
        Scenario("shortest-queue-declared-last", machines("shortest_queue", 3, order=("M2", "M1"), times=(20, 1), gaps=(0.5, None) if q else None), sq, bounds="3 products, other declaration order, fixed process time"),
        Scenario("shortest-queue-finite", machines("shortest_queue", 3, inq=1, times=(5, 1) if q else t), both, bounds="input queues of capacity 1"),
        Scenario("FIFO-finite", machines("FIFO", 3 if q else 4, inq=1, times=t), both, bounds="first resource with room"),
        Scenario("FIFO", machines("FIFO", 2, times=t), ["M1 is chosen"], bounds="2 products"),
        Scenario("random", machines("random", 2, times=t), both, bounds="2 products"),
        Scenario("random-finite", machines("random", 3, inq=1, times=t, gaps=(0.5, None) if q else None), both, bounds="3 products, input queues of capacity 1"),
        Scenario("transport-shortest", transporters("shortest_queue", 3, gaps=(1, 1) if q else None), ["both transporters are used", "request queues of different length"], bounds="3 products, two transporters"),
        Scenario("transport-shortest-4", transporters("shortest_queue", 4, gaps=(1, 1, 1 if q else None), tt=30), ["both transporters are used", "request queues of different length"], bounds="4 products, two transporters with long trips"),
        Scenario("transport-FIFO", transporters("FIFO", 2), bounds="2 products, two transporters"),
    ]
