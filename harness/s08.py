"""S08: waiting requests are served in the order the control policy promises."""
from symx.engine import Scenario

from . import flow
from . import oracle as O
from . import simlib as S

ASSUMPTIONS = [
    "arrival gaps, process times and positions are arbitrary reals (times up to 10000, positions 0..100)",
    "a request that arrives at the very instant of a decision may or may not take part in it",
    "single-capacity resources and machines with batches of 2",
]


def machine(policy, n, same=True, tp=None, second=None):
    """n products compete for one machine; same: one process, else one each"""

    def fn(ctx):
        tms = {"tt": 1}
        procs, prods, srcs = {}, {}, {}
        if same:
            tms["tP"] = ctx.real("tP", 0, None, True) if tp is None else tp
            tms["arr"] = [1] + [ctx.real("gap", 0, None, True) if i or second is None else second for i in range(n - 1)]
            procs["P"] = {"t": "tP"}
            prods["A"] = {"procs": ["P"]}
            srcs["src"] = {"product": "A", "t": "arr"}
        else:
            for i in range(n):
                first = tp is not None and i == 0
                tms[f"t{i}"] = tp if first else ctx.real(f"t{i}", 0, None, True)
                tms[f"arr{i}"] = [1 if first else second if second and i == 1 else ctx.real(f"arr{i}", 0, None, True)]
                procs[f"P{i}"] = {"t": f"t{i}"}
                prods[f"A{i}"] = {"procs": [f"P{i}"]}
                srcs[f"src{i}"] = {"product": f"A{i}", "t": f"arr{i}"}
        ad = S.build(tms, procs, {"M1": {"procs": list(procs), "cap": 1, "policy": policy}}, prods, srcs)
        r = S.Run(ctx, ad).go()
        ctx.observe("log", S.plain_log(r.log))
        ops = sorted(O.ops(ctx, r.log), key=lambda o: o.first)
        ctx.require(r.ended == "idle" and len(r.finished()) == n, "every request is served", f"{len(r.finished())}")
        ready = flow.ready_times(ops, r.log, flow.legs(ops, r.log))
        mine = [o for o in ops if o.resource == "M1"]
        choose(ctx, policy, [(ready[id(o)], o.start, tms["tP"] if same else tms["t" + o.state[1:]], o.product) for o in mine])

    return fn


def batches(policy, kinds=4):
    """pairs of products of different kinds compete for a machine with batches of two"""

    def fn(ctx):
        tms, procs, prods, srcs = {"tt": 1}, {}, {}, {}
        for i in range(kinds):
            tms[f"t{i}"] = 20 if i < 2 else 4 if i == 3 or policy == "FIFO" else ctx.real(f"t{i}", 0, None, True)
            tms[f"arr{i}"] = [1 + i, 0] if i < 2 else [6, 1] if i == 2 else [ctx.real(f"arr{i}", 3, 20, True), 1]
            procs[f"P{i}"] = {"t": f"t{i}"}
            prods[f"A{i}"] = {"procs": [f"P{i}"]}
            srcs[f"src{i}"] = {"product": f"A{i}", "t": f"arr{i}"}
        ad = S.build(tms, procs, {"M1": {"procs": list(procs), "cap": 2, "batch": 2, "policy": policy}}, prods, srcs)
        r = S.Run(ctx, ad).go()
        ctx.observe("log", S.plain_log(r.log))
        ops = sorted(O.ops(ctx, r.log), key=lambda o: o.first)
        ctx.require(r.ended == "idle" and len(r.finished()) == 2 * kinds, "every request is served", f"{len(r.finished())}")
        ready = flow.ready_times(ops, r.log, flow.legs(ops, r.log))
        groups = {}
        for o in ops:
            if o.resource == "M1":
                groups.setdefault(o.state, []).append(o)
        g = list(groups.values())
        for k, a in enumerate(g):
            # the next batch is set aside while one is worked on: it is chosen when the one before starts
            s0 = g[k - 1][0].start if k else a[0].start
            for b in g[k + 1 :]:
                ra, rb = [ready[id(o)] for o in a], [ready[id(o)] for o in b]
                waiting = ctx.And([ctx.lt(t, s0) for t in rb])
                if policy == "FIFO":
                    good = ctx.le(ctx.Min(*ra) if ctx.symbolic else min(ra), ctx.Min(*rb) if ctx.symbolic else min(rb))
                else:
                    good = ctx.le(tms["t" + a[0].state[1:]], tms["t" + b[0].state[1:]])
                ctx.require(ctx.Or([ctx.Not(waiting), good]), f"{policy} order of batches", f"{a[0].product} before {b[0].product}")
                ctx.cover("two requests wait", ctx.And([ctx.lt(t, s0) for t in ra] + [waiting]))
                if policy != "FIFO":
                    ctx.cover("the policy prefers a later request", ctx.And([waiting, *[ctx.lt(x, y) for x in rb for y in ra]]))

    return fn


def choose(ctx, policy, jobs):
    """jobs in start order: (ready, start, time, name)"""
    for k, (rk, sk, tk, nk) in enumerate(jobs):
        for rj, sj, tj, nj in jobs[k + 1 :]:
            waiting = ctx.lt(rj, sk)
            if policy == "FIFO":
                good = ctx.le(rk, rj)
            elif policy == "LIFO":
                good = ctx.le(rj, rk)
            else:
                good = ctx.le(tk, tj)
            ctx.require(ctx.Or([ctx.Not(waiting), good]), f"{policy} order", f"{nk} before {nj}")
            ctx.cover("two requests wait", ctx.And([ctx.lt(rk, sk), waiting]))
            if policy != "FIFO":
                ctx.cover("the policy prefers a later request", ctx.And([waiting, ctx.lt(rj, rk)]))


def dist(ctx, a, b):
    t = 0
    for x, y in zip(a, b):
        d = x - y
        t = t + (ctx.Ite(ctx.le(0, d), d, -d) if ctx.symbolic else abs(d))
    return t


def place(r, loc):
    """positions, set on the objects of the initialised simulation"""
    for f in (r.r.resource_factory.resources, r.r.source_factory.sources, r.r.sink_factory.sinks):
        for x in f:
            d = x.data
            for k in ("location", "input_location", "output_location"):
                if getattr(d, k, None) is not None:
                    setattr(d, k, list(loc[d.ID]))


def transport(policy, n, tm=1000, jobs=None, same=False, msym=True, sides=None):
    """n product types, each with its own source and machine; one transporter"""

    def fn(ctx):
        tms = {"tt": ("dist", 1.0, 1.0, "manhattan")}
        procs, prods, srcs, ms, loc = {}, {}, {}, {}, {}
        at = 0.5
        counts = jobs or [1] * n
        for i in range(n):
            # same: all sources equally far from every machine and sink
            src = [10, 5 * (2 * i - 1)] if same else [ctx.real(f"x{i}", 0, 100) if i else 10, 0]
            m = [20 + i, 0] if same else [20 + 40 * i if not (i and msym) or (msym == 1 and i > 1) else ctx.real(f"m{i}", 0, 100), 0]
            procs[f"P{i}"] = {"t": f"t{i}"}
            tms[f"t{i}"] = tm if tm != "sym" else ctx.real(f"t{i}", 0, 200, True)
            prods[f"A{i}"] = {"procs": [f"P{i}"]}
            tms[f"arr{i}"] = [at * (i + 1)] + [at] * (counts[i] - 1)
            srcs[f"src{i}"] = {"product": f"A{i}", "t": f"arr{i}"}
            ms[f"M{i}"] = {"procs": [f"P{i}"], "cap": 1}
            loc[f"src{i}"], loc[f"M{i}"], loc[f"K_A{i}"] = src, m, [30 + i, 0]
        loc["T"] = [10, 0]
        outs = {}
        if sides:  # machines are left on another side than they are entered
            for i in range(n):
                fixed = [20 + 25 * i, 0]
                free = [ctx.real(f"side{i}", 0, 100), 0] if i in (1, 2) else [70, 0]
                loc[f"M{i}"], outs[f"M{i}"] = (free, fixed) if sides == "in" else (fixed, free)
        xs = [p[0] for p in (*loc.values(), *outs.values())]
        for i, a in enumerate(xs):
            for b in xs[:i]:
                if ctx.symbolic and not (isinstance(a, (int, float)) and isinstance(b, (int, float))):
                    ctx.assume(ctx.Not(ctx.eq(a, b)))
        procs["TP"] = {"kind": "transport", "t": "tt"}
        ad = S.build(tms, procs, ms, prods, srcs, transports={"T": {"procs": ["TP"], "cap": 1, "policy": policy}})
        r = S.Run(ctx, ad).initialize()
        place(r, loc)
        for m, o in outs.items():
            r.resource(m).data.output_location = list(o)
        r.go()
        ctx.observe("log", S.plain_log(r.log))
        log = r.log
        ops = sorted(O.ops(ctx, log), key=lambda o: o.first)
        ctx.require(r.ended == "idle" and len(r.finished()) == sum(counts), "every request is served", f"{len(r.finished())}")
        lg = flow.legs(ops, log)
        ready = flow.ready_times(ops, log, lg)
        for k, g in enumerate(lg):
            s = g["ops"][0].start
            here = loc[lg[k - 1]["target"]] if k else loc["T"]
            mine = key(ctx, policy, g, here, loc, ops, lg, s, outs)
            for h in lg[k + 1 :]:
                waiting = ctx.lt(ready[id(h)], s)
                other = key(ctx, policy, h, here, loc, ops, lg, s, outs)
                if policy == "FIFO":
                    good = ctx.le(ready[id(g)], ready[id(h)])
                elif policy == "SPT_transport":
                    good = ctx.le(mine[0], other[0])
                else:
                    good = ctx.Or([ctx.lt(mine[0], other[0]), ctx.And([ctx.eq(mine[0], other[0]), mine[1][0] <= other[1][1]])])
                    ctx.cover("equally near requests with different target queues", ctx.And([waiting, ctx.eq(mine[0], other[0]), mine[1][1] < other[1][0]]))
                ctx.require(ctx.Or([ctx.Not(waiting), good]), f"{policy} order", f"{g['product']} before {h['product']}")
                ctx.cover("two transports wait", ctx.And([ctx.lt(ready[id(g)], s), waiting]))
                if policy != "FIFO":
                    ctx.cover("the policy prefers a later request", ctx.And([waiting, ctx.lt(ready[id(h)], ready[id(g)])]))

    return fn


def key(ctx, policy, g, here, loc, ops, lg, s, outs):
    """(distance, (lowest, highest possible queue key)) of a request at instant s"""
    load = g["ops"][-1]
    origin = load.origin if load.origin in loc else None
    o = next((x for x in (origin,) if x), None)
    if policy == "FIFO":
        return (0, (0, 0))
    if policy == "SPT_transport":
        return (dist(ctx, outs.get(o) or loc[o], loc[g["target"]]), (0, 0))
    d = dist(ctx, here, outs.get(o) or loc[o])
    t = g["target"]
    if t.startswith("K_"):
        return (d, (0, 0))
    if "input" in policy:
        ins = [x["ops"][-1].end for x in lg if x["target"] == t]
        outs = [p.start for p in ops if p.kind == "Production" and p.resource == t]
        sign = 1
    else:
        ins = [p.end for p in ops if p.kind == "Production" and p.resource == t]
        outs = [x["ops"][-1].start for x in lg if x["ops"][-1].origin == t]
        sign = -1
    lo = count(ctx, ins, s, False) - count(ctx, outs, s, True)
    hi = count(ctx, ins, s, True) - count(ctx, outs, s, False)
    return (d, (sign * lo, sign * hi) if sign > 0 else (-hi, -lo))


def count(ctx, times, s, inclusive):
    n = 0
    for t in times:
        if bool(ctx.le(t, s) if inclusive else ctx.lt(t, s)):
            n += 1
    return n


NL = "Nearest_origin_and_longest_target_queues_transport"
NS = "Nearest_origin_and_shortest_target_input_queues_transport"


def scenarios(tier):
    q = tier == "quick"
    two, pref, tw = ["two requests wait"], ["two requests wait", "the policy prefers a later request"], ["two transports wait"]
    g = None if not q else [0.5, 0.75, 1.0]
    return [
        Scenario("machine-FIFO", machine("FIFO", 3 if q else 4), two, bounds="products compete for a machine (3 quick, 4 thorough)"),
        Scenario("machine-LIFO", machine("LIFO", 4, tp=3 if q else None, second=0.5 if q else None), pref, bounds="4 products compete for a machine"),
        Scenario("machine-SPT", machine("SPT", 3, same=False, tp=5 if q else None, second=2 if q else None), pref, bounds="3 products with different process times"),
        Scenario("batch-FIFO", batches("FIFO"), two, bounds="4 pairs of products compete for a machine with batches of 2"),
        Scenario("batch-SPT", batches("SPT"), two + ["the policy prefers a later request"], bounds="4 pairs of products compete for a machine with batches of 2"),
        Scenario("transport-FIFO", transport("FIFO", 2, tm="sym", jobs=[2, 2], same=True) if q else transport("FIFO", 3), tw, bounds="3 products, one transporter, arbitrary positions"),
        Scenario("transport-SPT", transport("SPT_transport", 3, msym=1 if q else 2), tw + ["the policy prefers a later request"], bounds="3 products, one transporter, arbitrary positions"),
        Scenario("transport-nearest-longest", transport(NL, 3, msym=0 if q else 2), tw + ["the policy prefers a later request"], bounds="3 products, one transporter, arbitrary positions"),
        Scenario("transport-nearest-shortest", transport(NS, 3, msym=0 if q else 2), tw + ["the policy prefers a later request"], bounds="3 products, one transporter, arbitrary positions"),
        Scenario("transport-SPT-sides", transport("SPT_transport", 3, msym=0, sides="in"), tw, bounds="machines with different input and output positions"),
        Scenario("transport-nearest-sides", transport(NS, 3, tm=1, msym=0, sides="out"), tw, bounds="machines with different input and output positions"),
        Scenario("transport-nearest-longest-ties", transport(NL, 2, tm="sym", jobs=[2, 2], same=True), tw, bounds="same origin, arbitrary process times"),
        Scenario("transport-nearest-shortest-ties", transport(NS, 2, tm="sym", jobs=[3, 2], same=True), tw + ["equally near requests with different target queues"], bounds="same origin, arbitrary process times"),
    ]
