"""S11: every trip goes where it should, along declared links, and takes the travel time."""
from symx.engine import Scenario

from . import flow
from . import oracle as O
from . import simlib as S
from .s08 import dist, place

ASSUMPTIONS = [
    "positions are arbitrary reals (one or two coordinates, 0..100), speeds and reaction times fixed numbers, handling times arbitrary",
    "transport resources of capacity 1; arrivals at fixed distinct instants unless stated",
    "trips over links: positions on one line (one scenario in the plane); the transport resource starts at the source except in the scenarios of first drives",
]


def dest(loc, name, empty):
    d = loc[name]
    if isinstance(d, dict):
        return d["out" if empty else "in"]
    return d


def check_trips(ctx, r, loc, procs_of, start, duration, routes, offered, graph=None):
    """the whole journey of every transport resource and every product"""
    log = r.log
    ops = sorted(O.ops(ctx, log), key=lambda o: o.first)
    ctx.require(r.ended == "idle" and not r.in_system(), "every product is delivered", f"{len(r.finished())}")
    where = {p: next(e["Resource"] for e in log if O.act(e) == O.CREATED and e["Product"] == p) for p, _, _ in O.created(log)}
    done = {p: 0 for p in where}
    at, pos, load, trip = {}, dict(start), {}, {}
    for o in ops:
        if o.kind == "Production":
            p = o.product
            ctx.require(where[p] == o.resource, "a product is worked on where it was delivered", repr(o))
            done[p] += 1
            continue
        t, p = o.resource, o.product
        ctx.require(o.state.startswith(procs_of[p.rsplit("_", 1)[0]]) and o.state in offered[t], "a product is moved with its own transport process", repr(o))
        if t in load:
            ctx.require(load[t] == p, "one product at a time", repr(o))
        prev = at.get(t)
        # leg structure
        if t not in trip:
            trip[t] = (o.empty, prev, [])
            if o.empty:
                ctx.require(prev != where[p], "no empty trip when the transport resource is already there", repr(o))
            else:
                ctx.require(prev in (None, where[p]), "a loaded trip starts where the product is", repr(o))
                ctx.require(prev is not None, "an empty trip fetches the product first", repr(o))
        first = not trip[t][2]
        goal = where[p] if o.empty else None
        if not o.empty:
            nxt = routes[p.rsplit("_", 1)[0]]
            goal = nxt[done[p]] if done[p] < len(nxt) else "K_" + p.rsplit("_", 1)[0]
        last = o.target == goal
        ctx.require(prev is None or o.origin == prev, "a trip starts where the last one ended", repr(o))
        if graph is None:
            ctx.require(last, "a trip goes where the product is or has to go", f"{o} to {o.target} instead of {goal}")
        else:
            if prev is None:  # the first drive leads to the nearest place of the links
                here = straight(ctx, pos[t], dest(loc, o.target, False))
                for n in {n for e in graph for n in e}:
                    ctx.require(ctx.le(here, straight(ctx, pos[t], dest(loc, n, False))), "the first drive leads to the nearest place of the links", f"{o} to {o.target}")
                ctx.cover("a first drive", True)
            else:
                ctx.require((prev, o.target) in graph or (o.target, prev) in graph, "only declared links are used", f"{prev} to {o.target}")
        trip[t][2].append(o)
        there = dest(loc, o.target, o.empty)
        want = duration(t, pos[t], there, o, first and not o.empty, last and not o.empty)
        ctx.require(o.closed and ctx.eq(o.end - o.start, want), "a trip takes travel, reaction and handling time", repr(o))
        ctx.cover("an empty trip", bool(o.empty))
        pos[t], at[t] = there, o.target
        if last:
            if graph is not None:
                shortest(ctx, graph, loc, [n for n in [trip[t][1]] if n] + [x.target for x in trip[t][2]])
            del trip[t]
            if o.empty:
                load[t] = p
            else:
                load.pop(t, None)
                where[p] = o.target
        else:
            ctx.cover("a trip over several links", True)
            load[t] = p
    ctx.require(not trip, "every trip arrives", repr(trip))
    for p in where:
        ctx.require(where[p].startswith("K_"), "every product reaches its sink", p)


def straight(ctx, a, b):
    """euclidean distance of points on a line parallel to an axis or of known points"""
    known = [isinstance(v, (int, float)) for v in (*a, *b)]
    if any(x is y or (isinstance(x, (int, float)) and isinstance(y, (int, float)) and x == y) for x, y in zip(a, b)) or not all(known):
        return dist(ctx, a, b)
    return ((a[0] - b[0]) ** 2 + (a[1] - b[1]) ** 2) ** 0.5


def shortest(ctx, graph, loc, path):
    def length(p):
        return ctx.Sum(straight(ctx, dest(loc, a, False), dest(loc, b, False)) for a, b in zip(p, p[1:]))

    nb = {}
    for a, b in graph:
        nb.setdefault(a, set()).add(b)
        nb.setdefault(b, set()).add(a)
    alls = []

    def go(p):
        if p[-1] == path[-1]:
            alls.append(list(p))
            return
        for n in sorted(nb.get(p[-1], ())):
            if n not in p:
                go(p + [n])

    go([path[0]])
    mine = length(path)
    for q in alls:
        ctx.require(ctx.le(mine, length(q)), "the shortest connection is used", f"{path} vs {q}")
        if len(alls) > 1 and q != path:
            ctx.cover("there is a detour", True)


def direct(n, metric="manhattan", sym=("src", "M1", "M2"), speed=2.0, reaction=1.0, handling=True, two_d=False, start=None, machines=2):
    def fn(ctx):
        names = [f"M{i + 1}" for i in range(machines)]

        def point(name, default):
            if name not in sym:
                return default
            return [ctx.real("x" + name, 0, 100), ctx.real("y" + name, 0, 100) if two_d else default[1]]

        loc = {"src": point("src", [3, 0]), "K_A": point("K_A", [40, 0])}
        for i, m in enumerate(names):
            base = point(m, [10 * (i + 1), 0])
            loc[m] = {"in": point(m + "i", [10 * (i + 1) + 1, 0]) if m + "i" in sym else [base[0], base[1]], "out": point(m + "o", [base[0] + 4, base[1]])}
        tms = {"tt": ("dist", speed, reaction, metric), "arr": [0.5] + [0.25] * (n - 1)}
        tp = {"kind": "transport", "t": "tt"}
        if handling:
            tms["tl"], tms["tu"] = ctx.real("load", 0, None, True), ctx.real("unload", 0, None, True)
            tp["loading_time_model_id"], tp["unloading_time_model_id"] = "tl", "tu"
        procs = {f"P{i + 1}": {"t": "tm"} for i in range(machines)}
        procs["TP"] = tp
        tms["tm"] = 1
        ms = {m: {"procs": [f"P{i + 1}"], "input_location": [0.0, i], "output_location": [1.0, i]} for i, m in enumerate(names)}
        ad = S.build(
            tms, procs, ms, {"A": {"procs": [f"P{i + 1}" for i in range(machines)]}}, {"src": {"product": "A", "t": "arr"}},
            transports={"T": {"procs": ["TP"], "cap": 1}},
        )
        r = S.Run(ctx, ad).initialize()
        t0 = [50, 0] if start is None else start
        place(r, {"T": t0, "src": loc["src"], "K_A": loc["K_A"], **{m: loc[m]["in"] for m in names}})
        for m in names:
            d = r.resource(m).data
            d.input_location, d.output_location = list(loc[m]["in"]), list(loc[m]["out"])
        r.go()
        ctx.observe("log", S.plain_log(r.log))

        def duration(t, a, b, o, loads, unloads):
            if metric == "manhattan":
                d = dist(ctx, a, b)
            else:
                d = dist(ctx, a, b) if not two_d and a[1] == b[1] else ((a[0] - b[0]) ** 2 + (a[1] - b[1]) ** 2) ** 0.5
            w = d / speed + reaction
            if handling and loads:
                w = w + tms["tl"]
            if handling and unloads:
                w = w + tms["tu"]
            return w

        check_trips(ctx, r, loc, {"A": "TP"}, {"T": t0}, duration, {"A": names}, {"T": ["TP"]})

    return fn


def named(n=1):
    """two transport processes whose names contain each other"""

    def fn(ctx):
        t1, t2 = ctx.real("t1", 0, None, True), ctx.real("t2", 0, None, True)
        tms = {"a1": t1, "a2": t2, "tm": 1, "arrA": [ctx.real("gapA", 0, None, True)], "arrB": [ctx.real("gapB", 0, None, True)]}
        procs = {"TP10": {"kind": "transport", "t": "a2"}, "TP1": {"kind": "transport", "t": "a1"}, "P": {"t": "tm"}}
        ad = S.build(
            tms, procs, {"M1": {"procs": ["P"]}}, {"A": {"procs": ["P"], "tp": "TP1"}, "B": {"procs": ["P"], "tp": "TP10"}},
            {"srcA": {"product": "A", "t": "arrA"}, "srcB": {"product": "B", "t": "arrB"}},
            transports={"T10": {"procs": ["TP10"], "cap": 1}, "T1": {"procs": ["TP1"], "cap": 1}},
        )
        r = S.Run(ctx, ad).go()
        ctx.observe("log", S.plain_log(r.log))
        loc = {k: [0, 0] for k in ("srcA", "srcB", "M1", "K_A", "K_B")}
        ctx.cover("both are used", {o.resource for o in O.ops(ctx, r.log) if o.kind == "Transport"} == {"T1", "T10"})

        def duration(t, a, b, o, loads, unloads):
            return t1 if o.state == "TP1" else t2

        for o in O.ops(ctx, r.log):
            if o.kind == "Transport":
                ctx.require(o.state == ("TP1" if o.product.startswith("A") else "TP10"), "a product is moved with its own transport process", repr(o))
        check_trips(ctx, r, loc, {"A": "TP1", "B": "TP10"}, {"T1": [0, 0], "T10": [0, 0]}, duration, {"A": ["M1"], "B": ["M1"]}, {"T1": ["TP1"], "T10": ["TP10"]})

    return fn


def links(n, graph, sym, speed=2.0, handling=True, compete=False, plane=None, starts=None):
    def fn(ctx):
        base = {"src": 0, "M1": 10, "K_A": 20, "n1": 5, "n2": 15, "n3": 30}
        used = {x for e in graph for x in e}
        loc = {k: [ctx.real("x" + k, 0, 100, approx=True) if k in sym else base[k], 0] for k in base if k in used}
        if plane:
            loc = plane(ctx)
            base = {k: 0.0 for k in loc}
        ks = [] if plane else sorted(loc)
        for i, a in enumerate(ks):
            for b in ks[:i]:
                ctx.assume(ctx.Not(ctx.eq(loc[a][0], loc[b][0])))
        tms = {"tt": ("dist", speed, 0.0, "euclidean" if plane else "manhattan"), "tm": 1, "arr": [0.5] + [0.25] * (n - 1)}
        tp = {"kind": "link", "t": "tt", "links": [list(e) for e in graph], "capability": ""}
        if handling:
            tms["tl"], tms["tu"] = ctx.real("load", 0, None, True), ctx.real("unload", 0, None, True)
            tp["loading_time_model_id"], tp["unloading_time_model_id"] = "tl", "tu"
        procs = {"P1": {"t": "tm"}, "LP": tp}
        trs = {"T": {"procs": ["LP"], "cap": 1}}
        if starts and len(starts) > 1:
            trs = {t: {"procs": ["LP"], "cap": 1} for t in starts}
        if compete:
            # a second resource whose links do not reach the target
            procs["LX"] = dict(tp, links=[["src", "n1"]])
            trs = {"TX": {"procs": ["LX"], "cap": 1}, "T": {"procs": ["LP"], "cap": 1}}
        ad = S.build(
            tms, procs, {"M1": {"procs": ["P1"]}}, {"A": {"procs": ["P1"], "tp": "LP"}}, {"src": {"product": "A", "t": "arr"}},
            transports=trs, nodes={k: [base[k], 0.0] for k in loc if k.startswith("n")},
        )
        r = S.Run(ctx, ad).initialize()
        start = {t: loc["src"] for t in trs}
        for t in starts or ():
            start[t] = [ctx.real("x" + t, 0, 100, approx=True), 0]
        place(r, {**start, **loc})
        for nd in r.r.node_factory.nodes:
            nd.data.location = list(loc[nd.data.ID])
        r.go()
        ctx.observe("log", S.plain_log(r.log))

        def duration(t, a, b, o, loads, unloads):
            w = straight(ctx, a, b) / speed
            if handling and loads:
                w = w + tms["tl"]
            if handling and unloads:
                w = w + tms["tu"]
            return w

        check_trips(ctx, r, loc, {"A": "LP"}, start, duration, {"A": ["M1"]}, {t: ["LP"] for t in trs}, graph=[tuple(e) for e in graph])

    return fn


def plane(ctx):
    """one route with two slanted links, one over a rectangle of unknown width"""
    x = ctx.real("x", 0, 100, approx=True)
    return {"src": [0, 0], "M1": [9, 9], "K_A": [20, 9], "n1": [-3, 4], "n2": [x, 0], "n3": [x, 9]}


def parallel():
    """a transport resource that carries two products at a time"""

    def fn(ctx):
        tms = {"tt": ("dist", 1.0, 1.0, "manhattan"), "tm": 1, "arr": [1], "arrB": [ctx.real("gap", 0, None, True)]}
        procs = {"P": {"t": "tm"}, "TP": {"kind": "transport", "t": "tt"}}
        ad = S.build(
            tms, procs, {"M1": {"procs": ["P"], "cap": 2, "pcaps": [2], "loc": [30.0, 0.0]}}, {"A": {"procs": ["P"]}, "B": {"procs": ["P"]}},
            {"srcA": {"product": "A", "t": "arr", "loc": [10.0, 0.0]}, "srcB": {"product": "B", "t": "arrB", "loc": [20.0, 0.0]}},
            transports={"T": {"procs": ["TP"], "cap": 2, "pcaps": [2], "loc": [0.0, 0.0]}},
        )
        r = S.Run(ctx, ad).go()
        ctx.observe("log", S.plain_log(r.log))
        ops = sorted(O.ops(ctx, r.log), key=lambda o: o.first)
        ctx.require(r.ended == "idle" and not r.in_system(), "every product is delivered", f"{len(r.finished())}")
        where = {"A_0": "srcA", "B_0": "srcB", "A_1": "srcA"}
        for p in ("A_0", "B_0"):
            here = "srcA" if p[0] == "A" else "srcB"
            for o in ops:
                if o.product == p and o.kind == "Transport" and not o.empty:
                    ctx.require(o.origin == here, "a loaded trip starts where the product is", f"capacity 2: {p}")
                    here = o.target

    return fn


def scenarios(tier):
    q = tier == "quick"
    e = ["an empty trip"]
    two = [("src", "n1"), ("n1", "M1"), ("src", "n2"), ("n2", "M1"), ("M1", "K_A")]
    chain = [("n2", "K_A"), ("M1", "n2"), ("src", "n1"), ("n1", "M1")]
    return [
        Scenario("manhattan-x", direct(1, sym=("src", "M1", "M2", "K_A"), machines=2), e, bounds="1 product, 2 machines, arbitrary positions on a line"),
        Scenario("manhattan-xy", direct(1, sym=("src", "M1o"), two_d=True, machines=1), e, bounds="1 product, 1 machine, arbitrary positions in the plane"),
        Scenario("manhattan-two-products", direct(2, sym=("src", "M1") if q else ("src", "M1", "K_A"), machines=1, handling=not q), e, bounds="2 products, one transport resource"),
        Scenario("in-out-locations", direct(1, sym=("M1i", "M1o", "K_A"), machines=1), e, bounds="arbitrary input and output positions"),
        Scenario("euclidean-line", direct(1, metric="euclidean", sym=("src", "M1"), machines=1), e, bounds="euclidean distance, arbitrary positions on a line"),
        Scenario("euclidean-plane", direct(1, metric="euclidean", sym=(), machines=1, start=[3, 4]), e, bounds="euclidean distance, fixed positions, arbitrary handling times"),
        Scenario("similar-names", named(), ["both are used"], bounds="two products, process names TP1 and TP10, arbitrary times"),
        Scenario("parallel-trips", parallel(), bounds="two products on one transport resource of capacity 2"),
        Scenario("links-two-routes", links(1, two, ("n1", "n2")), ["a trip over several links", "there is a detour"], bounds="two alternative routes over nodes at arbitrary positions"),
        Scenario("links-plane", links(1, [("src", "n1"), ("n1", "M1"), ("src", "n2"), ("n2", "n3"), ("n3", "M1"), ("M1", "K_A")], (), plane=plane, handling=not q), ["a trip over several links", "there is a detour"], bounds="two routes in the plane, euclidean distance"),
        Scenario("links-chain", links(2, chain, ("M1",) if q else ("n1", "M1")), e + ["a trip over several links"], bounds="2 products, a chain of links declared out of order"),
        Scenario("links-first-drive", links(1, two, ("n1",), starts=["T"]), ["a first drive", "there is a detour"], bounds="a transport resource that starts anywhere on the line"),
        Scenario("links-two-first-drives", links(2, [("src", "M1"), ("M1", "K_A")], (), handling=False, starts=["T1", "T2"]), ["a first drive"], bounds="two transport resources with the same links that start anywhere on the line"),
        Scenario("links-not-reached", links(1, two, ("n1",), compete=True), bounds="a second transport resource whose links do not reach the target"),
    ]
