"""S01: every product runs exactly its prescribed processes in an admissible order."""
from symx.engine import Scenario

from . import oracle as O
from . import simlib as S

ASSUMPTIONS = [
    "arrival gaps and process times are arbitrary positive reals up to 10000 (exact arithmetic)",
    "random draws are arbitrary choices among the offered alternatives",
]


def order_ok(seq, procs):
    """seq (ids executed so far) is a prefix of an admissible complete order"""
    if isinstance(procs, list) and procs and isinstance(procs[0], str):
        return list(seq) == procs[: len(seq)]
    if isinstance(procs, list):
        edges = [tuple(e) for e in procs]
        nodes = {n for e in edges for n in e}
    else:
        nodes = set(procs)
        edges = [(a, b) for a, bs in procs.items() for b in bs]
        nodes |= {b for _, b in edges}
    done = set()
    for p in seq:
        if p not in nodes or p in done:
            return False
        if any(b == p and a not in done for a, b in edges):
            return False
        done.add(p)
    return True


def total(procs):
    if isinstance(procs, list) and procs and isinstance(procs[0], str):
        return len(procs)
    if isinstance(procs, list):
        return len({n for e in procs for n in e})
    return len(set(procs) | {b for v in procs.values() for b in v})


def check(ctx, run, routes, sinks, njobs):
    log = run.log
    ops = O.ops(ctx, log)
    ctx.require(run.ended == "idle", "the run ends", run.ended)
    made = O.created(log)
    ctx.require(len(made) == njobs and len({p for p, _, _ in made}) == njobs, "every arrival creates one product", repr(made))
    fin = O.finished(log)
    for pid, t0, _ in made:
        ptype = pid.rsplit("_", 1)[0]
        ctx.require(ptype in routes, "product belongs to a declared type", pid)
        mine = sorted([o for o in ops if o.product == pid and o.kind == "Production"], key=lambda o: o.first)
        seq = [o.state for o in mine]
        ctx.require(order_ok(seq, routes[ptype]), "processes run in an admissible order", f"{pid}: {seq}")
        ctx.require(len(seq) == total(routes[ptype]), "every prescribed process runs exactly once", f"{pid}: {seq}")
        for a, b in zip(mine, mine[1:]):
            ctx.require(a.closed and a.last < b.first, "processes of one product do not overlap", f"{pid}: {seq}")
            ctx.require(a.end <= b.start, "a process starts after its predecessor ended", f"{pid}: {seq}")
        if mine:
            ctx.require(t0 <= mine[0].start, "no process before creation", pid)
        f = [x for x in fin if x[0] == pid]
        ctx.require(len(f) == 1, "the product is finished exactly once", f"{pid}: {len(f)}")
        if f and mine:
            ctx.require(mine[-1].closed and mine[-1].last < f[0][2] and mine[-1].end <= f[0][1], "finished only after its last process", pid)
        where = [e["Resource"] for e in log if O.act(e) == O.FINISHED and e["Product"] == pid]
        ctx.require(all(w in sinks[ptype] for w in where), "finished at a sink of its type", f"{pid}: {where}")
    ctx.require(len(run.finished()) == len(fin) and not run.in_system(), "all products counted as finished", "")


def seq_scenario(route, njobs):
    def fn(ctx):
        a = [ctx.real("gap", 0, None, True) for _ in range(njobs)]
        tms = {"arr": a, "tt": 1}
        procs = {}
        for p in dict.fromkeys(route):
            tms["t" + p] = ctx.real("t" + p, 0, None, True)
            procs[p] = {"t": "t" + p}
        ms = {}
        names = list(procs)
        ms["M1"] = {"procs": names[::2]}
        if names[1::2]:
            ms["M2"] = {"procs": names[1::2]}
        ad = S.build(tms, procs, ms, {"A": {"procs": list(route)}}, {"src": {"product": "A", "t": "arr"}})
        r = S.Run(ctx, ad).go()
        ctx.observe("log", S.plain_log(r.log))
        check(ctx, r, {"A": list(route)}, {"A": ["K_A"]}, njobs)
        ctx.cover("second product overtakes nothing but waits", len(r.finished()) == njobs)

    return fn


def mixed(na, nb):
    """two product types share a machine; per-type process lists differ"""

    def fn(ctx):
        tms = {
            "arrA": [ctx.real("gapA", 0, None, True) for _ in range(na)],
            "arrB": [ctx.real("gapB", 0, None, True) for _ in range(nb)],
            "tP1": ctx.real("t1", 0, None, True),
            "tP2": 2,
            "tt": 1,
        }
        procs = {"P1": {"t": "tP1"}, "P2": {"t": "tP2"}, "P11": {"t": "tP2"}}
        ad = S.build(
            tms, procs,
            {"M1": {"procs": ["P11", "P1"]}, "M2": {"procs": ["P2", "P11"]}},
            {"A": {"procs": ["P1", "P2"]}, "B": {"procs": ["P11", "P1"]}},
            {"srcA": {"product": "A", "t": "arrA"}, "srcB": {"product": "B", "t": "arrB"}},
        )
        r = S.Run(ctx, ad).go()
        ctx.observe("log", S.plain_log(r.log))
        check(ctx, r, {"A": ["P1", "P2"], "B": ["P11", "P1"]}, {"A": ["K_A"], "B": ["K_B"]}, na + nb)

    return fn


def graph_run(graph, njobs, name):
    def fn(ctx):
        nodes = sorted(set(graph) | {b for v in graph.values() for b in v}) if isinstance(graph, dict) else sorted({n for e in graph for n in e})
        tms = {"arr": [ctx.real("gap", 0, None, True) for _ in range(njobs)], "tt": 1}
        procs = {}
        for i, p in enumerate(nodes):
            tms["t" + p] = ctx.real("t" + p, 0, None, True) if i == 0 else i + 1
            procs[p] = {"t": "t" + p}
        ad = S.build(tms, procs, {"M1": {"procs": nodes[:2]}, "M2": {"procs": nodes[2:]}}, {"A": {"procs": graph}}, {"src": {"product": "A", "t": "arr"}})
        r = S.Run(ctx, ad).go()
        ctx.observe("log", S.plain_log(r.log))
        check(ctx, r, {"A": graph}, {"A": ["K_A"]}, njobs)
        o = [e["State"] for e in r.log if O.act(e) == "start state" and S.sty(e) == "Production"]
        ctx.cover("an order that differs from the declaration order", o[: len(nodes)] != nodes)

    return fn


def graph_unit(n, style):
    """an arbitrary acyclic graph over n processes, driven through the real factory"""

    def fn(ctx):
        ids = [f"P{i}" for i in range(n)]
        edges = [(i, j) for i in range(n) for j in range(i + 1, n) if ctx.bool(f"e{i}{j}")]
        # declaration order is arbitrary as well: rotate
        rot = ctx.choice(n, "rot")
        decl = ids[rot:] + ids[:rot]
        if style != "edges":
            model = {p: [f"P{j}" for i, j in edges if f"P{i}" == p] for p in decl}
            if style == "dict-short":  # processes without successors are only given as successors
                model = {p: v for p, v in model.items() if v}
                ctx.assume(all(any(k in e for e in edges) for k in range(n)))
        else:
            ctx.assume(all(any(k in e for e in edges) for k in range(n)))
            model = [[f"P{i}", f"P{j}"] for i, j in edges]
        tms = {"t": 1, "arr": [1]}
        ad = S.build(
            tms, {p: {"t": "t"} for p in ids}, {"M": {"procs": ids}}, {"A": {"procs": model}}, {"src": {"product": "A", "t": "arr"}}
        )
        run = S.Run(ctx, ad).initialize()
        pf = run.r.product_factory
        prod_data = ad.product_data[0]
        pm = pf.create_process_model(prod_data)
        seq = []
        E = [(f"P{i}", f"P{j}") for i, j in edges]
        while True:
            nxt = pm.get_next_possible_processes()
            got = sorted({p.process_data.ID for p in nxt or []})
            want = sorted(p for p in ids if p not in seq and all(a in seq for a, b in E if b == p))
            ctx.require(got == want, "offered processes are exactly those whose predecessors are done", f"{E} after {seq}: {got} want {want}")
            if not nxt or got != want:
                break
            p = nxt[ctx.choice(len(nxt), "pick")]
            pm.update_marking_from_transition(p)
            seq.append(p.process_data.ID)
        ctx.require(len(seq) == n, "all processes of the graph are executed", f"{E}: {seq}")
        ctx.cover("edges present", len(edges) >= 2)

    return fn


def scenarios(tier):
    q = tier == "quick"
    out = [
        Scenario("sequence-3", seq_scenario(["P1", "P2", "P3"], 2), ["second product overtakes nothing but waits"], bounds="2 products, 3 processes, 2 machines"),
        Scenario("sequence-repeat", seq_scenario(["P1", "P2", "P1"], 2), bounds="2 products, a process prescribed twice"),
        Scenario("mixed-types", mixed(1, 1) if q else mixed(2, 1), bounds="2 product types sharing machines, similar process names"),
        Scenario("graph-diamond", graph_run({"P1": ["P2", "P3"], "P2": ["P4"], "P3": ["P4"], "P4": []}, 1 if q else 2, "d"), ["an order that differs from the declaration order"], bounds="diamond precedence graph"),
        Scenario("graph-edges", graph_run([["P1", "P3"], ["P2", "P3"]], 1 if q else 2, "e"), ["an order that differs from the declaration order"], bounds="edge list"),
        Scenario("graph-any-dict", graph_unit(3 if q else 4, "dict"), ["edges present"], bounds="every acyclic graph over 3 (quick) / 4 processes, every admissible pick"),
        Scenario("graph-short", graph_run({"P1": ["P2", "P3"], "P2": ["P4"], "P3": ["P4"]}, 1, "s"), bounds="diamond whose last process is only given as a successor"),
        Scenario("graph-any-short", graph_unit(3 if q else 4, "dict-short"), ["edges present"], bounds="every acyclic graph over 3 (quick) / 4 processes whose processes without successors are only given as successors"),
        Scenario("graph-any-edges", graph_unit(3 if q else 4, "edges"), ["edges present"], bounds="as above, edge-list form"),
    ]
    return out
