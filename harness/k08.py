"""K08: the figures per station and per auxiliary count what is there."""
from symx.engine import Scenario

from . import kpi
from . import oracle as O
from . import simlib as S
from .simlib import act, sty

ASSUMPTIONS = kpi.ASSUMPTIONS + [
    "stations are the resources that appear in the log; places of storage, sources and sinks have no figure",
    "the mean figures are only bounded by the smallest and largest level (the code averages over events, not over time)",
]
USE, FREE = "started auxiliary usage", "finished auxiliary usage"


def steps(ctx, rows, col, level, what):
    for x, y in zip(rows, rows[1:] + [None]):
        ctx.require(ctx.le(0, x[col]), "a level is never negative", what)
        # rows of one instant: the level counts after the last of them
        if y is not None and bool(ctx.eq(x["Time"], y["Time"])):
            continue
        ctx.require(ctx.eq(x[col], level(x["Time"])), "the level is what came minus what left", what)


def stations(ctx, run, pk, machines):
    log = run.log
    legs = [o for o in sorted(O.ops(ctx, log), key=lambda o: o.first) if o.kind == "Transport" and not o.empty]
    df = pk.get("df_WIP_per_resource")
    mean = {x["Resource"]: x["mean_wip"] for _, x in pk.get("df_mean_wip_per_station").iterrows()}
    active = {e["Resource"] for e in log}
    for m in machines:
        came = [o.end for o in legs if o.target == m and o.closed]
        left = [o.start for o in legs if o.origin == m]
        rows = [x for _, x in df[df["WIP_resource"] == m].iterrows()]
        if m not in active:
            continue
        ctx.require(sum(1 for x in rows if x["WIP_Increment"] != 0) == len(came) + len(left), "every arrival and departure changes the level", m)
        steps(ctx, rows, "WIP", lambda t: ctx.Sum(ctx.Ite(ctx.le(c, t), 1, 0) for c in came) - ctx.Sum(ctx.Ite(ctx.le(c, t), 1, 0) for c in left), m)
        ctx.cover("two products at a station", any(x["WIP"] == 2 for x in rows))
        if rows:
            lv = [x["WIP"] for x in rows]
            ctx.require(m in mean, "a station has a mean", m)
            ctx.require(ctx.And(ctx.le(min(lv), mean[m]), ctx.le(mean[m], max(lv))) if m in mean else False, "the mean lies between the smallest and largest level", m)
    places = {r for r in set(df["WIP_resource"]) | set(mean)}
    ctx.require(not any(p.startswith(("src", "K_")) for p in places), "sources and sinks are no stations", repr(sorted(places)))


def auxiliaries(ctx, run, pk, types):
    log = run.log
    use = {a: [] for a in types}
    free = {a: [] for a in types}
    for e in log:
        if act(e) in (USE, FREE):
            (use if act(e) == USE else free)[kpi.ptype(e["Product"])].append(e["Time"])
    ctx.require(sorted(pk.p.get_auxiliary_types()) == sorted(types), "the types of auxiliaries are known", repr(sorted(pk.p.get_auxiliary_types())))

    def level(kinds):
        def at(t):
            return ctx.Sum(ctx.Ite(ctx.le(c, t), 1, 0) for a in kinds for c in use[a]) - ctx.Sum(ctx.Ite(ctx.le(c, t), 1, 0) for a in kinds for c in free[a])

        return at

    cols = list(pk.p.df_raw.columns)
    tot = [x for _, x in pk.get("df_auxiliary_WIP").iterrows()]
    ctx.require(list(pk.p.df_raw.columns) == cols, "the events stay as they are", "columns")
    steps(ctx, tot, "auxiliary_WIP", level(types), "all")
    per = pk.get("df_auxiliary_WIP_per_auxiliary_type")
    rep = {i.product_type: i.value for i in pk.get("auxiliary_WIP_KPIs")}
    ctx.require(sorted(rep) == sorted(types + ["all_products"]), "one figure per type of auxiliary and one for all", repr(sorted(rep)))
    for a in types + ["all_products"]:
        rows = tot if a == "all_products" else [x for _, x in per[per["Auxiliary_type"] == a].iterrows()]
        if a != "all_products":
            steps(ctx, rows, "auxiliary_WIP", level([a]), a)
        n = sum(1 for x in rows if x["auxiliary_WIP_Increment"] != 0)
        ctx.require(n == sum(len(use[b]) + len(free[b]) for b in (types if a == "all_products" else [a])), "every usage changes the level", a)
        lv = [x["auxiliary_WIP"] for x in rows]
        if a in rep and lv:
            ctx.require(ctx.And(ctx.le(min(lv), rep[a]), ctx.le(rep[a], max(lv))), "the mean lies between the smallest and largest level", a)
        ctx.cover("two auxiliaries in use", 2 in lv)
    # auxiliaries are no products
    wip = {i.product_type for i in pk.get("WIP_KPIs")}
    made = {kpi.ptype(p) for p, _, _ in O.created(log)}
    ctx.require(wip == made | {"all_products"}, "auxiliaries are no products", repr(sorted(wip)))


def with_aux(names, jobs=2, gaps=None, shared=False, stop=None):
    def fn(ctx):
        tms = {"tt": 1, "ta": 2, "tP": ctx.real("tP", 0, None, True)}
        procs = {"TP": {"kind": "transport", "t": "tt"}, "TA": {"kind": "transport", "t": "ta"}, "P": {"t": "tP"}}
        prods, srcs = {}, {}
        for i, x in enumerate(names):
            p = "AB"[i]
            prods[p] = {"procs": ["P"], "aux": [names[0] if shared else x]}
            g = (gaps or [[1 + i] + [None] * (jobs - 1) for i in range(len(names))])[i]
            tms["arr" + p] = [ctx.real("gap" + p, 0, None, True) if v is None else v for v in g]
            srcs["src" + p] = {"product": p, "t": "arr" + p}
        ax = {x: {"tp": "TA", "storages": ["ST"], "quantity": [2], "tps": ["TP"]} for x in names}
        ad = S.build(
            tms, procs, {"M": {"procs": ["P"], "cap": 1}}, prods, srcs,
            transports={"T": {"procs": ["TP"], "cap": 8}, "TX": {"procs": ["TA"], "cap": 8}}, stores={"ST": {"capacity": 9, "location": [3.0, 3.0]}}, aux=ax,
        )
        until = None
        if stop is not None:
            k = stop[0] + ctx.choice(stop[1] - stop[0] + 1, "stop")
            until = lambda r: len(r.log) >= k
        r = S.Run(ctx, ad).go(until=until)
        ctx.observe("log", S.plain_log(r.log))
        pk = kpi.Pack(ctx, r)
        stations(ctx, r, pk, ["M"])
        auxiliaries(ctx, r, pk, list(names))

    return fn


def scenarios(tier):
    q = tier == "quick"

    def scn(name, covers=(), bounds="", pre=None, ms=("M",), **k):
        def fn(ctx):
            kw = dict(k)
            if pre is not None:
                kw.update(pre(ctx))
            r = kpi.simple(ctx, **kw)
            stations(ctx, r, kpi.Pack(ctx, r), ms)

        return Scenario(name, fn, covers, bounds=bounds)

    def down(ctx):
        bd = ctx.real("bd", 1, None, True)
        return {"extra": {"bd": bd, "rep": 1}}

    c = ["two products at a station"]
    two = {"route": ("P", "Q"), "machines": {"M": {"procs": ["P"]}, "N": {"procs": ["Q"]}}, "ms": ("M", "N")}
    B = {"B": {"type": "BreakDownState", "time_model_id": "bd", "repair_time_model_id": "rep"}}
    done = lambda n: (lambda r: len(r.finished()) >= n)
    a = ["two auxiliaries in use"]
    return [
        scn("station", c, "2 / 3 products on one machine", n=2 if q else 3, tcap=2),
        scn("two-stations", c, "2 products over two machines", n=2, gaps=[[1, None]], tcap=2, **two),
        scn("at-once", [], "2 products over two machines, transports that take no time, the first product at time 0", n=2, gaps=[[0, None]], tt=0, tP="sym", **two),
        scn("interrupted", [], "1 product over two machines, a transporter with breakdowns", n=1, gaps=[[1]], tt=3, tP=2, states=B, tstates=["B"], pre=down, until=done(1), **two),
        scn("stopped", [], "2 products over two machines, stopped after any of the first 20 events", n=2, gaps=[[1, None]], tP=2, tcap=2, stop=(4, 20), **two),
        Scenario("auxiliaries", with_aux(["X"], gaps=[[1, None]]), a, bounds="2 products that need an auxiliary each"),
        Scenario("two-auxiliaries", with_aux(["X", "Y"], gaps=[[1, 1], [2]] if q else [[1, None], [2]]), a, bounds="3 products, two types of auxiliaries"),
        Scenario("similar-names", with_aux(["X", "X2"], gaps=[[1], [2]]), bounds="types of auxiliaries X and X2"),
        Scenario("names-in-parts", with_aux(["X_1", "X_2"], gaps=[[1], [2]]), bounds="types of auxiliaries X_1 and X_2"),
        Scenario("auxiliaries-stopped", with_aux(["X"], gaps=[[1, 2]] if q else [[1, None]], stop=(8, 24)), bounds="2 products, stopped after the 8th to the 24th event"),
    ]
