"""K05: the time of the products splits into production, transport and waiting."""
from symx.engine import Scenario

from . import kpi
from . import oracle as O

ASSUMPTIONS = kpi.ASSUMPTIONS + ["all products of a type have the same kinds of operations (at least one production and one transport)"]


def check(ctx, run, method=None):
    pk = kpi.Pack(ctx, run, warm_up_cutoff=True, cut_off_method=method) if method else kpi.Pack(ctx, run)
    log = run.log
    born = {p: t for p, t, _ in O.created(log)}
    done = {p: t for p, t, _ in O.finished(log)}
    ops = O.ops(ctx, log)
    if method:
        # K07 states which products a cut-off keeps
        kept = {x["Product"] for _, x in pk.get("df_throughput_with_warum_up_cutoff").iterrows()}
        ctx.cover("a cut-off", len(kept) < len(done))
        done = {p: t for p, t in done.items() if p in kept}
    df = pk.get("df_production_flow_ratio")
    rows = {x["Product_type"]: x for _, x in df.iterrows()}
    types = sorted({kpi.ptype(p) for p in done})
    ctx.require(sorted(rows) == types and len(df) == len(types), "one row per type with finished products", repr(sorted(rows)))
    for a in types:
        if a not in rows:
            continue
        mine = [p for p in done if kpi.ptype(p) == a]
        tot = ctx.Sum(done[p] - born[p] for p in mine)
        prod = ctx.Sum(o.worked(ctx) for o in ops if o.product in mine and o.kind == "Production")
        trans = ctx.Sum(o.worked(ctx) for o in ops if o.product in mine and o.kind == "Transport")
        x = rows[a]
        ctx.require(ctx.eq(x["Production "] * tot, prod * 100), "the production share is the time worked on the products", a)
        ctx.require(ctx.eq(x["Transport "] * tot, trans * 100), "the transport share is the time of the products' transports", a)
        ctx.require(ctx.eq(x["Idle "] * tot, (tot - prod - trans) * 100), "the rest is waiting", a)
        ctx.cover("a product waits", ctx.lt(prod + trans, tot))
        ctx.cover("no product waits", ctx.eq(prod + trans, tot))
        ctx.observe(a, [x["Production "], x["Transport "], x["Idle "]])


def scenarios(tier):
    q = tier == "quick"

    def scn(name, covers=(), bounds="", pre=None, method=None, **k):
        def fn(ctx):
            kw = dict(k)
            if pre is not None:
                kw.update(pre(ctx))
            check(ctx, kpi.simple(ctx, **kw), method)

        return Scenario(name, fn, covers, bounds=bounds)

    def brk(ctx):
        bd = ctx.real("bd", 1, None, True)
        tp = ctx.real("tp", 0, None, True)
        ctx.assume(tp <= 2 * bd)
        return {"extra": {"bd": bd, "rep": 3, "tP": tp}}

    def brk_t(ctx):
        return {"extra": {"bd": ctx.real("bd", 2, None, True), "rep": 1}, "tt": ctx.real("tt", 1, 5, True)}

    def brk_two(ctx):
        return {"extra": {"bd": ctx.real("bd", 4, None, True), "rep": 1, "tP": [2, 3]}}

    def brk_trip(ctx):
        # trips of different lengths, one, several or none interrupted
        return {"extra": {"bd": ctx.real("bd", 5, None, True), "rep": 1, "tt": [1, 2, 3, 1, 2, 4, 2, 1, 1, 3, 2]}}

    def drawn(ctx):
        return {"extra": {"tP": [ctx.real("tP", 0, None, True) for _ in range(2)]}}

    B = {"B": {"type": "BreakDownState", "time_model_id": "bd", "repair_time_model_id": "rep"}}
    return [
        scn("drawn-times", ["a product waits"], "2 products of one type with different process times", n=2, tP=1, pre=drawn, gaps=[[1, 1]]),
        scn("transport-interrupted", ["no product waits"], "1 product, transports interrupted by breakdowns of the transport resource", n=1, tP=1, pre=brk_t, gaps=[[1]], states=B, tstates=["B"], until=lambda r: len(r.finished()) >= 1),
        scn("one-interrupted", ["a product waits"], "2 products, one, both or none interrupted by breakdowns", n=2, tP=2, pre=brk_two, gaps=[[1, 4]], states=B, mstates=["B"], until=lambda r: len(r.finished()) >= 2),
        scn("one-trip-interrupted", ["a product waits"], "2 products, some, all or none of their transports interrupted by breakdowns", n=2, tP=2, pre=brk_trip, gaps=[[1, 4]], tcap=1, states=B, tstates=["B"], until=lambda r: len(r.finished()) >= 2),
        scn("warm-up", ["a product waits", "a cut-off"], "7 products of one type, the first one is in the warm-up phase", n=7, tP="sym", gaps=[[None] + [1] * 6], method="static_ratio"),
        scn("one-type", ["a product waits"], "2 products of one type", n=2, tcap=2, gaps=[[1, None]]),
        scn("sequence", ["no product waits"], "1 product with two operations, transport time free", n=1, route=("P", "Q"), tt="sym", tcap=2),
        scn("two-types", ["a product waits"], "one product of each of two types", n=1, types=("A", "B"), gaps=[[1], [None]], tcap=2),
        scn("interrupted", ["a product waits"], "1 product, operation interrupted by breakdowns up to twice", n=1, tP=1, pre=brk, gaps=[[1]], states={"B": {"type": "BreakDownState", "time_model_id": "bd", "repair_time_model_id": "rep"}}, mstates=["B"], until=lambda r: len(r.finished()) >= 1),
    ]
