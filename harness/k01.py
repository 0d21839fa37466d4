"""K01: the throughput time figures are the times between creation and completion."""
from symx.engine import Scenario

from . import kpi
from . import oracle as O

ASSUMPTIONS = kpi.ASSUMPTIONS


def check(ctx, run, method=None):
    pk = kpi.Pack(ctx, run, warm_up_cutoff=True, cut_off_method=method) if method else kpi.Pack(ctx, run)
    log = run.log
    born = {p: t for p, t, _ in O.created(log)}
    done = {p: t for p, t, _ in O.finished(log)}
    df = pk.get("df_throughput")
    rows = {}
    for _, x in df.iterrows():
        ctx.require(x["Product"] not in rows, "one row per product", x["Product"])
        rows[x["Product"]] = x
    ctx.require(set(rows) == set(done), "exactly the finished products are listed", f"{sorted(rows)} {sorted(done)}")
    for p, t in done.items():
        if p not in rows:
            continue
        x = rows[p]
        ctx.require(x["Product_type"] == kpi.ptype(p), "a product is listed under its type", p)
        ctx.require(ctx.And(ctx.eq(x["Start_time"], born[p]), ctx.eq(x["End_time"], t)), "a product's row spans creation to completion", p)
        ctx.require(ctx.eq(x["Throughput_time"], t - born[p]), "the throughput time is completion minus creation", p)
    k = pk.get("dynamic_thoughput_time_KPIs")
    ctx.require(len(k) == len(done), "one dynamic figure per finished product", str(len(k)))
    for i in k:
        ctx.require(ctx.eq(i.value, i.end_time - i.start_time), "dynamic figure: value is end minus start", i.product_type)
    if method:
        # K07 states which products a cut-off keeps
        kept = {x["Product"] for _, x in pk.get("df_throughput_with_warum_up_cutoff").iterrows()}
        ctx.cover("a cut-off", len(kept) < len(done))
        done = {p: t for p, t in done.items() if p in kept}
    types = sorted({kpi.ptype(p) for p in done})
    agg = {i.product_type: i.value for i in pk.get("aggregated_throughput_time_KPIs")}
    ctx.require(sorted(agg) == types, "one mean per type with finished products", repr(sorted(agg)))
    for a in types:
        mine = [done[p] - born[p] for p in done if kpi.ptype(p) == a]
        if a in agg:
            ctx.require(ctx.eq(agg[a] * len(mine), ctx.Sum(mine)), "the type's throughput time is the mean over its finished products", a)
            ctx.observe(a, agg[a])
    ctx.cover("a product is unfinished", len(born) > len(done))
    ctx.cover("no product is finished", not done)


def scenarios(tier):
    q = tier == "quick"

    def scn(name, covers=(), bounds="", method=None, **k):
        def fn(ctx):
            check(ctx, kpi.simple(ctx, **k), method)

        return Scenario(name, fn, covers, bounds=bounds)

    return [
        scn("one-type", [], "2 / 3 products of one type", n=2 if q else 3, tcap=2),
        scn("three", [], "3 products of one type, two arriving together, the third after an arbitrary time", n=3, gaps=[[1, 1, None]]),
        scn("two-types", [], "2 types on one machine, 1 + 2 products", n=2, types=("A", "B"), gaps=[[None, 1], [None]], tP=2, tcap=2),
        scn("two-processes", [], "2 products with two operations, one operation time free", n=2, route=("P", "Q"), gaps=[[1, None]], tcap=2),
        scn("stopped", ["a product is unfinished", "no product is finished"], "3 products of two types, stopped after any of the first 16 events", n=2, types=("A", "B"), gaps=[[1, None], [2]], tP=2, tcap=2, stop=(4, 16)),
        scn("warm-up", ["a cut-off"], "7 products of one type, the first one is in the warm-up phase", n=7, tP="sym", gaps=[[None] + [1] * 6], method="static_ratio"),
        scn("similar-names", [], "types A and A_1, one product each", n=1, types=("A", "A_1"), tP=2, tcap=2),
    ]
