"""K04: the work in progress figures count the products in the system."""
from symx.engine import Scenario

from . import kpi
from . import oracle as O
from .simlib import act


ASSUMPTIONS = kpi.ASSUMPTIONS + ["the average figures are only bounded by the smallest and largest level (the code averages over events, not over time)"]


def check(ctx, run):
    pk = kpi.Pack(ctx, run)
    log = run.log
    born = {p: t for p, t, _ in O.created(log)}
    done = {p: t for p, t, _ in O.finished(log)}
    types = sorted({kpi.ptype(p) for p in born})

    def level(t, a=None):
        ps = [p for p in born if a is None or kpi.ptype(p) == a]
        up = ctx.Sum(ctx.Ite(ctx.le(born[p], t), 1, 0) for p in ps)
        down = ctx.Sum(ctx.Ite(ctx.le(done[p], t), 1, 0) for p in ps if p in done)
        return up - down

    def levels(df, a):
        rows = [x for _, x in df.iterrows()]
        for x, y in zip(rows, rows[1:] + [None]):
            # rows of one instant: the level counts after the last of them
            if y is not None and bool(ctx.eq(x["Time"], y["Time"])):
                continue
            ctx.require(ctx.eq(x["WIP"], level(x["Time"], a)), "the level at an event is created minus finished", str(a))
        n = sum(1 for x in rows if x["WIP_Increment"] != 0)
        ps = [p for p in born if a is None or kpi.ptype(p) == a]
        ctx.require(n == len(ps) + len([p for p in ps if p in done]), "every creation and completion changes the level", str(a))

    levels(pk.get("df_WIP"), None)
    df = pk.get("df_WIP_per_product")
    for a in types:
        levels(df[df["Product_type"] == a], a)
    rep = {i.product_type: i for i in pk.get("WIP_KPIs")}
    ctx.require(sorted(rep) == sorted(types + ["all_products"]), "one figure per type and one for all", repr(sorted(rep)))
    for a in types:
        if a in rep:
            lv = [x for x in df[df["Product_type"] == a]["WIP"]]
            ctx.require(ctx.And(ctx.le(min(lv), rep[a].value), ctx.le(rep[a].value, max(lv))), "the average lies between the smallest and largest level", a)
    dyn = pk.get("dynamic_WIP_KPIs")
    for a in [None] + types:
        ks = [k for k in dyn if k.product_type == (a or "Total")]
        ps = [p for p in born if a is None or kpi.ptype(p) == a]
        ctx.require(len(ks) == len(ps) + len([p for p in ps if p in done]), "the course has one step per creation and completion", str(a))
        for k in ks:
            ctx.require(ctx.Or(ctx.eq(k.start_time, k.end_time), ctx.eq(k.value, level(k.start_time, a))), "each step of the course states the level that holds during it", str(a))
        for k, l in zip(ks, ks[1:]):
            ctx.require(ctx.eq(k.end_time, l.start_time), "the steps of the course follow each other", str(a))
        ctx.cover("two products at once", any(k.value == 2 for k in ks))
    ctx.observe("wip", [[k.product_type, k.value, k.start_time, k.end_time] for k in dyn])


def scenarios(tier):
    q = tier == "quick"

    def scn(name, covers=(), bounds="", **k):
        def fn(ctx):
            check(ctx, kpi.simple(ctx, **k))

        return Scenario(name, fn, covers, bounds=bounds)

    c = ["two products at once"]
    return [
        scn("one-type", c, "2 / 3 products of one type", n=2 if q else 3, tcap=2),
        scn("two-types", c, "one / two products of each of two types", n=1 if q else 2, types=("A", "B"), gaps=None if q else [[1, None], [1, None]], tcap=2),
        scn("stopped", c, "3 products of two types, stopped after any of the first 16 events", n=2, types=("A", "B"), gaps=[[1, None], [2]], tP=2, tcap=2, stop=(4, 16)),
        scn("breakdown", [], "1 product, the machine has breakdowns", n=1, gaps=[[1]], tP=4, extra={"bd": 4, "rep": 3}, states={"B": {"type": "BreakDownState", "time_model_id": "bd", "repair_time_model_id": "rep"}}, mstates=["B"], until=lambda r: len(r.finished()) >= 1),
        scn("similar-names", c, "types A and A_1, one product each", n=1, types=("A", "A_1"), tP=2, tcap=2),
    ]
