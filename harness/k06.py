"""K06: the availability of the system is what unscheduled downtimes leave of the resources' time."""
from symx.engine import Scenario

from . import kpi
from . import k03
from .simlib import sty

ASSUMPTIONS = kpi.ASSUMPTIONS + ["availability is averaged over all resources that did anything; figures are rounded to two decimals"]


def check(ctx, run, resources, method=None):
    pk = kpi.Pack(ctx, run, warm_up_cutoff=True, cut_off_method=method) if method else kpi.Pack(ctx, run)
    log = [e for e in run.log if sty(e) != "ProcessBreakdown"]
    end = log[-1]["Time"]
    begin = 0
    if method:
        # K07 states where the cut-off is
        begin = pk.get("warm_up_cutoff_time")
        ctx.cover("a cut-off", ctx.lt(0, begin))
        downs = [e["Time"] for e in log if e["Resource"] == "M" and sty(e) == "Breakdown"]
        ctx.cover("down at the cut-off", bool(downs) and ctx.Or(*[ctx.And(ctx.lt(a, begin), ctx.lt(begin, b)) for a, b in zip(downs[::2], downs[1::2])]))
    oee = {x["KPI"]: x["Value"] for _, x in pk.get("df_oee_production_system").iterrows()}
    active = [r for r in resources if any(e["Resource"] == r for e in log)]
    down = ctx.Sum(k03.shares(ctx, log, r, end, begin, bool(method))["UD"] for r in active)
    # availability = 100 - mean share of downtime; rounding allows 0.005 either way
    want = 100 * (end - begin) * len(active) - 100 * down
    got = oee["Availability"] * (end - begin) * len(active)
    tol = (end - begin) * len(active) * 0.0051
    ctx.require(ctx.And(ctx.le(got, want + tol), ctx.le(want - tol, got)), "availability is the share of the time without unscheduled downtime", "")
    ctx.require(ctx.eq(oee["Performance"], 100) and ctx.eq(oee["Quality"], 100), "no losses of performance or quality are assumed", "")
    ctx.require(ctx.eq(oee["OEE"], oee["Availability"]), "OEE is the product of the three", "")
    ctx.cover("no downtime", ctx.eq(down, 0))
    ctx.cover("there is downtime", ctx.lt(0, down))


def scenarios(tier):
    def scn(name, covers=(), bounds="", pre=None, only=("M", "T"), method=None, **k):
        def fn(ctx):
            kw = dict(k)
            if pre is not None:
                kw.update(pre(ctx))
            check(ctx, kpi.simple(ctx, **kw), only, method)

        return Scenario(name, fn, covers, bounds=bounds)

    def brk(ctx):
        return {"extra": {"bd": ctx.real("bd", 3, None, True), "rep": ctx.real("rep", 0, None, True), "tP": 3}}

    def brk2(ctx):
        return {"extra": {"bd": ctx.real("bd", 8, None, True), "rep": 3, "bd2": ctx.real("bd2", 8, None, True), "rep2": 2}}

    def late(ctx):
        return {"extra": {"bd": ctx.real("bd", 1, None, True), "rep": 4}}

    B = {"B": {"type": "BreakDownState", "time_model_id": "bd", "repair_time_model_id": "rep"}}
    B2 = dict(B, B2={"type": "BreakDownState", "time_model_id": "bd2", "repair_time_model_id": "rep2"})
    def setup(ctx):
        return {"extra": {"st": ctx.real("st", 0, 9, True), "bd": ctx.real("bd", 8, None, True), "rep": 2}}

    ss = {"S1": {"type": "SetupState", "time_model_id": "st", "origin_setup": "P", "target_setup": "Q"}, **B}
    return [
        scn("setup", ["there is downtime", "no downtime"], "1 product with two operations on a machine with a setup between them and breakdowns", n=1, gaps=[[1]], tP=2, pre=setup, states=ss, mstates=["S1", "B"], route=("P", "Q"), until=lambda r: len(r.finished()) >= 1),
        scn("warm-up", ["a cut-off", "there is downtime", "no downtime", "down at the cut-off"], "7 products of one type, the first one is in the warm-up phase, breakdowns of the machine", n=7, tP=1, pre=late, gaps=[[1] * 7], tcap=1, states=B, mstates=["B"], method="static_ratio", until=lambda r: len(r.finished()) >= 7),
        scn("no-downtime", ["no downtime"], "1 product, no breakdowns", n=1, gaps=[[1]]),
        scn("one-of-two", ["there is downtime", "no downtime"], "1 product, breakdowns of the machine", n=1, gaps=[[1]], tP=1, pre=brk, states=B, mstates=["B"], until=lambda r: len(r.finished()) >= 1),
        scn("two-machines", ["there is downtime", "no downtime"], "1 product over two machines with breakdowns each", n=1, gaps=[[1]], tP=2, pre=brk2, states=B2, route=("P", "Q"), machines={"M": {"procs": ["P"], "states": ["B"]}, "N": {"procs": ["Q"], "states": ["B2"]}}, only=("M", "N", "T"), until=lambda r: len(r.finished()) >= 1),
    ]
