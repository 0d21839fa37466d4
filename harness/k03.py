"""K03: the reported resource states are the shares of the time the resource spent in them."""
from symx.engine import Scenario

from . import kpi
from . import oracle as O
from .simlib import act, sty

ASSUMPTIONS = kpi.ASSUMPTIONS + [
    "the observed time is from 0 to the last event of the log; breakdowns of single processes do not count as downtime of the resource",
    "at most two operations at a time, except in the scenario capacity-3; setups on machines of capacity 1 only",
]
NAMES = {"standby_time": "SB", "productive_time": "PR", "unscheduled_downtime": "UD", "setup_time": "ST", "charging_time": "CR"}


def shares(ctx, log, resource, end, begin=0, warm=False):
    """time per state from begin to end, read off the log"""
    tot = {k: 0 for k in ("SB", "PR", "UD", "ST", "CR")}
    active, down, other = set(), set(), {"Setup": 0, "Charging": 0}
    last = begin
    for e in log:
        if e["Resource"] != resource:
            continue
        t, k, a = e["Time"], sty(e), act(e)
        if a in O.AUX:
            continue
        if k not in ("Production", "Transport", "Breakdown", "Setup", "Charging"):
            continue
        lab = "UD" if down else "CR" if other["Charging"] else "ST" if other["Setup"] else "PR" if active else "SB"
        if not warm or begin < t:
            tot[lab] = tot[lab] + (t - last)
            last = t
        if k in ("Production", "Transport"):
            key = (e["State"], e.get("Product"))
            if a in (O.START, O.RESUME):
                active.add(key)
            else:
                active.discard(key)
        elif k == "Breakdown":
            (down.add if a == O.START else down.discard)(e["State"])
        else:
            other[k] = 1 if a == O.START else 0
    lab = "UD" if down else "CR" if other["Charging"] else "ST" if other["Setup"] else "PR" if active else "SB"
    tot[lab] = tot[lab] + (end - last)
    return tot


def check(ctx, run, resources, method=None):
    pk = kpi.Pack(ctx, run, warm_up_cutoff=True, cut_off_method=method) if method else kpi.Pack(ctx, run)
    log = [e for e in run.log if sty(e) != "ProcessBreakdown"]
    end = log[-1]["Time"]
    begin = 0
    if method:
        # K07 states where the cut-off is
        begin = pk.get("warm_up_cutoff_time")
        ctx.cover("a cut-off", ctx.lt(0, begin))
    rep = {}
    tab = {(x["Resource"], x["Time_type"]): x for _, x in pk.get("df_aggregated_resource_states").iterrows()}
    for i in pk.get("machine_state_KPIS"):
        lab = NAMES[i.name.value]
        ctx.require((i.resource, lab) not in rep, "one figure per resource and state", f"{i.resource} {lab}")
        rep[(i.resource, lab)] = i.value
    for r in resources:
        s = shares(ctx, log, r, end, begin, bool(method))
        if not any((r, lab) in rep for lab in s):
            ctx.require(not any(e["Resource"] == r for e in log), "a resource that did something is reported", r)
            continue
        for lab in s:
            x = tab.get((r, lab))
            ctx.require((x is None) == ((r, lab) not in rep), "every share is reported", f"{r} {lab}")
            ctx.require(ctx.eq(x["time_increment"] if x is not None else 0, s[lab]), f"the time in {lab} is the time spent in it", r)
            if x is not None and (r, lab) in rep:
                ctx.require(ctx.eq(x["resource_time"], end - begin), "the time of a resource is the observed time", r)
                ctx.require(ctx.eq(rep[(r, lab)] * x["resource_time"], x["time_increment"] * 100), "a share is time in the state over time", f"{r} {lab}")
            ctx.cover("share " + lab, ctx.lt(0, s[lab]))
    ctx.observe("rep", [[a, b, v] for (a, b), v in sorted(rep.items())])


BD = {"type": "BreakDownState", "repair_time_model_id": "rep"}


def scenarios(tier):
    q = tier == "quick"

    def scn(name, covers=(), bounds="", pre=None, only=("M", "T"), method=None, **k):
        def fn(ctx):
            kw = dict(k)
            if pre is not None:
                kw.update(pre(ctx))
            check(ctx, kpi.simple(ctx, **kw), only, method)

        return Scenario(name, fn, ["share SB", "share PR", *covers], bounds=bounds)

    def one(ctx):
        bd, tp = ctx.real("bd", 0, None, True), ctx.real("tp", 0, None, True)
        ctx.assume(tp <= (1 if q else 2) * bd)
        ctx.assume(bd >= 1)
        return {"extra": {"bd": bd, "rep": 3, "tP": tp}}

    def two(ctx):
        # two breakdown states that may overlap
        a, b, r = ctx.real("a", 2, 40, True), ctx.real("b", 2, 40, True), ctx.real("r", 0, 10, True)
        ctx.assume(a >= 4)
        ctx.assume(b >= 4)
        return {"extra": {"bd": a, "rep": r, "bd2": b, "rep2": 2, "tP": 3}}

    def pbd(ctx):
        bd = ctx.real("bd", 1, None, True)
        return {"extra": {"bd": bd, "rep": 3, "tP": 4}}

    def pbd2(ctx):
        bd, tq = ctx.real("bd", 3, 9, True), ctx.real("tQ", 4, 9, True)
        return {"extra": {"bd": bd, "rep": 2, "tP": 4, "tQ": tq}}

    def setup_bd(ctx):
        return {"extra": {"st": ctx.real("st", 0, 20, True), "bd": ctx.real("bd", 3, None, True), "rep": 2}}

    def charge_bd(ctx):
        return {"extra": {"bat": 2, "chg": ctx.real("chg", 0, 20, True), "bd": ctx.real("bd", 3, None, True), "rep": 2}}

    def setup(ctx):
        return {"extra": {"st": ctx.real("st", 0, None, True)}}

    def charge(ctx):
        return {"extra": {"bat": ctx.real("bat", 0, None, True), "chg": ctx.real("chg", 0, None, True)}}

    done = lambda n: (lambda r: len(r.finished()) >= n)
    ss = {f"S{a}{b}": {"type": "SetupState", "time_model_id": "st", "origin_setup": a, "target_setup": b} for a, b in (("P", "Q"), ("Q", "P"))}
    return [
        scn("plain", [], "2 products, machine of capacity 1", n=2),
        scn("capacity-2", [], "2 / 3 products, machine of capacity 2", n=2 if q else 3, cap=2, tcap=2),
        scn("two-machines", [], "2 products over two machines", n=2, gaps=[[1, None]], route=("P", "Q"), machines={"M": {"procs": ["P"]}, "N": {"procs": ["Q"]}}, only=("M", "N", "T"), tcap=2),
        scn("stopped", [], "2 products, stopped after any of the first 14 events", n=2, gaps=[[1, None]], stop=(4, 14), tcap=2),
        scn("breakdown", ["share UD"], "1 product, breakdowns that interrupt the operation up to once / twice", n=1, tP=1, pre=one, gaps=[[1]], states={"B": {**BD, "time_model_id": "bd"}}, mstates=["B"], until=done(1)),
        scn("two-breakdowns", ["share UD"], "1 product, two breakdown states that overlap", n=1, tP=1, pre=two, gaps=[[1]], states={"B": {**BD, "time_model_id": "bd"}, "B2": {**BD, "time_model_id": "bd2", "repair_time_model_id": "rep2"}}, mstates=["B", "B2"], until=done(1)),
        scn("process-breakdown", [], "1 product, breakdowns of its process", n=1, tP=1, pre=pbd, gaps=[[1]], states={"B": {"type": "ProcessBreakDownState", "time_model_id": "bd", "repair_time_model_id": "rep", "process_id": "P"}}, mstates=["B"], until=done(1)),
        scn("setup", ["share ST"], "2 products, two processes with setups between them", n=2, tP=2, gaps=[[1, None]], pre=setup, states=ss, mstates=["SPQ", "SQP"], route=("P", "Q"), tcap=2),
        scn("charging", ["share CR"], "2 products, battery powered machine", n=2, tP=2, gaps=[[1, None]], pre=charge, states={"CH": {"type": "ChargingState", "time_model_id": "chg", "battery_time_model_id": "bat"}}, mstates=["CH"], tcap=2),
        scn("setup-breakdown", ["share ST", "share UD"], "1 product with two operations, the setup between them interrupted by breakdowns", n=1, tP=1, gaps=[[1]], pre=setup_bd, states={**ss, "B": {**BD, "time_model_id": "bd"}}, mstates=["SPQ", "SQP", "B"], route=("P", "Q"), until=done(1)),
        scn("charging-breakdown", ["share CR", "share UD"], "2 products, battery powered machine with breakdowns", n=2, tP=2, gaps=[[1, 1]], pre=charge_bd, states={"CH": {"type": "ChargingState", "time_model_id": "chg", "battery_time_model_id": "bat"}, "B": {**BD, "time_model_id": "bd"}}, mstates=["CH", "B"], until=done(2)),
        scn("process-breakdown-2", [], "2 products, two processes at once on a machine of capacity 2, breakdowns of one of them", n=1, types=("A", "B"), gaps=[[1], [1]], pre=pbd2, routes={"A": ("P",), "B": ("Q",)}, cap=2, states={"B": {"type": "ProcessBreakDownState", "time_model_id": "bd", "repair_time_model_id": "rep", "process_id": "P"}}, mstates=["B"], until=done(2), route=("P", "Q"), tP=1),
        scn("warm-up", ["a cut-off"], "7 products of one type, the first one is in the warm-up phase", n=7, tP="sym", gaps=[[1, None] + [1] * 5], method="static_ratio", only=("M",)),
        scn("capacity-3", [], "3 products, machine of capacity 3", n=3, cap=3, gaps=[[1, None, 1]], only=("M",)),
    ]
