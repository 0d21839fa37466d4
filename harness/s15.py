"""S15: battery powered resources charge when they must, only then, and never while working."""
from symx.engine import Scenario

from . import flow
from . import oracle as O
from . import simlib as S

ASSUMPTIONS = [
    "arrival gaps, operation, charging and battery times are arbitrary positive reals up to 10000 (some fixed in the quick tier)",
    "constant battery time within a run, the used time never equals the limit exactly; no breakdowns",
]
LEVEL = 1 - 0.1  # part of the battery time after which a resource has to be charged


def build(ctx, n, where, cap=1, gaps=None, tP="sym", tt=1, two=False, bat="sym"):
    tms = {"tt": ctx.real("tt", 0, None, True) if tt == "sym" else tt, "bat": ctx.real("bat", 0, None, True) if bat == "sym" else bat, "chg": ctx.real("chg", 0, None, True)}
    tms["tP"] = ctx.real("tP", 0, None, True) if tP == "sym" else tP
    tms["arr"] = [ctx.real("gap", 0, None, True) if g is None else g for g in (gaps or [None] * n)]
    procs = {"P": {"t": "tP"}, "TP": {"kind": "transport", "t": "tt"}}
    route = ["P"]
    if two:
        tms["tQ"] = ctx.real("tQ", 0, None, True)
        procs["Q"] = {"t": "tQ"}
        route = ["P", "Q"]
    states = {"CH": {"type": "ChargingState", "time_model_id": "chg", "battery_time_model_id": "bat"}}
    ad = S.build(
        tms, procs,
        {"M": {"procs": route, "cap": cap if where == "M" else n, "pcaps": [cap if where == "M" else n] * len(route), "states": ["CH"] if where == "M" else []}},
        {"A": {"procs": route}}, {"src": {"product": "A", "t": "arr"}},
        transports={"T": {"procs": ["TP"], "cap": 1 if where == "T" else 8, "states": ["CH"] if where == "T" else []}}, states=states,
    )
    r = S.Run(ctx, ad).go()
    ctx.observe("log", S.plain_log(r.log))
    r.info = {"jobs": n * 1, "tms": tms, "where": where, "cap": cap}
    return r


class Unit:
    """one request served: a production operation, or the trips of a transport"""

    def __init__(self, ops):
        self.ops = ops
        self.first, self.last = ops[0].first, ops[-1].last
        self.start, self.end = ops[0].start, ops[-1].end

    def dur(self, ctx):
        return ctx.Sum(o.end - o.start for o in self.ops)


def check(ctx, run, only_overlap=False):
    log, tms, res, cap = run.log, run.info["tms"], run.info["where"], run.info["cap"]
    ctx.require(run.ended == "idle" and len(run.finished()) == run.info["jobs"], "every product is finished", f"{run.ended} {len(run.finished())}")
    ops = sorted(O.ops(ctx, log), key=lambda o: o.first)
    lg = flow.legs(ops, log)
    chg = [o for o in ops if o.kind == "Charging"]
    ctx.require(all(o.resource == res for o in chg), "only battery powered resources charge", "")
    if res == "M":
        units = [Unit([o]) for o in ops if o.kind == "Production"]
    else:
        units = [Unit(g["ops"]) for g in lg]
    units.sort(key=lambda u: u.first)
    for c in chg:
        ctx.require(c.closed and len(c.segs) == 1 and ctx.eq(c.end - c.start, tms["chg"]), "charging takes the charging time", repr(c))
        if not c.closed:
            return
        ctx.cover("the resource charges")
        for u in units:
            for o in u.ops:
                ctx.require(ctx.Or(ctx.le(o.end, c.start), ctx.le(c.end, o.start)), "nothing is done while charging", f"{o!r} charging {c.start}-{c.end}")
    if only_overlap:
        return
    # usage since the last charging
    thr = tms["bat"] * LEVEL
    def near(us):
        # rounding: the used time is not exactly at the limit
        u = ctx.Sum(x.dur(ctx) for x in us)
        ctx.assume(ctx.Or(ctx.lt(u, thr), ctx.lt(thr, u)))
        return u

    order = sorted([(u.first, u) for u in units] + [(c.first, c) for c in chg], key=lambda x: x[0])
    since = []
    for i, (_, x) in enumerate(order):
        if isinstance(x, Unit):
            before = ctx.Sum(ctx.Ite(ctx.lt(u.start, x.start), u.dur(ctx), 0) if cap > 1 else u.dur(ctx) for u in since)
            if since:
                ctx.require(ctx.le(before, thr), "no work starts with an empty battery", repr(x.ops))
            since.append(x)
            near(since)
        else:
            used = ctx.Sum(u.dur(ctx) for u in since)
            ctx.require(bool(since), "charging follows work", repr(x))
            ctx.require(ctx.le(thr, used), "a resource charges only when its battery is used up", repr(x))
            ctx.cover("charging after several operations", len(since) > 1)
            if cap == 1 and since:
                ctx.require(ctx.eq(x.start, since[-1].end), "an empty battery is charged at once", repr(x))
            ctx.cover("work waits for the end of charging", i + 1 < len(order) and ctx.And(ctx.eq(order[i + 1][1].start, x.end)))
            since = []
    if since:
        ctx.require(ctx.le(ctx.Sum(u.dur(ctx) for u in since), thr), "an empty battery is charged", repr(since[-1].ops))
    if cap == 1:
        # waiting work starts as soon as the resource is neither working nor charging
        ready = flow.ready_times(ops, log, lg)
        jobs = []
        for u in units:
            key = u.ops[0] if res == "M" else [g for g in lg if g["ops"][0] is u.ops[0]][0]
            nxt = [c for c in chg if c.first > u.last and not any(u.last < v.first < c.first for v in units)]
            jobs.append((ready[id(key)], u.start, nxt[0].end if nxt else u.end, u.last))
        flow.work_conserving(ctx, jobs, 1, res)


def several(n, gaps, tP=None):
    """a machine with two batteries that are charged separately"""

    def fn(ctx):
        tms = {i: ctx.real(i, 0, None, True) for i in ("bat1", "bat2", "chg1", "chg2")}
        tms["tt"], tms["tP"] = 1, tP or ctx.real("tP", 0, None, True)
        tms["arr"] = [ctx.real("gap", 0, None, True) if g is None else g for g in gaps]
        ad = S.build(
            tms, {"P": {"t": "tP"}, "TP": {"kind": "transport", "t": "tt"}},
            {"M": {"procs": ["P"], "cap": 1, "states": ["C1", "C2"]}}, {"A": {"procs": ["P"]}}, {"src": {"product": "A", "t": "arr"}},
            transports={"T": {"procs": ["TP"], "cap": 8}},
            states={f"C{i}": {"type": "ChargingState", "time_model_id": f"chg{i}", "battery_time_model_id": f"bat{i}"} for i in (1, 2)},
        )
        r = S.Run(ctx, ad).go()
        ctx.require(r.ended == "idle" and len(r.finished()) == n, "every product is finished", r.ended)
        ops = sorted((o for o in O.ops(ctx, r.log) if o.resource == "M"), key=lambda o: o.first)
        used = {"C1": 0, "C2": 0}
        limit = {f"C{i}": tms[f"bat{i}"] * LEVEL for i in (1, 2)}
        for i, o in enumerate(ops):
            ctx.require(o.closed, "charging takes the charging time", repr(o))
            if i:
                ctx.require(ctx.le(ops[i - 1].end, o.start), "nothing is done while charging", repr(o))
            if o.kind == "Charging":
                ctx.cover("the resource charges")
                ctx.require(ctx.eq(o.end - o.start, tms["chg" + o.state[1]]), "charging takes the charging time", repr(o))
                ctx.require(ctx.lt(limit[o.state], used[o.state]), "a resource charges only when its battery is used up", o.state)
                ctx.require(ctx.eq(o.start, ops[i - 1].end), "an empty battery is charged at once", o.state)
                used[o.state] = 0
                ctx.cover("both batteries are charged", i > 1 and ops[i - 1].kind == "Charging")
            else:
                for c in used:
                    ctx.require(ctx.le(used[c], limit[c]), "no work starts with an empty battery", c)
                    used[c] = used[c] + o.end - o.start
                    ctx.assume(ctx.Or(ctx.lt(used[c], limit[c]), ctx.lt(limit[c], used[c])))
                if i + 1 == len(ops):
                    for c in used:
                        ctx.require(ctx.lt(used[c], limit[c]), "an empty battery is charged", c)

    return fn


def scn(name, covers=(), bounds="", only_overlap=False, **k):
    def fn(ctx):
        r = build(ctx, **k)
        if k["where"] == "T" and not only_overlap:
            # nothing is requested while the transporter works or sets off (but it may be while it charges)
            ops = O.ops(ctx, r.log)
            lg = flow.legs(ops, r.log)
            ready = flow.ready_times(sorted(ops, key=lambda o: o.first), r.log, lg)
            for g in lg:
                for h in lg:
                    if g is not h:
                        t = ready[id(h)]
                        ctx.assume(ctx.Or(ctx.lt(t, g["ops"][0].start), ctx.lt(g["ops"][-1].end, t)))
        check(ctx, r, only_overlap)

    return Scenario(name, fn, ["the resource charges", *covers], bounds=bounds)


def scenarios(tier):
    q = tier == "quick"
    many = ["charging after several operations", "work waits for the end of charging"]
    return [
        scn("machine", many, n=2 if q else 3, where="M", gaps=[1, None] if q else [1, None, None], bounds="2 / 3 products, machine of capacity 1"),
        scn("machine-three", many, n=3, where="M", gaps=[1, 1, None], tP=2, bounds="3 products, fixed process time, machine of capacity 1"),
        scn("machine-two-processes", many, n=2, where="M", two=True, gaps=[1, 1] if q else [1, None], bounds="2 products, two operations each on one machine"),
        scn("transport", [], n=2, where="T", gaps=[1, None], tt="sym", bounds="2 products, transporter of capacity 1, empty and loaded trips; no request arrives during a trip or as it starts"),
        scn("transport-busy", n=2, where="T", gaps=[1, None], tt="sym", only_overlap=True, tP=1, bounds="2 products, requests arrive during trips; only: no charging during a trip"),
        Scenario("two-batteries", several(2 if q else 3, [1, 1] if q else [1, 1, None]), ["the resource charges", "both batteries are charged"], bounds="2 / 3 products, a machine of capacity 1 with two charging states of arbitrary battery and charging times"),
        scn("capacity-2", n=3, where="M", cap=2, gaps=[1, None, 2] if q else [1, None, None], bounds="3 products, machine of capacity 2"),
    ]
