"""S16: the event log is a consistent history of the run."""
from symx.engine import Scenario

from . import brk, kpi, s12, s13, s14, s15
from . import oracle as O
from . import simlib as S

ASSUMPTIONS = [
    "arrival gaps, process, transport, setup, charging and repair times and times between failures are arbitrary reals above 0 (from 0 where a scenario says so) up to 10000 where a scenario leaves them free",
    "an operation of no duration may be a single end row",
]
WORK = ("Production", "Transport", "Setup", "Charging")
DOWN = ("Breakdown", "ProcessBreakdown")
TYPE = {"ProductionState": "Production", "BreakDownState": "Breakdown", "ProcessBreakDownState": "ProcessBreakdown", "SetupState": "Setup", "ChargingState": "Charging"}


def names(ad):
    res = {r.ID: r for r in ad.resource_data}
    states = {r.ID: {i: TYPE[s.type] for i in r.state_ids for s in ad.state_data if s.ID == i} for r in ad.resource_data}
    trans = {p.ID for p in ad.process_data if "Transport" in p.type}
    compound = {p.ID: p.process_ids for p in ad.process_data if p.type == "CompoundProcesses"}
    for r in ad.resource_data:
        for p in r.process_ids:
            for q in [p] + compound.get(p, []):
                states[r.ID][q] = "Transport" if q in trans else "Production"
    return res, states


class Track:
    __slots__ = ("at", "since", "expected", "origin", "target", "empty", "rest")


def check(ctx, run, zero=False):
    log, ad = run.log, run.ad
    res, states = names(ad)
    srcs = {s.ID: s.product_type for s in ad.source_data}
    sinks = {s.ID: s.product_type for s in ad.sink_data}
    places = set(res) | set(srcs) | set(sinks) | {n.ID for n in ad.node_data} | {q.ID for q in ad.queue_data} | {"Loading station"}
    carriers = {x.data.ID for x in run.r.auxiliary_factory.auxiliaries} if run.r.auxiliary_factory else set()
    born, done, live, used = {}, set(), {}, {}
    last = 0
    for n, e in enumerate(log):
        a, k, who, st, p = S.act(e), S.sty(e), e["Resource"], e["State"], e.get("Product") or ""
        row = f"row {n}: {who} {st} {k} {a} {p}"
        ctx.require(ctx.le(last, e["Time"]), "the rows are in order of time", row)
        last = e["Time"]
        if a == O.CREATED:
            t = p.rsplit("_", 1)[0]
            ctx.require(k == "Source" and who in srcs and srcs[who] == t, "a product is created once by a source of its type", row)
            ctx.require(p not in born, "a product is created once by a source of its type", row)
            born[p] = t
            continue
        if a == O.FINISHED:
            ctx.require(k == "Sink" and who in sinks and sinks[who] == born.get(p) and p not in done, "a product is finished once in a sink of its type", row)
            open_ = [key for key in live if key[3] == p]
            ctx.require(not open_, "a finished product is in no operation", repr(open_))
            done.add(p)
            continue
        if a in O.AUX:
            ctx.require(p in carriers and who in places, "usages are those of the auxiliaries", row)
            ctx.require(used.get(p, False) == (a == O.AUX[1]), "start and end of a usage alternate", row)
            used[p] = a == O.AUX[0]
            continue
        if a == "created auxiliary":
            ctx.require(p in carriers, "usages are those of the auxiliaries", row)
            continue
        ctx.require(who in res and states.get(who, {}).get(st) == k, "a row names a resource, one of its states and the state's type", row)
        if k in ("Production", "Transport"):
            ctx.require((p in born and p not in done) or (k == "Transport" and p in carriers), "work is done on products between their creation and their end", row)
        if k == "Transport":
            ctx.require(e["Origin location"] in places and e["Target location"] in places and e["Empty Transport"] in (True, False), "a transport row says where from, where to and whether loaded", row)
        key = (k, who, st, p if k in ("Production", "Transport") else "")
        x = live.get(key)
        if a == O.START:
            ctx.require(x is None or x.at == O.RESUME, "the rows of an operation alternate properly", row)
            if x is not None and x.at == O.RESUME:
                ctx.require(ctx.And(ctx.eq(x.since, e["Time"]), ctx.eq(x.expected, e["Expected End Time"])), "an operation goes on when its interruption ends", row)
                if k == "Transport":
                    ctx.require((x.origin, x.target, x.empty) == (e["Origin location"], e["Target location"], e["Empty Transport"]), "a trip keeps its ends", row)
            x = live[key] = Track()
            x.at, x.since, x.expected = a, e["Time"], e["Expected End Time"]
            x.origin, x.target, x.empty = e["Origin location"], e["Target location"], e["Empty Transport"]
            ctx.require(ctx.le(x.since, x.expected), "the expected end is not in the past", row)
        elif a == O.PAUSE:
            ctx.require(k in WORK and x is not None and x.at == O.START, "the rows of an operation alternate properly", row)
            if x is None:
                continue
            ctx.require(ctx.le(e["Time"], x.expected), "an interruption comes before the expected end", row)
            ctx.require(any(key[0] in DOWN and key[1] == who for key in live), "an operation is interrupted by a failure of its resource", row)
            x.at, x.since = a, e["Time"]
            x.rest = x.expected - e["Time"]
        elif a == O.RESUME:
            ctx.require(x is not None and x.at == O.PAUSE, "the rows of an operation alternate properly", row)
            if x is None or x.at != O.PAUSE:
                continue
            ctx.require(ctx.eq(e["Expected End Time"] - e["Time"], x.rest), "what is left to do is announced anew", row)
            x.at, x.since, x.expected = a, e["Time"], e["Expected End Time"]
            ctx.cover("an operation is interrupted")
        elif a == O.END:
            if x is None:
                ctx.require(k in WORK and zero, "the rows of an operation alternate properly", row)
                ctx.cover("an operation takes no time")
            else:
                ctx.require(x.at == O.START, "the rows of an operation alternate properly", row)
                ctx.require(ctx.eq(e["Time"], x.expected), "an operation ends when its last row announced", row)
                del live[key]
        else:
            ctx.require(False, "every row has a known activity", row)
    for key, x in live.items():
        ctx.require(x.at == O.PAUSE or ctx.le(last, x.expected), "an operation that is over has an end row", repr(key))
    ctx.cover("an operation is open at the end", bool(live))
    table(ctx, run)


def table(ctx, run):
    """the event list given to users has the same rows"""
    from prodsys.models import performance_data
    from types import SimpleNamespace

    saved = performance_data.Event
    performance_data.Event = lambda **k: SimpleNamespace(**k)
    try:
        got = run.r.get_event_data_of_simulation()
    finally:
        performance_data.Event = saved
    log = run.log
    ctx.require(len(got) == len(log), "the event list has the rows of the log", f"{len(got)} {len(log)}")
    for n, (g, e) in enumerate(zip(got, log)):
        same = (g.resource, g.state, g.activity) == (e["Resource"], e["State"], S.act(e)) and g.state_type == e["State Type"] and (g.product or "") == (e.get("Product") or "") and (g.target_location or "") == (e.get("Target location") or "")
        ctx.require(same, "the event list has the rows of the log", str(n))
        ctx.require(ctx.eq(g.time, e["Time"]), "the event list has the times of the log", str(n))
        x = e.get("Expected End Time")
        ctx.require(ctx.eq(g.expected_end_time, -1 if x is None else x), "the event list has the times of the log", str(n))


class Caught:
    """runs of a builder, optionally stopped after some event"""

    def __init__(self, mod=None, stop=None, ctx=None):
        self.mod, self.stop, self.ctx, self.runs = mod, stop, ctx, []

    def __enter__(self):
        self.go, me = S.Run.go, self

        def go(run, until=None):
            if me.stop:
                k = me.stop[0] + me.ctx.choice(me.stop[1] - me.stop[0] + 1, "stop")
                until = lambda r: len(r.log) >= k
            out = me.go(run, until)
            me.runs.append(run)
            return out

        S.Run.go = go
        if self.mod:
            self.check, self.mod.check = self.mod.check, lambda *a, **k: None
        return self

    def __exit__(self, *a):
        S.Run.go = self.go
        if self.mod:
            self.mod.check = self.check


def of(build, mod=None, stop=None, zero=False):
    def fn(ctx):
        with Caught(mod, stop, ctx) as c:
            build(ctx)
        for r in c.runs:
            check(ctx, r, zero)

    return fn


def zero_times(n, first=None):
    """operations and trips that may take no time"""

    def fn(ctx):
        t = {k: ctx.real(k, 0, None) for k in ("tP", "tt", "su")}
        gaps = [ctx.real("gap", 0, None) if i or first is None else first for i in range(n)]
        states = {"SU": {"type": "SetupState", "time_model_id": "su", "origin_setup": "Q", "target_setup": "P"}, "SV": {"type": "SetupState", "time_model_id": "su", "origin_setup": "P", "target_setup": "Q"}}
        tms = dict(t, tQ=1, arr=gaps)
        ad = S.build(
            tms, {"P": {"t": "tP"}, "Q": {"t": "tQ"}, "TP": {"kind": "transport", "t": "tt"}},
            {"M": {"procs": ["P", "Q"], "states": ["SU", "SV"]}}, {"A": {"procs": ["P", "Q"]}}, {"src": {"product": "A", "t": "arr"}},
            transports={"T": {"procs": ["TP"], "cap": 8}}, states=states,
        )
        S.Run(ctx, ad).go()

    return fn


def charging_down(where):
    """a battery is charged while the resource may break down"""

    def fn(ctx):
        tms = {"tt": 1, "tP": 2, "chg": ctx.real("chg", 0, None, True), "bat": 2, "arr": [1, 1], "ttf": brk.upto(ctx, 1, "ttf"), "rep": brk.upto(ctx, 1, "rep")}
        states = {"CH": {"type": "ChargingState", "time_model_id": "chg", "battery_time_model_id": "bat"}, "BD": {"type": "BreakDownState", "time_model_id": "ttf", "repair_time_model_id": "rep"}}
        ad = S.build(
            tms, {"P": {"t": "tP"}, "TP": {"kind": "transport", "t": "tt"}},
            {"M": {"procs": ["P"], "states": list(states) if where == "M" else []}}, {"A": {"procs": ["P"]}}, {"src": {"product": "A", "t": "arr"}},
            transports={"T": {"procs": ["TP"], "cap": 1, "states": list(states) if where == "T" else []}}, states=states,
        )
        S.Run(ctx, ad, tms).go()

    return fn


def links():
    """trips in several legs, the carrier breaks down"""

    def fn(ctx):
        tms = {"arr": [1, ctx.real("gap", 0, None, True)], "tP": 2, "tl": ("dist", 5.0, 0.5, "manhattan"), "ttf": brk.upto(ctx, 1, "ttf"), "rep": 3}
        states = {"BD": {"type": "BreakDownState", "time_model_id": "ttf", "repair_time_model_id": "rep"}}
        ad = S.build(
            tms, {"P": {"t": "tP"}, "TP": {"kind": "link", "t": "tl", "links": [["src", "N"], ["N", "M"], ["M", "N"], ["N", "src"], ["M", "K_A"], ["K_A", "M"]]}},
            {"M": {"procs": ["P"], "loc": [20.0, 0.0]}}, {"A": {"procs": ["P"]}}, {"src": {"product": "A", "t": "arr", "loc": [0.0, 0.0]}},
            transports={"T": {"procs": ["TP"], "cap": 1, "states": ["BD"], "loc": [0.0, 0.0]}}, states=states, nodes={"N": [10.0, 0.0]}, sinks={"K_A": {"product": "A", "loc": [30.0, 0.0]}},
        )
        S.Run(ctx, ad, tms).go()

    return fn


def scenarios(tier):
    q = tier == "quick"
    hit = ["an operation is interrupted"]
    op = ["an operation is open at the end"]

    def scn(name, build, covers=(), bounds="", **k):
        return Scenario(name, of(build, **k), covers, bounds=bounds)

    plain = lambda **k: (lambda ctx: kpi.simple(ctx, **k))
    return [
        scn("plain", plain(n=2 if q else 3, tcap=2), bounds="2 (thorough 3) products"),
        scn("two-types", plain(n=2, types=("A", "B"), cap=2, gaps=[[None, 1], [None]], tP=2, tcap=1), bounds="3 products of two types, machine of capacity 2, one carrier"),
        scn("breakdown", brk.machine(jobs=1 if q else 2, bds=((2,),)), hit, "2 breakdowns"),
        scn("stopped", brk.machine(jobs=2, bds=((1,),), job_arrivals=[1, 1]), hit + op, "1 breakdown, stopped after any of the first 20 events", stop=(2, 20)),
        scn("capacity-2", brk.machine(jobs=2, cap=2, bds=((1,),), job_arrivals=[1, 1] if q else "sym"), hit, "2 jobs on a machine of capacity 2, 1 breakdown"),
        scn("process-breakdown", brk.machine(jobs=1, bds=() if q else ((1,),), pbds=((1,),)), hit, "a process breakdown (thorough: and a machine breakdown)"),
        scn("setup", brk.machine(jobs=1, two_procs=True, setup=True, bds=((1,),), job_arrivals=[1]), hit, "setup between two processes, 1 breakdown"),
        scn("transport", brk.transport(jobs=1 if q else 2, n=1), hit, "carrier breaks down once"),
        scn("legs", links(), hit, "trips in several legs, carrier breaks down once"),
        scn("charging", (lambda ctx: s15.build(ctx, 2, "M")), bounds="machine with a battery, 2 products"),
        scn("charging-down", charging_down("M"), hit, "machine with a battery breaks down once"),
        scn("charging-transport-down", charging_down("T"), hit, "carrier with a battery breaks down once"),
        scn("batch", s13.batch(3, 2), mod=s13, bounds="3 products in batches of 2"),
        scn("auxiliaries", s14.aux({"A": 2}, 1, ta="sym"), mod=s14, bounds="2 products with one auxiliary"),
        scn("rework", s12.rework(["P"], ["P"], {"R": (["P"], True)}), mod=s12, bounds="1 product, its process may fail"),
        scn("no-time", zero_times(2, 1 if q else None), ["an operation takes no time"], "2 products, any time may be zero", zero=True),
    ]
