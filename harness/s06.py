"""S06: products are neither lost nor duplicated and are in one place at a time."""
from symx.engine import Scenario

from . import brk, flow
from . import oracle as O
from . import simlib as S

ASSUMPTIONS = ["arrival gaps, process, transport and breakdown times are arbitrary positive reals up to 10000"]


class Places:
    """runs after every simulation step"""

    def __init__(self):
        self.made = self.done = 0
        self.n = 0
        self.inside = set()
        self.live = {}
        self.stored = False

    def __call__(self, run):
        ctx = run.ctx
        log = run.log
        for e in log[self.n :]:
            a, k = O.act(e), O.sty(e)
            if a == O.CREATED:
                ctx.require(e["Product"] not in self.inside, "a new product is a new one", e["Product"])
                self.inside.add(e["Product"])
                self.made += 1
            elif a == O.FINISHED:
                ctx.require(e["Product"] in self.inside, "only products in the system finish, and once", e["Product"])
                self.inside.discard(e["Product"])
                self.done += 1
            elif k in ("Production", "Transport") and not (k == "Transport" and e.get("Empty Transport")):
                p = e["Product"]
                if a == O.START and self.live.get(p) != (k, e["Resource"], e["State"]):
                    ctx.require(p not in self.live, "a product is worked on or moved in one place at a time", p)
                    self.live[p] = (k, e["Resource"], e["State"])
                elif a == O.END:
                    self.live.pop(p, None)
        self.n = len(log)
        where = {}
        for q in run.r.queue_factory.queues:
            for it in q.items:
                pid = it.ID
                ctx.require(pid not in where, "a product is in one queue at a time", pid)
                where[pid] = q.data.ID
                ctx.require(pid not in self.live, "a product in a queue is not worked on or moved", pid)
        insys = {p.product_data.ID for p in run.in_system()}
        fin = [p.product_data.ID for p in run.finished()]
        ctx.require(len(fin) == len(set(fin)) and not insys & set(fin), "a product is either in the system or finished", "")
        ctx.require(self.inside <= insys | set(fin), "a created product is in the system until it is finished", "")
        ctx.require(len(fin) == self.done, "every finished product is recorded once", "")


def check_places(ctx, run):
    """every operation happens where the product is"""
    log = run.log
    ops = sorted(O.ops(ctx, log), key=lambda o: o.first)
    at = {}
    for e in log:
        if O.act(e) == O.CREATED:
            at[e["Product"]] = e["Resource"]
    for o in ops:
        if o.kind == "Production":
            ctx.require(at.get(o.product) == o.resource, "work happens where the product is", f"{o.product}: at {at.get(o.product)}, worked on at {o.resource}")
        elif o.kind == "Transport" and not o.empty:
            ctx.require(at.get(o.product) == o.origin, "a product is picked up where it is", f"{o.product}: at {at.get(o.product)}, picked up at {o.origin}")
            at[o.product] = o.target
    for p, _, i in O.finished(log):
        ctx.require(at.get(p) == log[i]["Resource"], "a product is finished at the sink it was brought to", p)
        ctx.require(run.r.sink_factory.get_sink(log[i]["Resource"]).data.product_type == p.rsplit("_", 1)[0], "a product ends in a sink of its type", p)


def with_check(build, jobs=None):
    def fn(ctx):
        hook = Places()
        real = S.Run.go

        def go(self, *a, **k):
            h = self.hook
            self.hook = hook if h is None else (lambda r: (h(r), hook(r)))
            return real(self, *a, **k)

        S.Run.go = go
        try:
            run = build(ctx)
        finally:
            S.Run.go = real
        ctx.require(run.ended in ("idle", "until"), "the run ends", run.ended)
        check_places(ctx, run)
        n = getattr(run, "info", {}).get("jobs", jobs)
        if n:
            ctx.require(hook.made == n and hook.done == n and not hook.inside, "every product leaves through a sink", f"{hook.done} of {hook.made}")

    return fn


def external(jobs, cap=1):
    """the machine's products may wait in an external store"""

    def fn(ctx):
        tms = {"tP1": ctx.real("tP1", 0, None, True), "tP2": ctx.real("tP2", 0, None, True), "arr": [ctx.real("gap", 0, None, True) for _ in range(jobs)], "tt": 1}
        ad = S.build(
            tms, {"P1": {"t": "tP1"}, "P2": {"t": "tP2"}},
            {"M1": {"procs": ["P1"], "outq": ["M1_out", "ST"]}, "M2": {"procs": ["P2"], "inq": cap}},
            {"A": {"procs": ["P1", "P2"]}}, {"src": {"product": "A", "t": "arr"}},
            transports={"T": {"procs": ["TP"], "cap": 1}}, queues={"M1_out": 0}, stores={"ST": {"capacity": cap, "location": [30.0, 5.0]}},
        )
        r = S.Run(ctx, ad).go()
        ctx.observe("log", S.plain_log(r.log))
        r.info = {"jobs": jobs}
        ctx.cover("a product is stored externally", any(e.get("Target location") == "ST" for e in r.log))
        return r

    return fn


def out_of_order(jobs):
    def fn(ctx):
        tms = {"tP": ctx.real("tP", 0, None, True), "arr": [1] * jobs, "tt": ("dist", 1, 0, "manhattan")}
        ad = S.build(
            tms, {"P": {"t": "tP"}, "TP": {"kind": "transport", "t": "tt"}},
            {"M1": {"procs": ["P"], "policy": "LIFO", "loc": [2.0, 0.0]}, "M2": {"procs": ["P"], "policy": "LIFO", "loc": [9.0, 0.0]}},
            {"A": {"procs": ["P"]}}, {"src": {"product": "A", "t": "arr", "heuristic": "random", "loc": [0.0, 0.0]}},
            transports={"T": {"procs": ["TP"], "cap": 1, "policy": "SPT_transport", "loc": [0.0, 0.0]}},
            sinks={"K_A": {"product": "A", "loc": [9.0, 2.0]}},
        )
        r = S.Run(ctx, ad).go()
        ctx.observe("log", S.plain_log(r.log))
        r.info = {"jobs": jobs}
        left = [e["Product"] for e in r.log if O.sty(e) == "Transport" and O.act(e) == O.START and e.get("Origin location") == "src" and not e.get("Empty Transport")]
        ctx.cover("a later request is served first", left != sorted(left, key=lambda x: int(x.rsplit("_", 1)[1])))
        return r

    return fn


def scenarios(tier):
    q = tier == "quick"
    return [
        Scenario("line", with_check(flow.line(2, ("P1", "P2"), (1, 1), (1, 1), (1, 1), tcap=1)), bounds="2 products, two machines, all queues of capacity 1"),
        Scenario("several-queues", with_check(flow.several(3, (0, 0, 0), gaps=(1, None, 1))), bounds="3 products, two unlimited queues on each side of a machine and at the source"),
        Scenario("transporter-2", with_check(flow.line(2, ("P1", "P2"), (1, 1), tcap=2, gaps=(1, None))), bounds="2 products, two machines, a transport resource that does two transports at once"),
        Scenario("two-types", with_check(flow.shared(1 if q else 2, 1, two_machines=True, tcap=1)), bounds="two product types, two machines, both processes on both"),
        Scenario("store", with_check(external(2)), ["a product is stored externally"], bounds="external store between two machines"),
        Scenario("served-out-of-order", with_check(out_of_order(3 if q else 4)), ["a later request is served first"], bounds="3 products of one type with different target machines wait in one queue; SPT transporter and LIFO machines: products leave queues in another order than they came"),
        Scenario("breakdown", with_check(brk.machine(jobs=2, bds=((1,),), job_arrivals=[1, 1])), bounds="2 products, one breakdown"),
    ]
