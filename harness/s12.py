"""S12: a failed process is reworked exactly once, at the right place in the sequence."""
from symx.engine import Scenario

from . import oracle as O
from . import simlib as S
from .s01 import order_ok, total

ASSUMPTIONS = [
    "every operation of a process with a failure rate strictly between 0 and 1 may fail or succeed",
    "arrival gaps and process times are arbitrary positive reals up to 10000 (some fixed in the quick tier)",
]


def rework(route, fails, reworks, n=1, gaps=None, sym=1, rate=0.5, machines=None, rm="MR"):
    """fails: processes that may fail; reworks: id -> (reworked ids, blocking)"""

    def fn(ctx):
        names = sorted({p for p in (route if isinstance(route, list) else route) if isinstance(p, str)})
        tms = {"arr": [ctx.real("gap", 0, None, True) for _ in range(n)] if gaps is None else list(gaps)}
        procs = {}
        for i, p in enumerate(names):
            tms["t" + p] = ctx.real("t" + p, 0, None, True) if i < sym else i + 1
            procs[p] = {"t": "t" + p}
            if p in fails:
                procs[p]["failure_rate"] = fails[p] if isinstance(fails, dict) else rate
        for i, (x, (ids, blocking)) in enumerate(reworks.items()):
            tms["t" + x] = ctx.real("t" + x, 0, None, True) if i < sym else 2
            procs[x] = {"kind": "rework", "t": "t" + x, "reworked_process_ids": ids, "blocking": blocking}
        ms = {m: {"procs": ps} for m, ps in (machines or {"M1": names}).items()}
        if rm not in ms:
            ms[rm] = {"procs": []}
        ms[rm]["procs"] = ms[rm]["procs"] + list(reworks)
        ad = S.build(tms, procs, ms, {"A": {"procs": route}}, {"src": {"product": "A", "t": "arr"}})
        del ctx.drawn[:]
        r = S.Run(ctx, ad).go()
        ctx.observe("log", S.plain_log(r.log))
        check(ctx, r, route, fails, reworks, n, tms)

    return fn


def check(ctx, r, route, fails, reworks, n, tms):
    log = r.log
    ops = sorted(O.ops(ctx, log), key=lambda o: o.first)
    ctx.require(r.ended == "idle" and len(r.finished()) == n and not r.in_system(), "every product is finished", f"{r.ended} {len(r.finished())}")
    work = [o for o in ops if o.kind == "Production"]
    draws = [v for a, v in ctx.drawn if set(a) == {True, False}]
    tried = [o for o in work if o.state in fails]
    failed = {}
    if draws or not tried:
        ctx.require(len(draws) == len(tried), "each operation that may fail is decided once", f"{len(draws)} {len(tried)}")
        for o, d in zip(tried, draws):
            failed[id(o)] = bool(d)
    else:  # drawn in another way: failures are inferred from the rework that follows
        for p in {o.product for o in work}:
            rs = [o for o in work if o.product == p and o.state in reworks]
            for o in (o for o in tried if o.product == p):
                hit = [x for x in rs if x.first > o.first and o.state in reworks[x.state][0]]
                if hit:
                    failed[id(o)] = True
                    rs.remove(hit[0])
    for p in sorted({o.product for o in work}):
        mine = [o for o in work if o.product == p]
        normal = [o.state for o in mine if o.state not in reworks]
        ctx.require(order_ok(normal, route) and len(normal) == total(route), "failures do not change the prescribed processes", f"{p}: {normal}")
        pending = []  # failed operations that still need rework
        for i, o in enumerate(mine):
            ctx.require(i == 0 or (mine[i - 1].closed and mine[i - 1].last < o.first), "operations of one product do not overlap", repr(o))
            ctx.require(ctx.eq(o.end - o.start, tms["t" + o.state]), "an operation takes its process time", repr(o))
            blocking = [x for x in pending if any(b for ids, b in reworks.values() if x.state in ids)]
            if o.state in reworks:
                can = [x for x in pending if x.state in reworks[o.state][0]]
                ctx.require(bool(can), "rework happens only after a failure, once per failure", f"{p}: {[m.state for m in mine]}")
                if not can:
                    return
                if blocking:
                    ctx.require(any(x in blocking for x in can), "blocking rework comes first", f"{p}: {[m.state for m in mine]}")
                    can = [x for x in can if x in blocking] or can
                else:
                    rest = [x for x in mine[i:] if x.state not in reworks]
                    ctx.require(not rest, "non-blocking rework comes after the prescribed processes", f"{p}: {[m.state for m in mine]}")
                pending.remove(can[0])
                ctx.cover("rework happens", True)
            else:
                ctx.require(not blocking, "nothing else happens before blocking rework", f"{p}: {[m.state for m in mine]}")
                if failed.get(id(o)):
                    pending.append(o)
        ctx.require(not pending, "every failure is reworked before the product is finished", f"{p}: {[m.state for m in mine]}")


def scenarios(tier):
    q = tier == "quick"
    w = ["rework happens"]
    return [
        Scenario("blocking", rework(["P1", "P2"], ["P1"], {"R": (["P1"], True)}, n=2, gaps=[1, 2] if q else None), w, bounds="2 products, blocking rework on its own machine"),
        Scenario("non-blocking", rework(["P1", "P2"], ["P1", "P2"], {"R": (["P1", "P2"], False)}, n=1 if q else 2, gaps=[1] if q else [1, 1]), w, bounds="both processes may fail, one non-blocking rework process for both"),
        Scenario("mixed", rework(["P1", "P2", "P3"], ["P1", "P2"], {"R1": (["P1"], False), "R2": (["P2"], True)}, n=1, gaps=[1] if q else None), w, bounds="3 processes, blocking and non-blocking rework"),
        Scenario("two-rework-processes", rework(["P1", "P2"], ["P1"], {"R1": (["P1"], True), "R2": (["P1", "P2"], False)}, n=1), w, bounds="a failure that two rework processes can repair"),
        Scenario("two-rework-processes-two-failures", rework(["P2", "P1", "P3"], ["P1", "P2"], {"R1": (["P1"], True), "R2": (["P1", "P2"], False)}, n=1), w, bounds="an open failure while another one is repaired by a rework process for both"),
        Scenario("repeated-process", rework(["P1", "P2", "P1"], ["P1"], {"R": (["P1"], False)}, n=1), w, bounds="a process prescribed twice fails up to twice"),
        Scenario("graph", rework({"P1": ["P3"], "P2": ["P3"], "P3": []}, ["P1", "P2"], {"R": (["P1", "P2"], True)}, n=1, gaps=[1]), w, bounds="precedence graph, two processes may fail"),
        Scenario("same-machine", rework(["P1", "P2"], ["P1"], {"R": (["P1"], True)}, n=2, gaps=[1, 1] if q else None, rm="M1"), w, bounds="2 products, rework on the machine that failed"),
        Scenario("never-fails", rework(["P1", "P2"], {}, {"R": (["P1"], True)}, n=2, gaps=[1, 1]), bounds="without a failure rate nothing is reworked"),
        Scenario("always-fails", rework(["P1", "P2"], {"P1": 1.0}, {"R": (["P1"], True)}, n=2, gaps=[1, 1]), w, bounds="failure rate 1"),
        Scenario("failure-in-rework", rework(["P1"], {"P1": 0.5}, {"R1": (["P1"], False), "R2": (["P1"], False)}, n=1, gaps=[1]), w, bounds="two non-blocking rework processes for one process"),
    ]
