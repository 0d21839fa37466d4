"""Systems with breakdowns: shared by S02 (work is preserved) and S03 (no work while down)."""
from symx.engine import Scenario

from . import oracle as O
from . import simlib as S

BIG = S.BIG


def upto(ctx, n, label, strict=True):
    """n symbolic draws, then never again"""
    vals = [ctx.real(label, 0, None, strict) for _ in range(n)]
    return lambda k: vals[k] if k < n else BIG


def machine(jobs=1, cap=1, bds=((1,),), pbds=(), two_procs=False, setup=False, job_arrivals="sym", same_time=False, pt="const", pbd_same=False, tt=1, batch=None):
    """one machine; bds: number of breakdowns per breakdown state"""

    def fn(ctx):
        tms = {"tt": tt}
        if job_arrivals == "sym":
            tms["arr"] = [ctx.real("gap", 0, None, True) for _ in range(jobs)]
        else:
            tms["arr"] = list(job_arrivals)
        tms["t1"] = ctx.real("t1", 0, None, True) if pt == "const" else (lambda k: ctx.real("t1", 0, None, True))
        procs = {"P1": {"t": "t1"}}
        route = ["P1"]
        if two_procs:
            tms["t2"] = ctx.real("t2", 0, None, True)
            procs["P2"] = {"t": "t2"}
            route = ["P1", "P2"]
        states = {}
        for i, n in enumerate(bds):
            n = n[0]
            tms[f"ttf{i}"] = upto(ctx, n, f"ttf{i}")
            tms[f"rep{i}"] = upto(ctx, n, f"rep{i}")
            states[f"BD{i}"] = {"type": "BreakDownState", "time_model_id": f"ttf{i}", "repair_time_model_id": f"rep{i}"}
        for i, n in enumerate(pbds):
            n = n[0]
            tms[f"pttf{i}"] = upto(ctx, n, f"pttf{i}")
            tms[f"prep{i}"] = upto(ctx, n, f"prep{i}")
            states[f"PBD{i}"] = {"type": "ProcessBreakDownState", "time_model_id": f"pttf{i}", "repair_time_model_id": f"prep{i}", "process_id": f"P{1 if pbd_same else i + 1}"}
        if setup:
            tms["su"] = ctx.real("su", 0, None, True)
            states["SU12"] = {"type": "SetupState", "time_model_id": "su", "origin_setup": "P1", "target_setup": "P2"}
            states["SU21"] = {"type": "SetupState", "time_model_id": "su", "origin_setup": "P2", "target_setup": "P1"}
        ad = S.build(
            tms, procs,
            {"M": {"procs": list(procs), "cap": cap, "pcaps": [cap] * len(procs), "states": list(states), **({"batch": batch} if batch else {})}},
            {"A": {"procs": route}}, {"src": {"product": "A", "t": "arr"}}, states=states,
        )
        r = S.Run(ctx, ad, tms).go()
        ctx.observe("log", S.plain_log(r.log))
        r.info = {"tms": tms, "resource": "M", "jobs": jobs, "cap": cap}
        return r

    return fn


def transport(jobs=1, n=1, handling=None, cap=1, gaps="sym", tt="sym"):
    """the transport resource breaks down; handling: times to load and unload"""

    def fn(ctx):
        tms = {
            "arr": [ctx.real("gap", 0, None, True) for _ in range(jobs)] if gaps == "sym" else [ctx.real("gap", 0, None, True) if g is None else g for g in gaps],
            "t1": 1,
            "tt": ctx.real("tt", 0, None, True) if tt == "sym" else tt,
            "ttf0": upto(ctx, n, "ttf0"),
            "rep0": upto(ctx, n, "rep0"),
        }
        states = {"BD0": {"type": "BreakDownState", "time_model_id": "ttf0", "repair_time_model_id": "rep0"}}
        tp = {"kind": "transport", "t": "tt"}
        if handling:
            tms["load"], tms["unload"] = handling
            tp.update(loading_time_model_id="load", unloading_time_model_id="unload")
        ad = S.build(
            tms, {"P1": {"t": "t1"}, "TP": tp},
            {"M": {"procs": ["P1"]}}, {"A": {"procs": ["P1"]}}, {"src": {"product": "A", "t": "arr"}},
            transports={"T": {"procs": ["TP"], "states": ["BD0"], "cap": cap, "pcaps": [cap]}}, states=states,
        )
        r = S.Run(ctx, ad, tms).go()
        ctx.observe("log", S.plain_log(r.log))
        r.info = {"tms": tms, "resource": "T", "jobs": jobs, "cap": cap, "handling": sum(handling or (0,))}
        return r

    return fn


def drawn(run, op, idx):
    """the duration drawn for an operation (idx = how many of that state came before)"""
    tm = {"P1": "t1", "P2": "t2", "TP": "tt", "SU12": "su", "SU21": "su"}[op.state]
    v = run.info["tms"][tm]
    if callable(v):
        return run.draws[tm][idx]
    if op.state == "TP" and not op.empty:
        v = v + run.info.get("handling", 0)
    return v


def check_work(ctx, run):
    """S02"""
    ops = O.ops(ctx, run.log)
    res = run.info["resource"]
    ctx.require(run.ended == "idle", "the run ends", run.ended)
    count = {}
    for op in ops:
        i = count.get(op.state, 0)
        count[op.state] = i + 1
        if op.resource != res:
            continue
        ctx.require(op.closed, "an interrupted operation is completed", repr(op))
        if not op.closed:
            continue
        d = drawn(run, op, i)
        ctx.require(ctx.eq(op.worked(ctx), d), "working time equals the drawn duration", repr(op))
        ctx.require(ctx.eq(op.end, op.expected), "the last announced end is the actual end", repr(op))
        ctx.cover("an operation is interrupted", len(op.segs) > 1)
        ctx.cover("an operation is interrupted twice", len(op.segs) > 2)
    ctx.require(len(run.finished()) == run.info["jobs"], "all products finish after the repairs", str(len(run.finished())))


def spans(ctx, run, res):
    downs = O.downtimes(run.log, res)
    return [(b, u) for _, b, u in downs]


def check_down(ctx, run):
    """S03"""
    log = run.log
    res = run.info["resource"]
    ops = O.ops(ctx, log)
    downs = spans(ctx, run, res)
    pdowns = {}
    for e in log:
        if e["Resource"] == res and S.sty(e) == "ProcessBreakdown":
            i = e["State"]
            if O.act(e) == O.START:
                pdowns.setdefault(i, []).append([e["Time"], None])
            else:
                pdowns[i][-1][1] = e["Time"]
    per_state = {}
    for op in ops:
        if op.resource != res:
            continue
        rel = list(downs)
        for i, ivs in pdowns.items():
            pid = [s for s in run.ad.state_data if s.ID == i][0].process_id
            if pid == op.state or op.kind == "Setup":
                rel += [tuple(x) for x in ivs]
        per_state[id(op)] = rel
        for s, e in op.segs:
            if e is None:
                continue
            for b, u in rel:
                if u is None:
                    ctx.require(e <= b, "no work while the resource is down", repr(op))
                    continue
                ctx.require(ctx.Or(ctx.le(e, b), ctx.le(u, s)), "no work while the resource is down", f"{op!r} down {b}-{u}")
                ctx.cover("work before and after a breakdown", ctx.And(s < b))
        for (s0, e0), (s1, e1) in zip(op.segs, op.segs[1:]):
            # interrupted at e0, resumed at s1: a breakdown starts exactly at e0,
            # and s1 is the first instant after e0 not covered by a breakdown
            ctx.require(ctx.Or([ctx.eq(e0, b) for b, u in rel]), "work stops only when a breakdown starts", repr(op))
            ctx.require(
                ctx.Or([ctx.eq(s1, u) for b, u in rel if u is not None]),
                "work resumes at the end of a breakdown", repr(op),
            )
            # between e0 and s1 the resource is down without a gap: every breakdown
            # end strictly inside is covered by another breakdown
            for b, u in rel:
                if u is None:
                    continue
                covered = ctx.Or([ctx.And(b2 <= u, u < u2) for b2, u2 in rel if u2 is not None] or [False])
                ctx.require(
                    ctx.Implies(ctx.And(ctx.lt(e0, u), ctx.lt(u, s1)), covered),
                    "work resumes as soon as all breakdowns are over", repr(op),
                )
    for st in run.ad.state_data:
        if not st.type.endswith("BreakDownState"):
            continue
        kind = "Breakdown" if st.type == "BreakDownState" else "ProcessBreakdown"
        ttf, rep = run.draws.get(st.time_model_id, []), run.draws.get(st.repair_time_model_id, [])
        free = 0
        mine = [d for d in O.downtimes(log, res, kind) if d[0] == st.ID]
        ctx.require(len(rep) == len(mine), "one repair time per failure", f"{st.ID}: {len(rep)} drawn, {len(mine)} failures")
        for k, (_, b, u) in enumerate(mine):
            if kind == "Breakdown":
                ctx.require(ctx.eq(b, free + ttf[k]), "a failure occurs after the drawn time since the last repair", st.ID)
            else:
                ctx.require(ctx.le(free + ttf[k], b), "a process failure never occurs before the drawn time", st.ID)
            ctx.require(u is not None and ctx.eq(u, b + rep[k]), "a repair lasts the drawn repair time", st.ID)
            if u is None:
                break
            free = u
            ctx.cover("a failure is repaired")
    ctx.require(len(run.finished()) == run.info["jobs"], "all products finish after the repairs", str(len(run.finished())))
    if len(downs) > 1:
        for i, (b, u) in enumerate(downs):
            for b2, u2 in downs[i + 1:]:
                if u is not None and u2 is not None:
                    ctx.cover("overlapping breakdowns", ctx.And(b < b2, b2 < u))
