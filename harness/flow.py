"""Flow systems with finite or infinite queues and capacities (no breakdowns)."""
from . import oracle as O
from . import simlib as S


def line(jobs, machines=("P1", "P2"), caps=(1, 1), inq=(0, 0), outq=(0, 0), tcap=8, tt=1, times="sym", gaps="sym", srcq=0, policy="FIFO", tn=1, batch=None, slots=None):
    """one product type through consecutive machines"""

    def fn(ctx):
        tms = {"tt": ctx.real("tt", 0, None, True) if tt == "sym" else tt}
        tms["arr"] = [ctx.real("gap", 0, None, True) for _ in range(jobs)] if gaps == "sym" else [ctx.real("gap", 0, None, True) if g is None else g for g in gaps]
        procs, ms = {}, {}
        for i, p in enumerate(machines):
            sym = times == "sym" or (times != "const" and times[i] is None)
            tms["t" + p] = ctx.real("t" + p, 0, None, True) if sym else (1 if times == "const" else times[i])
            procs[p] = {"t": "t" + p}
            ms[f"M{i + 1}"] = {"procs": [p], "cap": caps[i], "pcaps": [slots[i] if slots else caps[i]], "inq": inq[i], "outq": outq[i], "policy": policy}
            if batch and batch[i]:
                ms[f"M{i + 1}"]["batch"] = batch[i]
        procs["TP"] = {"kind": "transport", "t": "tt"}
        ad = S.build(
            tms, procs, ms, {"A": {"procs": list(machines)}}, {"src": {"product": "A", "t": "arr", "cap": srcq}},
            transports={f"T{k}" if tn > 1 else "T": {"procs": ["TP"], "cap": tcap, "pcaps": [tcap]} for k in range(tn)},
        )
        hook = None
        if any(inq) or any(outq) or srcq:
            hook = queue_hook
        r = S.Run(ctx, ad, hook=hook).go()
        ctx.observe("log", S.plain_log(r.log))
        r.info = {
            "jobs": jobs,
            "machines": {f"M{i + 1}": min(caps[i], slots[i]) if slots else caps[i] for i in range(len(machines))},
            "inq": {f"M{i + 1}": inq[i] for i in range(len(machines))},
            "outq": {f"M{i + 1}": outq[i] for i in range(len(machines))},
            "tcap": tcap, "tn": tn, "srcq": srcq,
            "times": {p: tms["t" + p] for p in machines}, "tt": tms["tt"],
        }
        return r

    return fn


def several(jobs, qs, gaps="sym", tcap=1, batch=None, cap=1):
    """every side has two queues; qs: capacities of (source, input, output)"""

    def fn(ctx):
        tms = {"tP1": ctx.real("tP1", 0, None, True), "tP2": 3, "tt": 1}
        tms["arr"] = [ctx.real("gap", 0, None, True) for _ in range(jobs)] if gaps == "sym" else [ctx.real("gap", 0, None, True) if g is None else g for g in gaps]
        m1 = {"procs": ["P1"], "cap": cap, "inq": ["i1", "i2"], "outq": ["o1", "o2"]}
        if batch:
            m1["batch"] = batch
        ad = S.build(
            tms, {"P1": {"t": "tP1"}, "P2": {"t": "tP2"}, "TP": {"kind": "transport", "t": "tt"}},
            {"M1": m1, "M2": {"procs": ["P2"], "inq": 1}},
            {"A": {"procs": ["P1", "P2"]}}, {"src": {"product": "A", "t": "arr", "outq": ["s1", "s2"]}},
            transports={"T": {"procs": ["TP"], "cap": tcap}},
            queues={n + str(k): c for n, c in zip("sio", qs) for k in (1, 2)},
        )
        r = S.Run(ctx, ad, hook=queue_hook).go()
        ctx.observe("log", S.plain_log(r.log))
        r.info = {
            "jobs": jobs, "machines": {"M1": cap, "M2": 1}, "inq": {"M1": 2 * qs[1], "M2": 1}, "outq": {"M1": 2 * qs[2], "M2": 0},
            "tcap": tcap, "tn": 1, "srcq": 2 * qs[0], "times": {p: tms["t" + p] for p in ("P1", "P2")}, "tt": tms["tt"],
        }
        return r

    return fn


def queue_hook(run):
    for q in run.r.queue_factory.queues:
        if q.data.capacity:
            run.ctx.require(len(q.items) <= q.data.capacity, "a queue never holds more than its capacity", q.data.ID)


def shared(na, nb, cap=1, pcaps=(1, 1), gaps="sym", tcap=8, two_machines=False, heuristic="FIFO", tt=1, tb="sym"):
    """two product types that share a machine with two processes"""

    def fn(ctx):
        tms = {
            "arrA": [ctx.real("gapA", 0, None, True) if gaps == "sym" or gaps[0][i] is None else gaps[0][i] for i in range(na)],
            "arrB": [ctx.real("gapB", 0, None, True) if gaps == "sym" or gaps[1][i] is None else gaps[1][i] for i in range(nb)],
            "tPA": ctx.real("tA", 0, None, True),
            "tPB": ctx.real("tB", 0, None, True) if tb == "sym" else tb,
            "tt": tt,
        }
        ms = {"M1": {"procs": ["PA", "PB"], "cap": cap, "pcaps": list(pcaps)}}
        if two_machines:
            ms["M2"] = {"procs": ["PA", "PB"], "cap": cap, "pcaps": list(pcaps)}
        ad = S.build(
            tms, {"PA": {"t": "tPA"}, "PB": {"t": "tPB"}}, ms,
            {"A": {"procs": ["PA"]}, "B": {"procs": ["PB"]}},
            {"srcA": {"product": "A", "t": "arrA", "heuristic": heuristic}, "srcB": {"product": "B", "t": "arrB", "heuristic": heuristic}},
            transports={"T": {"procs": ["TP"], "cap": tcap}},
        )
        r = S.Run(ctx, ad).go()
        ctx.observe("log", S.plain_log(r.log))
        r.info = {
            "jobs": na + nb, "machines": {m: cap for m in ms}, "pcaps": {"PA": pcaps[0], "PB": pcaps[1]},
            "tcap": tcap, "tn": 1, "times": {"PA": tms["tPA"], "PB": tms["tPB"]}, "tt": tt,
        }
        return r

    return fn


def all_done(ctx, run):
    ctx.require(run.ended == "idle", "the run ends", run.ended)
    ctx.require(len(run.finished()) == run.info["jobs"] and not run.in_system(), "every product is finished", f"{len(run.finished())} of {run.info['jobs']}")


def busy_limit(ctx, ops, cap, label):
    """never more than cap operations at the same time"""
    full = False
    for i, a in enumerate(ops):
        cand = [b for b in ops[:i] if b.last > a.first]
        if len(cand) + 1 == cap and cap > 1:
            full = True
        if len(cand) < cap:
            continue
        # candidates overlap in log order; they may end at the very instant a starts
        over = [ctx.eq(b.end, a.start) if b.closed else False for b in cand]
        need = len(cand) - cap + 1  # at least this many must have ended by then
        if need == 1:
            ctx.require(ctx.Or(over), label, repr(a))
        else:
            n = ctx.Sum(ctx.Ite(o, 1, 0) for o in over)
            ctx.require(n >= need, label, repr(a))
    return full


def check_capacity(ctx, run):
    """S04"""
    log = run.log
    ops = sorted(O.ops(ctx, log), key=lambda o: o.first)
    for m, cap in run.info["machines"].items():
        mine = [o for o in ops if o.resource == m and o.kind == "Production"]
        f = busy_limit(ctx, mine, cap, "no more operations at once than the machine's capacity")
        ctx.cover("machine capacity is used up", f or (cap == 1 and len(mine) > 1))
        for p, c in run.info.get("pcaps", {}).items():
            busy_limit(ctx, [o for o in mine if o.state == p], c, "no more operations of one process at once than its slots")
    for t in sorted({o.resource for o in ops if o.kind == "Transport"}):
        mine = [o for o in ops if o.resource == t]
        f = busy_limit(ctx, mine, run.info["tcap"], "no more transports at once than the transport resource's capacity")
        ctx.cover("transport capacity is used up", f or (run.info["tcap"] == 1 and len(mine) > 1))
    all_done(ctx, run)


def legs(ops, log):
    """requests served by transport resources: (product, [ops incl. empty legs])"""
    out = []
    cur = {}
    for o in sorted((o for o in ops if o.kind == "Transport"), key=lambda o: o.first):
        key = (o.resource, o.product)
        g = cur.get(key)
        if g is None:
            g = {"product": o.product, "resource": o.resource, "ops": [], "target": None}
            cur[key] = g
            out.append(g)
        g["ops"].append(o)
        if not o.empty:
            g["target"] = o.target
            cur.pop(key)
    return out


def ready_times(ops, log, legs_):
    """when each operation became possible, from the product's previous event"""
    prev = {p: t for p, t, _ in O.created(log)}
    items = []
    for o in ops:
        if o.kind == "Production":
            items.append((o.first, o.product, o, o))
    for g in legs_:
        items.append((g["ops"][0].first, g["product"], g, g["ops"][-1]))
    items.sort(key=lambda x: x[0])
    ready = {}
    for _, p, key, last in items:
        ready[id(key)] = prev.get(p)
        prev[p] = last.end
    return ready


def work_conserving(ctx, jobs, cap, label):
    """jobs: [(ready, start, end, endindex)] in start order; server with cap slots.

    Each start is the first instant at which a slot is free and a job is ready.
    """
    n = len(jobs)
    for k in range(n):
        r, s, e, _ = jobs[k]
        ctx.require(ctx.le(r, s), "nothing starts before it is ready", label)
        early = ctx.Min(*[j[0] for j in jobs[k:]]) if ctx.symbolic else min(j[0] for j in jobs[k:])
        if k < cap:
            want = early
        else:
            ends = [j[2] for j in sorted(jobs[:k], key=lambda j: j[3])]
            free = ends[k - cap]
            want = ctx.Max(free, early) if ctx.symbolic else max(free, early)
        # a later start is allowed only up to the previous start (start order)
        if k and cap > 1:
            want = ctx.Max(want, jobs[k - 1][1]) if ctx.symbolic else max(want, jobs[k - 1][1])
        ctx.require(ctx.eq(s, want), "an idle server starts waiting work at once", label)


def check_flow(ctx, run, distinct=False):
    """S07: durations and waiting are exactly those of a work-conserving server"""
    log = run.log
    ops = sorted(O.ops(ctx, log), key=lambda o: o.first)
    all_done(ctx, run)
    if any(not o.closed for o in ops):
        ctx.require(False, "every operation ends", "")
        return
    lg = legs(ops, log)
    ready = ready_times(ops, log, lg)
    if distinct:
        groups = [[(ready[id(o)], o.end) for o in ops if o.resource == m] for m, c in run.info["machines"].items() if c > 1]
        if run.info["tcap"] == 2:
            groups.append([(ready[id(x)], x["ops"][-1].end) for x in lg])
        for g in groups:
            ts = [t for pair in g for t in pair]
            for i, a in enumerate(ts):
                for b in ts[:i]:
                    ctx.assume(ctx.Not(ctx.eq(a, b)))
    for o in ops:
        if o.kind == "Production":
            ctx.require(ctx.eq(o.end, o.start + run.info["times"][o.state]), "an operation takes its process time", repr(o))
        else:
            ctx.require(ctx.eq(o.end, o.start + run.info["tt"]), "a transport takes its transport time", repr(o))
    for m, cap in run.info["machines"].items():
        mine = [o for o in ops if o.resource == m]
        work_conserving(ctx, [(ready[id(o)], o.start, o.end, o.last) for o in mine], cap, m)
        for a, b in zip(mine, mine[1:]):
            ctx.cover("a product waits for a busy machine", ctx.lt(ready[id(b)], b.start))
    if run.info["tn"] == 1:
        g = lg
        work_conserving(ctx, [(ready[id(x)], x["ops"][0].start, x["ops"][-1].end, x["ops"][-1].last) for x in g], run.info["tcap"], "transport")
    for x in lg:
        for a, b in zip(x["ops"], x["ops"][1:]):
            ctx.require(ctx.eq(a.end, b.start), "the loaded trip follows the empty trip at once", repr(x))
    fin = {p: t for p, t, _ in O.finished(log)}
    for x in lg:
        if x["target"] and x["target"].startswith("K_") and x["product"] in fin:
            ctx.require(ctx.eq(fin[x["product"]], x["ops"][-1].end), "a product is finished when it reaches the sink", x["product"])


def check_queues(ctx, run):
    """S05"""
    log = run.log
    ops = sorted(O.ops(ctx, log), key=lambda o: o.first)
    all_done(ctx, run)
    lg = legs(ops, log)
    for m, c in run.info["inq"].items():
        if not c:
            continue
        ins = []
        for g in lg:
            if g["target"] == m:
                st = [o for o in ops if o.product == g["product"] and o.resource == m and o.kind == "Production" and o.first > g["ops"][-1].first]
                ins.append(_Span(m, g["ops"][-1].first, st[0].first if st else 10**9, g["ops"][-1].start, st[0].start if st else None))
        busy_limit(ctx, ins, c, "products waiting at or loaded for a finite input queue never exceed its capacity")
        ctx.cover("input queue is full", len(ins) > c)
    for m, c in run.info["outq"].items():
        if not c:
            continue
        mine = [o for o in ops if o.resource == m and o.kind == "Production"]
        spans = []
        for o in mine:
            pick = [g["ops"][-1] for g in lg if g["product"] == o.product and g["ops"][-1].first > o.last]
            # occupies the machine or its output queue from start of work to pick-up
            spans.append(_Span(m, o.first, pick[0].first if pick else 10**9, o.start, pick[0].start if pick else None))
        busy_limit(ctx, spans, c + run.info["machines"][m], "a machine does not work while its finished product has no space in the output queue")
    if run.info.get("srcq"):
        pass


class _Span:
    def __init__(self, where, first, last, start, end):
        self.where = where
        self.first, self.last, self.start, self.end = first, last, start, end
        self.closed = end is not None

    def __repr__(self):
        return f"{self.where}"
