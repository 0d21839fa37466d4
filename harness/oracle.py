"""Reading the real event log (structure concrete, times possibly symbolic)."""
from __future__ import annotations

from .simlib import act, sty  # noqa: F401

START, END = "start state", "end state"
PAUSE, RESUME = "start interrupt", "end interrupt"
AUX = ("started auxiliary usage", "finished auxiliary usage")
CREATED, FINISHED = "created product", "finished product"


class Op:
    """one operation: working segments, closed or still open"""

    def __init__(self, e, idx):
        self.resource = e["Resource"]
        self.state = e["State"]
        self.product = e.get("Product") or ""
        self.kind = sty(e)
        self.segs = [[e["Time"], None]]
        self.expected = e.get("Expected End Time")
        self.first = idx
        self.last = idx
        self.closed = False
        self.paused = False
        self.origin = e.get("Origin location")
        self.target = e.get("Target location")
        self.empty = e.get("Empty Transport")

    @property
    def start(self):
        return self.segs[0][0]

    @property
    def end(self):
        return self.segs[-1][1]

    def worked(self, ctx):
        return ctx.Sum(e - s for s, e in self.segs if e is not None)

    def __repr__(self):
        return f"<{self.kind} {self.resource}/{self.state} {self.product} {self.segs} {'closed' if self.closed else 'open'}>"


def ops(ctx, log, kinds=("Production", "Transport", "Setup", "Charging")):
    """operations in start order; obligations: the log is a well-formed trace"""
    out = []
    live = {}
    for i, e in enumerate(log):
        k = sty(e)
        if k not in kinds:
            continue
        a = act(e)
        if a in AUX:
            continue
        prod = (e.get("Product") or "") if k in ("Production", "Transport") else ""
        key = (k, e["Resource"], e["State"], prod)
        op = live.get(key)
        if a == START:
            if op is None:
                op = Op(e, i)
                live[key] = op
                out.append(op)
            else:
                ctx.require(op.segs[-1][1] is not None, "log: start while already running", str(key))
                op.segs.append([e["Time"], None])
                op.expected = e.get("Expected End Time")
                op.paused = False
            op.last = i
        elif a == PAUSE:
            ctx.require(op is not None and op.segs[-1][1] is None, "log: interruption of something not running", str(key))
            if op is None:
                continue
            op.segs[-1][1] = e["Time"]
            op.paused = True
            op.last = i
        elif a == RESUME:
            ctx.require(op is not None and op.paused, "log: end of an interruption that never started", str(key))
        elif a == END:
            if op is None:
                # zero work left at the very start (or zero duration): no start row
                op = Op(e, i)
                op.nostart = True
                out.append(op)
            if op.segs[-1][1] is None:
                op.segs[-1][1] = e["Time"]
            elif op.paused:
                op.segs.append([e["Time"], e["Time"]])
            op.closed = True
            op.last = i
            live.pop(key, None)
        else:
            ctx.require(False, "log: unknown activity", repr(a))
    return out


def by(ops_, **kw):
    return [o for o in ops_ if all(getattr(o, k) == v for k, v in kw.items())]


def created(log):
    return [(e["Product"], e["Time"], i) for i, e in enumerate(log) if act(e) == CREATED]


def finished(log):
    return [(e["Product"], e["Time"], i) for i, e in enumerate(log) if act(e) == FINISHED]


def downtimes(log, resource, kind="Breakdown"):
    """closed/open intervals per breakdown state of a resource"""
    out = []
    live = {}
    for e in log:
        if e["Resource"] != resource or sty(e) != kind:
            continue
        if act(e) == START:
            live[e["State"]] = iv = [e["State"], e["Time"], None]
            out.append(iv)
        elif act(e) == END:
            live.pop(e["State"])[2] = e["Time"]
    return out
