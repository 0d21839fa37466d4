"""Runs a system, hands its real event log to the real post processor, and
recomputes every figure from the log of the run independently."""
from __future__ import annotations

from symx import frame

from . import simlib as S

ASSUMPTIONS = [
    "arrival gaps and process times are arbitrary positive reals up to 10000 where a scenario leaves them free (exact arithmetic instead of float columns)",
    "date times, CSV files, plots and pm4py views of the post processor are outside",
]


class Pack:
    """post processor of a run, times symbolic in the data frame"""

    def __init__(self, ctx, run=None, df=None, **kw):
        from prodsys.util import post_processing as pp

        self.ctx, self.run = ctx, run
        if df is None:
            df = run.r.event_logger.get_data_as_dataframe()
        self.p = pp.PostProcessor(df_raw=frame.column(ctx, df), **kw)

    def get(self, name):
        with frame.patched(self.ctx):
            return getattr(self.p, name)


def ptype(pid):
    return pid.rsplit("_", 1)[0]


def simple(ctx, n, types=("A",), cap=1, until=None, tt=1, gaps=None, tP="sym", pcaps=None, states=None, mstates=(), route=("P",), machines=None, extra=None, tcap=8, stop=None, aux=None, stores=None, tstates=(), routes=None):
    tms = {"tt": tt if tt != "sym" else ctx.real("tt", 0, None, True)}
    procs = {}
    for p in dict.fromkeys(route):
        tms["t" + p] = ctx.real("t" + p, 0, None, True) if tP == "sym" else tP
        procs[p] = {"t": "t" + p}
    products, sources = {}, {}
    for i, a in enumerate(types):
        g = gaps[i] if gaps else [None] * n
        tms["arr" + a] = [ctx.real("gap" + a, 0, None, True) if v is None else v for v in g]
        products[a] = {"procs": list(routes[a] if routes else route)}
        if aux:
            products[a]["aux"] = list(aux)
        sources["src" + a] = {"product": a, "t": "arr" + a}
    tms.update(extra or {})
    ms = machines or {"M": {"procs": list(procs), "cap": cap, "pcaps": pcaps or [cap] * len(procs), "states": list(mstates)}}
    procs["TP"] = {"kind": "transport", "t": "tt"}
    ad = S.build(tms, procs, ms, products, sources, states=states, transports={"T": {"procs": ["TP"], "cap": tcap, "states": list(tstates)}}, aux=aux, stores=stores)
    if stop is not None:
        k = stop[0] + ctx.choice(stop[1] - stop[0] + 1, "stop")
        until = lambda r: len(r.log) >= k
    r = S.Run(ctx, ad).go(until=until)
    ctx.observe("log", S.plain_log(r.log))
    return r
