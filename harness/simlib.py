"""Builds real prodsys systems, injects symbolic inputs and runs the real code.

Only documented data fields are set (time model location / schedule, queue
capacity ...).  Everything from Runner.initialize_simulation() to the event log
is the real code running on simpy's real scheduler; the symbolic times flow
through simpy's event heap.
"""
from __future__ import annotations

import logging
import os
import sys
import warnings

warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)

REPO = os.environ.get("VERIF_REPO", "/repo")
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)

import prodsys  # noqa: E402
from prodsys import adapters  # noqa: E402
from prodsys.simulation import sim as _sim  # noqa: E402
from prodsys.simulation import time_model as _tm  # noqa: E402
from prodsys.util import runner as _runner  # noqa: E402

from symx.num import SymBool, SymReal  # noqa: E402

assert os.path.realpath(prodsys.__file__).startswith(os.path.realpath(REPO)), prodsys.__file__



def _cache_type_adapters():
    """speed only: build each pydantic validator once per process"""
    import pydantic

    real = pydantic.TypeAdapter
    cache = {}

    def cached(t, *a, **k):
        if a or k:
            return real(t, *a, **k)
        hit = cache.get(id(t))
        if hit is None:
            hit = cache[id(t)] = (t, real(t))
        return hit[1]

    for name, mod in list(sys.modules.items()):
        if name.startswith("prodsys") and mod is not None and getattr(mod, "TypeAdapter", None) is real:
            mod.TypeAdapter = cached


_cache_type_adapters()
_sim.VERBOSE = 0
_runner.VERBOSE = 0

BIG = 10**7  # "never": far beyond every symbolic time (stated bound)

KIND = {
    "prod": "ProductionProcesses",
    "cap": "CapabilityProcesses",
    "transport": "TransportProcesses",
    "link": "LinkTransportProcesses",
    "compound": "CompoundProcesses",
    "req": "RequiredCapabilityProcesses",
    "rework": "ReworkProcesses",
}


def _const(i, value=1.0):
    return {
        "ID": i,
        "description": "",
        "distribution_function": "constant",
        "location": value,
        "scale": 0.0,
        "batch_size": 4,
    }


def build(
    tms,
    procs,
    machines,
    products,
    sources,
    transports=None,
    states=None,
    queues=None,
    stores=None,
    nodes=None,
    aux=None,
    sinks=None,
    seed=0,
):
    """adapter with placeholder numbers, then the symbolic values set on it"""
    d = {"ID": "S", "seed": seed}
    tmd = []
    for i, v in tms.items():
        if isinstance(v, list):
            tmd.append({"ID": i, "description": "", "schedule": [1.0] * len(v), "absolute": False, "cyclic": False})
        elif isinstance(v, tuple) and v[0] == "dist":
            tmd.append({"ID": i, "description": "", "speed": 1.0, "reaction_time": 0.0, "metric": v[3]})
        else:
            tmd.append(_const(i))
    d["time_model_data"] = tmd
    sd = []
    for i, s in (states or {}).items():
        s = dict(s)
        if s.get("type") == "ProcessBreakDownState":
            s.setdefault("description", "")
        sd.append({"ID": i, "description": "", **s})
    d["state_data"] = sd
    pd_ = []
    for i, p in procs.items():
        p = dict(p)
        kind = KIND[p.pop("kind", "prod")]
        e = {"ID": i, "description": "", "type": kind}
        if "t" in p:
            e["time_model_id"] = p.pop("t")
        e.update(p)
        pd_.append(e)
    d["process_data"] = pd_
    qd = []
    for i, cap in (queues or {}).items():
        qd.append({"ID": i, "description": "", "capacity": cap})
    for i, s in (stores or {}).items():
        qd.append({"ID": i, "description": "", **s})
    rd = []
    x = 10.0
    for i, m in machines.items():
        m = dict(m)
        x += 10.0
        cap = m.get("cap", 1)
        iq, oq = m.get("inq"), m.get("outq")
        if not isinstance(iq, list):
            qd.append({"ID": f"{i}_in", "description": "", "capacity": iq or 0})
            iq = [f"{i}_in"]
        if not isinstance(oq, list):
            qd.append({"ID": f"{i}_out", "description": "", "capacity": oq or 0})
            oq = [f"{i}_out"]
        e = {
            "ID": i,
            "description": "",
            "capacity": cap,
            "location": m.get("loc", [x, 0.0]),
            "controller": "BatchController" if m.get("batch") else "PipelineController",
            "control_policy": m.get("policy", "FIFO"),
            "process_ids": m["procs"],
            "process_capacities": m.get("pcaps"),
            "state_ids": m.get("states", []),
            "input_queues": iq,
            "output_queues": oq,
        }
        for k in ("input_location", "output_location"):
            if k in m:
                e[k] = m[k]
        if m.get("batch"):
            e["batch_size"] = m["batch"]
        rd.append(e)
    transports = transports or {"T": {"procs": ["TP"], "cap": 8}}
    if "TP" not in procs and any("TP" in t["procs"] for t in transports.values()):
        if "tt" not in tms:
            tmd.append(_const("tt"))
            tms = dict(tms, tt=1)
        pd_.append({"ID": "TP", "description": "", "type": "TransportProcesses", "time_model_id": "tt"})
    for i, t in transports.items():
        rd.append(
            {
                "ID": i,
                "description": "",
                "capacity": t.get("cap", 1),
                "location": t.get("loc", [0.0, 1.0]),
                "controller": "TransportController",
                "control_policy": t.get("policy", "FIFO"),
                "process_ids": t["procs"],
                "process_capacities": t.get("pcaps"),
                "state_ids": t.get("states", []),
            }
        )
    d["node_data"] = [{"ID": i, "description": "", "location": l} for i, l in (nodes or {}).items()]
    d["resource_data"] = rd
    d["product_data"] = [
        {
            "ID": i,
            "description": "",
            "product_type": i,
            "processes": p["procs"],
            "transport_process": p.get("tp", "TP"),
            "auxiliaries": p.get("aux", []),
        }
        for i, p in products.items()
    ]
    srcd = []
    y = 0.0
    for i, s in sources.items():
        y += 10.0
        oq = s.get("outq")
        if not oq:
            qd.append({"ID": f"{i}_q", "description": "", "capacity": s.get("cap", 0)})
            oq = [f"{i}_q"]
        srcd.append(
            {
                "ID": i,
                "description": "",
                "location": s.get("loc", [0.0, y]),
                "product_type": s["product"],
                "time_model_id": s["t"],
                "routing_heuristic": s.get("heuristic", "FIFO"),
                "output_queues": oq,
            }
        )
    skd = []
    y = 0.0
    for i, s in (sinks or {f"K_{p}": {"product": p} for p in products}).items():
        y += 10.0
        qd.append({"ID": f"{i}_q", "description": "", "capacity": 0})
        skd.append(
            {
                "ID": i,
                "description": "",
                "location": s.get("loc", [500.0, y]),
                "product_type": s["product"],
                "input_queues": [f"{i}_q"],
            }
        )
    d["queue_data"] = qd
    d["sink_data"] = skd
    d["source_data"] = srcd
    d["auxiliary_data"] = [
        {
            "ID": i,
            "description": "",
            "auxiliary_type": i,
            "transport_process": a.get("tp", "TP"),
            "storages": a["storages"],
            "quantity_in_storages": a["quantity"],
            "relevant_processes": a.get("procs", []),
            "relevant_transport_processes": a.get("tps", ["TP"]),
        }
        for i, a in (aux or {}).items()
    ]
    ad = adapters.JsonProductionSystemAdapter(**d)
    inject(ad, tms)
    return ad


def inject(ad, tms):
    for t in ad.time_model_data:
        v = tms.get(t.ID)
        if v is None or callable(v):
            continue
        if isinstance(v, list):
            t.schedule = v
        elif isinstance(v, tuple):
            t.speed, t.reaction_time = v[1], v[2]
        else:
            t.location = v


class Draws:
    """per-call symbolic durations for named time models (fresh every draw)"""

    def __init__(self, table):
        self.table = table  # id -> fn(origin, target) -> value

    def __enter__(self):
        self.saved = _tm.FunctionTimeModel.get_next_time
        table = self.table
        orig = self.saved

        def get_next_time(self, origin=None, target=None):
            f = table.get(self.time_model_data.ID)
            if f is None:
                return orig(self, origin, target)
            return f(origin, target)

        _tm.FunctionTimeModel.get_next_time = get_next_time
        return self

    def __exit__(self, *a):
        _tm.FunctionTimeModel.get_next_time = self.saved


class Run:
    """one simulation run of the real system"""

    def __init__(self, ctx, ad, tms=None, max_steps=4000, hook=None):
        self.ctx = ctx
        self.ad = ad
        self.draws = {}  # time model id -> list of drawn values
        table = {}
        for i, v in (tms or {}).items():
            if callable(v):
                table[i] = self._record(i, v)
        self.table = table
        self.max_steps = max_steps
        self.hook = hook
        self.steps = 0
        self.ended = None
        self.r = None

    def _record(self, i, fn):
        lst = self.draws.setdefault(i, [])

        def f(origin, target):
            v = fn(len(lst))
            lst.append(v)
            return v

        return f

    def initialize(self):
        self.r = _runner.Runner(adapter=self.ad)
        with Draws(self.table):
            self.r.initialize_simulation()
        self.env = self.r.env
        return self

    def go(self, until=None):
        if self.r is None:
            self.initialize()
        env = self.env
        with Draws(self.table):
            while True:
                nxt = env.peek()
                k = nxt.k if isinstance(nxt, SymReal) else nxt
                if k >= BIG // 2:
                    self.ended = "idle"
                    break
                if until is not None and until(self):
                    self.ended = "until"
                    break
                env.step()
                self.steps += 1
                if self.steps > self.max_steps:
                    # runaway: far beyond what the scenario can need
                    self.ended = "runaway"
                    break
                if self.hook is not None:
                    self.hook(self)
        return self

    # -- observation ----------------------------------------------------
    @property
    def log(self):
        return self.r.event_logger.event_data

    def finished(self):
        return self.r.product_factory.finished_products

    def in_system(self):
        return self.r.product_factory.products

    def resource(self, i):
        return self.r.resource_factory.get_resource(i)

    def queues(self):
        return self.r.queue_factory.queues



def act(e):
    a = e["Activity"]
    return getattr(a, "value", a)


def sty(e):
    a = e["State Type"]
    return getattr(a, "value", a)


def plain_log(log):
    out = []
    for e in log:
        out.append([e["Time"], e["Resource"], e["State"], sty(e), act(e), e.get("Product") or ""])
    return out
