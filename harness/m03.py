"""M03: a system is the same however it is given: as data, with the express API, or in a file."""
import copy
import json
import os
import shutil
import tempfile
from enum import Enum

from symx.engine import Scenario
from symx.num import SymReal

from . import simlib as S
from . import m02

import pydantic
import pydantic.dataclasses
import prodsys.express as psx
from prodsys import adapters
from prodsys.express import queue as psx_queue
from prodsys.models import core_asset, scenario_data

ASSUMPTIONS = [
    "numbers pass through pydantic's compiled validators and the JSON text as opaque tokens",
    "the express API gives no precedence graphs, compound processes or process capacities",
]


class Tokens:
    """numbers that the compiled parts of pydantic hand on unchanged"""

    def __init__(self):
        self.numbers = {}

    def hide(self, x):
        if isinstance(x, SymReal):
            for k, y in self.numbers.items():
                if y.c == x.c and y.k == x.k:
                    return k
            k = 1048576.5 + 2 * len(self.numbers)
            self.numbers[k] = x
            return k
        if isinstance(x, (list, tuple)) and any(isinstance(y, (SymReal, list, tuple)) for y in x):
            return type(x)(self.hide(y) for y in x)
        return x

    def show(self, x, seen=None):
        if isinstance(x, float):
            return self.numbers.get(x, x)
        if isinstance(x, list):
            x[:] = [self.show(y) for y in x]
        elif isinstance(x, dict):
            return {k: self.show(v) for k, v in x.items()}
        return x

    def restore(self, obj):
        for k, v in list(vars(obj).items()):
            if isinstance(v, float) and v in self.numbers:
                obj.__dict__[k] = self.numbers[v]
            elif isinstance(v, list):
                self.show(v)


class Carried:
    """while it is active, data and express objects can be made with symbolic numbers"""

    def __enter__(self):
        self.t = t = Tokens()
        self.saved = [(pydantic.BaseModel, pydantic.BaseModel.__init__)]
        real = pydantic.BaseModel.__init__

        def init(self, /, **data):
            real(self, **{k: t.hide(v) for k, v in data.items()})
            if isinstance(self, core_asset.CoreAsset):
                t.restore(self)

        init.__pydantic_base_init__ = True
        pydantic.BaseModel.__init__ = init
        for m in vars(psx).values():
            for c in vars(m).values() if type(m).__name__ == "module" else ():
                if isinstance(c, type) and hasattr(c, "__pydantic_fields__") and not issubclass(c, pydantic.BaseModel) and c.__module__.startswith("prodsys.express") and c not in [x for x, _ in self.saved]:
                    pydantic.dataclasses.rebuild_dataclass(c)  # otherwise done with the first object, which replaces __init__
                    self.saved.append((c, c.__init__))

        def wrap(f):
            def init(self, *a, **k):
                f(self, *[t.hide(x) for x in a], **{i: t.hide(v) for i, v in k.items()})
                t.restore(self)

            return init

        for c, f in self.saved[1:]:
            c.__init__ = wrap(f)
        return t

    def __exit__(self, *a):
        for c, f in self.saved:
            c.__init__ = f


def show(v):
    return v.value if isinstance(v, Enum) else v


def same(ctx, got, want, label, where):
    """structural equality; numbers are compared by the solver"""
    got, want = show(got), show(want)
    if isinstance(want, dict):
        ctx.require(isinstance(got, dict) and set(got) == set(want), label, f"{where}: {sorted(got) if isinstance(got, dict) else got}")
        if isinstance(got, dict):
            for k in want:
                if k in got:
                    same(ctx, got[k], want[k], label, f"{where}.{k}")
        return
    if isinstance(want, (list, tuple)):
        ctx.require(isinstance(got, (list, tuple)) and len(got) == len(want), label, f"{where}: {got}")
        if isinstance(got, (list, tuple)):
            for i, (a, b) in enumerate(zip(got, want)):
                same(ctx, a, b, label, f"{where}[{i}]")
        return
    num = lambda x: isinstance(x, (SymReal, int, float)) and not isinstance(x, bool)
    if num(want) and num(got):
        ctx.require(ctx.eq(got, want), label, where)
    else:
        ctx.require(type(got) is type(want) and got == want, label, f"{where}: {got!r}")


def plain(x):
    """the data of a model as nested dicts, with its symbolic numbers"""
    if isinstance(x, pydantic.BaseModel):
        return {k: plain(getattr(x, k)) for k in type(x).model_fields}
    if isinstance(x, list):
        return [plain(y) for y in x]
    if isinstance(x, dict):
        return {show(k): plain(v) for k, v in x.items()}
    return show(x)


# -- express ---------------------------------------------------------------
OPTIONS = [
    "plain", "no loading", "no unloading", "own loading", "no failure rate", "no ends", "no in end", "no stores", "one store twice", "store of both", "no queue size", "no states",
    "batch", "no auxiliary", "two auxiliaries", "euclidean", "absolute", "cyclic", "policies", "heuristics", "one time model", "capacities", "no names", "blocking", "link capability", "one product",
]


def given(ctx, opt):
    """(express system, what its data must be)"""
    N = {}

    def n(label):
        if label not in N:
            N[label] = ctx.real(label.replace(" ", "_"), 0, 1000)
        return N[label]

    at = lambda i: [n(i + "_x"), n(i + "_y")]
    name = (lambda i: {}) if opt == "no names" else (lambda i: {"ID": i})
    T = {
        "fun": psx.FunctionTimeModel(distribution_function="normal", location=n("loc"), scale=n("scale"), **name("fun")),
        "exp": psx.FunctionTimeModel(distribution_function="exponential", location=n("eloc"), **name("exp")),
        "smp": psx.SampleTimeModel(samples=[n("s0"), n("s1")], **name("smp")),
        "sch": psx.ScheduledTimeModel(schedule=[n("c0"), n("c1")], absolute=opt == "absolute", cyclic=opt == "cyclic", **name("sch")),
        "seq": psx.SequentialTimeModel(sequence=[n("q0"), n("q1")], **name("seq")),
        "dist": psx.DistanceTimeModel(speed=n("speed"), reaction_time=n("reaction"), metric="euclidean" if opt == "euclidean" else "manhattan", **name("dist")),
        "man": psx.ManhattanDistanceTimeModel(speed=n("mspeed"), reaction_time=n("mreaction"), **name("man")),
        "load": psx.FunctionTimeModel(distribution_function="constant", location=n("load"), scale=0.0, **name("load")),
        "unload": psx.FunctionTimeModel(distribution_function="lognormal", location=n("unload"), scale=n("uscale"), **name("unload")),
    }
    E = {
        "fun": {"distribution_function": "normal", "location": n("loc"), "scale": n("scale")},
        "exp": {"distribution_function": "exponential", "location": n("eloc"), "scale": 0.0},
        "smp": {"samples": [n("s0"), n("s1")]},
        "sch": {"schedule": [n("c0"), n("c1")], "absolute": opt == "absolute", "cyclic": opt == "cyclic"},
        "seq": {"sequence": [n("q0"), n("q1")]},
        "dist": {"speed": n("speed"), "reaction_time": n("reaction"), "metric": "euclidean" if opt == "euclidean" else "manhattan"},
        "man": {"speed": n("mspeed"), "reaction_time": n("mreaction")},
        "load": {"distribution_function": "constant", "location": n("load"), "scale": 0.0},
        "unload": {"distribution_function": "lognormal", "location": n("unload"), "scale": n("uscale")},
    }
    kinds = {"fun": "Function", "exp": "Function", "load": "Function", "unload": "Function", "smp": "Sample", "sch": "Scheduled", "seq": "Sequential", "dist": "Distance", "man": "ManhattanDistance"}
    if opt == "one time model":
        for i in ("exp", "smp", "seq", "load", "unload"):
            T[i], kinds[i] = T["fun"], None
    one = opt == "one time model"
    tm = lambda i: "fun" if one and i in ("exp", "smp", "seq", "load", "unload") else i
    exp = {"time_model_data": {i: dict(E[i], _t=kinds[i] + "TimeModelData") for i in E if kinds[i]}}
    P, ex = {}, {}

    def proc(i, cls, t, kind, data=None, **k):
        P[i] = cls(T[t], **k, **name(i)) if t else cls(**k, **name(i))
        ex[i] = {"type": kind, **({"time_model_id": tm(t)} if t else {}), **(k if data is None else data)}

    rate = None if opt == "no failure rate" else n("rate")
    proc("PA", psx.ProductionProcess, "fun", "ProductionProcesses", failure_rate=rate)
    proc("PB", psx.ProductionProcess, "smp", "ProductionProcesses", {"failure_rate": None})
    proc("PC", psx.CapabilityProcess, "seq", "CapabilityProcesses", capability="C", failure_rate=rate)
    proc("RC", psx.RequiredCapabilityProcess, None, "RequiredCapabilityProcesses", capability="C")
    proc("RW", psx.ReworkProcess, "exp", "ReworkProcesses", {"reworked_process_ids": ["PA", "PC"], "blocking": opt == "blocking"}, reworked_processes=[P["PA"], P["PC"]], blocking=opt == "blocking")
    lo = None if opt in ("no loading", "own loading") else "load"
    un = None if opt in ("no unloading", "own loading") else "unload"
    hand = {"loading_time_model_id": lo and tm(lo), "unloading_time_model_id": un and tm(un)}
    handx = {"loading_time_model": T[lo] if lo else None, "unloading_time_model": T[un] if un else None}
    proc("TP", psx.TransportProcess, "dist", "TransportProcesses", hand, **handx)
    nodes = {i: psx.Node(location=at(i), **name(i)) for i in ("N1", "N2")}
    exp["node_data"] = {i: {"location": at(i)} for i in nodes}
    if opt == "own loading":  # of the links only
        for i in ("lload", "lunload"):
            T[i] = psx.SampleTimeModel(samples=[n(i)], ID=i)
            exp["time_model_data"][i] = {"samples": [n(i)], "_t": "SampleTimeModelData"}
        hand = {"loading_time_model_id": "lload", "unloading_time_model_id": "lunload"}
        handx = {"loading_time_model": T["lload"], "unloading_time_model": T["lunload"]}
    LT = psx.LinkTransportProcess(T["man"], **handx, **({"capability": "L"} if opt == "link capability" else {}), **name("LT"))
    P["LT"] = LT
    ex["LT"] = {"type": "LinkTransportProcesses", "time_model_id": "man", "capability": "L" if opt == "link capability" else "", "links": [["S2", "N1"], ["N1", "N2"], ["N2", "M1"], ["M2", "N1"], ["N2", "K2"]], **hand}

    ends = lambda i: {"input_location": None if opt in ("no ends", "no in end") else at(i + "in"), "output_location": None if opt == "no ends" else at(i + "out")}

    def where(i):
        e = ends(i)
        return {"location": at(i), **{k: (v if v is not None else at(i)) for k, v in e.items()}}

    stores = {}

    def store(i, cap):
        stores[i] = psx_queue.Store(location=at(i), capacity=cap, **ends(i), **name(i))
        return stores[i]

    states = {
        "BD": psx.BreakDownState(T["exp"], T["fun"], **name("BD")), "PBD": psx.ProcessBreakdownState(T["smp"], T["exp"], P["PA"], **name("PBD")),
        "SU": psx.SetupState(T["fun"], P["PA"], P["PB"], **name("SU")), "CH": psx.ChargingState(T["load"], T["exp"], **name("CH")),
    }
    exs = {
        "BD": {"type": "BreakDownState", "time_model_id": tm("exp"), "repair_time_model_id": "fun"}, "PBD": {"type": "ProcessBreakDownState", "time_model_id": tm("smp"), "repair_time_model_id": tm("exp"), "process_id": "PA"},
        "SU": {"type": "SetupState", "time_model_id": "fun", "origin_setup": "PA", "target_setup": "PB"}, "CH": {"type": "ChargingState", "time_model_id": tm("load"), "battery_time_model_id": tm("exp")},
    }
    sin, sout = ([], []) if opt == "no stores" else ([store("W1", 7)], [store("W2", 0)])
    if opt == "one store twice":
        sout = sin
        stores.pop("W2")
    size = 0 if opt == "no queue size" else 3
    pol = "LIFO" if opt == "policies" else "FIFO"
    batch = 2 if opt == "batch" else None
    st = (lambda *i: []) if opt == "no states" else (lambda *i: list(i))
    cap = 3 if opt == "capacities" else 2
    R, exr = {}, {}

    def machine(i, procs, sts, ins, outs, **k):
        R[i] = psx.ProductionResource(
            [P[p] for p in procs], at(i), capacity=cap, states=[states[s] for s in sts], control_policy=pol, internal_queue_size=size, input_stores=ins, output_stores=outs, **ends(i), **k, **name(i)
        )
        back = {id(v): s for s, v in stores.items()}
        exr[i] = {
            "process_ids": procs, "capacity": cap, "state_ids": sts, "control_policy": pol, "controller": k["controller"].value if "controller" in k else "PipelineController", "batch_size": k.get("batch_size"), **where(i),
            "_in": (size, [back[id(x)] for x in ins]), "_out": (size, [back[id(x)] for x in outs]),
        }

    from prodsys.models.resource_data import ControllerEnum

    machine("M1", ["PA", "PB"], st("BD", "SU"), sin, sout, **({"batch_size": 2, "controller": ControllerEnum.BatchController} if batch else {}))
    machine("M2", ["PC", "RW", "PA"], st("BD", "PBD"), [], sin)
    tpol = "SPT_transport" if opt == "policies" else "FIFO"
    for i, procs, sts in (("T1", ["TP"], st("CH")), ("T2", ["LT", "TP"], [])):
        R[i] = psx.TransportResource([P[p] for p in procs], at(i), capacity=cap, states=[states[s] for s in sts], control_policy=tpol, **name(i))
        exr[i] = {"process_ids": procs, "capacity": cap, "state_ids": sts, "control_policy": tpol, "controller": "TransportController", "location": at(i)}
    # auxiliaries
    A, exa = {}, {}
    if opt != "no auxiliary":
        w3 = sin[0] if opt == "store of both" else store("W3", 9)
        back = {id(v): s for s, v in stores.items()}
        for i in ("A1", "A2") if opt == "two auxiliaries" else ("A1",):
            own = [w3] + ([store("W4", 5)] if i == "A2" else [])
            back = {id(v): s for s, v in stores.items()}
            A[i] = psx.Auxiliary([P["PA"], P["PC"]], [P["TP"]], P["TP"], own, [2 + k for k in range(len(own))], **name(i))
            exa[i] = {"transport_process": "TP", "storages": [back[id(x)] for x in own], "quantity_in_storages": [2 + k for k in range(len(own))], "relevant_processes": ["PA", "PC"], "relevant_transport_processes": ["TP"]}
    exp["auxiliary_data"] = exa
    exp["_stores"] = {i: {"capacity": s.capacity, **where(i)} for i, s in stores.items()}
    F = {"X": psx.Product([P["PA"], P["PB"], P["RC"]], P["TP"], auxiliaries=list(A.values()), **name("X"))}
    exf = {"X": {"processes": ["PA", "PB", "RC"], "transport_process": "TP", "auxiliaries": list(A)}}
    if opt != "one product":
        F["Y"] = psx.Product([P["PB"]], P["LT"], **name("Y"))
        exf["Y"] = {"processes": ["PB"], "transport_process": "LT", "auxiliaries": []}
    y = "Y" if "Y" in F else "X"
    hs = ["shortest_queue", "FIFO"] if opt == "heuristics" else ["random", "random"]
    src = {
        "S1": psx.Source(F["X"], T["sch"], at("S1"), **({"routing_heuristic": hs[0]} if opt == "heuristics" else {}), **name("S1")),
        "S2": psx.Source(F[y], T["exp"], at("S2"), **({"routing_heuristic": hs[1]} if opt == "heuristics" else {}), **name("S2")),
    }
    exp["source_data"] = {"S1": {"product_type": "X", "time_model_id": "sch", "location": at("S1"), "routing_heuristic": hs[0]}, "S2": {"product_type": y, "time_model_id": tm("exp"), "location": at("S2"), "routing_heuristic": hs[1]}}
    snk = {"K1": psx.Sink(F["X"], at("K1"), **name("K1")), "K2": psx.Sink(F[y], at("K2"), **name("K2"))}
    exp["sink_data"] = {"K1": {"product_type": "X", "location": at("K1")}, "K2": {"product_type": y, "location": at("K2")}}
    LT.set_links([[src["S2"], nodes["N1"]], [nodes["N1"], nodes["N2"]], [nodes["N2"], R["M1"]]])
    LT.add_link([R["M2"], nodes["N1"]])
    LT.add_link([nodes["N2"], snk["K2"]])
    exp.update(process_data=ex, resource_data=exr, product_data=exf)
    used = {s for r in exr.values() for s in r["state_ids"]}
    exp["state_data"] = {i: s for i, s in exs.items() if i in used}
    tms = {p["time_model_id"] for p in ex.values() if "time_model_id" in p} | {s[k] for s in exp["state_data"].values() for k in s if k.endswith("time_model_id")} | {s["time_model_id"] for s in exp["source_data"].values()}
    tms |= {p[k] for p in ex.values() for k in hand if p.get(k)}
    exp["time_model_data"] = {i: d for i, d in exp["time_model_data"].items() if i in tms}
    objects = {**{i: T[i] for i in T if tm(i) == i}, **P, **nodes, **stores, **states, **R, **A, **F, **src, **snk}
    ps = psx.ProductionSystem(list(R.values()), list(src.values()), list(snk.values()))
    return ps, exp, objects


def express(ctx):
    opt = OPTIONS[ctx.choice(len(OPTIONS), "option")]
    with Carried():
        ps, exp, objects = given(ctx, opt)
        ids = [o.ID for o in objects.values()]
        ctx.require(len(set(ids)) == len(ids) and all(ids), "every object has a name of its own", opt)
        back = {o.ID: i for i, o in objects.items()}
        ad = ps.to_model()
        again = ps.to_model()
    same(ctx, plain(again), plain(ad), "the data of a system is the same again", opt)
    got = plain(ad)

    def named(v):
        if isinstance(v, str):
            return back.get(v, v)
        if isinstance(v, list):
            return [named(x) for x in v]
        return v

    queues = {}
    for q in got["queue_data"]:
        ctx.require(named(q["ID"]) not in queues, "everything is there once", f"{opt}: {named(q['ID'])}")
        queues[named(q["ID"])] = q
    for kind in ("time_model_data", "process_data", "state_data", "node_data", "resource_data", "product_data", "source_data", "sink_data", "auxiliary_data"):
        have = [named(e["ID"]) for e in got[kind]]
        ctx.require(sorted(have) == sorted(exp[kind]), "everything is there once", f"{opt}: {kind} {sorted(have)}")
        for e, obj in zip(got[kind], getattr(ad, kind)):
            want = exp[kind].get(named(e["ID"]))
            if want is None:
                continue
            tag = f"{opt}: {named(e['ID'])}"
            for k, v in want.items():
                if k == "_t":
                    ctx.require(type(obj).__name__ == v, "a time model keeps its kind", tag)
                elif k in ("_in", "_out"):
                    qs = named(e["input_queues" if k == "_in" else "output_queues"])
                    own = [q for q in qs if q not in exp["_stores"]]
                    ctx.require([q for q in qs if q in exp["_stores"]] == v[1] and len(own) == 1, "a machine has its stores and one queue of its own on each side", f"{tag} {k}")
                    for q in own:
                        ctx.require(q in queues and ctx.eq(queues[q]["capacity"], v[0]), "the queue of a machine has the size that was given", f"{tag} {k}")
                else:
                    same(ctx, named(e[k]), v, "what was given is what the data says", f"{tag}.{k}")
            if kind in ("source_data", "sink_data"):
                qs = e["output_queues" if kind == "source_data" else "input_queues"]
                ctx.require(len(qs) == 1 and qs[0] in queues and queues[qs[0]]["capacity"] == 0, "a source or sink has a queue without limit", tag)
    own = [q for r in got["resource_data"] if "input_queues" in r for q in r["input_queues"] + r["output_queues"] if named(q) not in exp["_stores"]]
    own += [q for r in got["source_data"] for q in r["output_queues"]] + [q for r in got["sink_data"] for q in r["input_queues"]]
    ctx.require(len(own) == len(set(own)) and sorted(queues) == sorted(own + list(exp["_stores"])), "everything is there once", f"{opt}: queues {sorted(queues)}")
    for i, w in exp["_stores"].items():
        if i in queues:
            for k, v in w.items():
                same(ctx, queues[i].get(k), v, "what was given is what the data says", f"{opt}: {i}.{k}")
    ctx.cover("all looked at", True)


# -- files -----------------------------------------------------------------
SCENARIO = {
    "constraints": {"max_reconfiguration_cost": 1.0, "max_num_machines": 3, "max_num_processes_per_machine": 2, "max_num_transport_resources": 4, "target_product_count": {"X": 5}},
    "options": {"transformations": ["production_capacity", "layout"], "machine_controllers": ["FIFO", "SPT"], "transport_controllers": ["SPT_transport"], "routing_heuristics": ["random"], "positions": [[1.0, 2.0], [3.0, 4.0]]},
    "info": {"machine_cost": 1.0, "transport_resource_cost": 2.0, "process_module_cost": {"PA": 3.0, "PB": 4.0}, "auxiliary_cost": 7.0, "breakdown_cost": 8.0, "time_range": 100, "maximum_breakdown_time": 9},
    "objectives": [{"name": "throughput", "weight": 0.5}],
}
DEFAULTED = [None, "seed", "node_data", "auxiliary_data", "scenario_data", "valid_configuration", "reconfiguration_cost"]
OPTIONAL = {
    "process_data": ["failure_rate", "loading_time_model_id", "unloading_time_model_id", "capability"],
    "resource_data": ["input_location", "output_location", "batch_size", "process_capacities", "state_ids"],
    "product_data": ["auxiliaries"],
    "queue_data": ["input_location", "output_location"],
}


def symbolic(ctx, ad):
    """every real number of the configuration becomes arbitrary"""
    n = [0]

    def go(x):
        for k, v in list(vars(x).items()):
            if isinstance(v, float):
                n[0] += 1
                x.__dict__[k] = ctx.real(f"n{n[0]}", 0, 1000)
            elif isinstance(v, list) and v and isinstance(v[0], float):
                x.__dict__[k] = []
                for _ in v:
                    n[0] += 1
                    x.__dict__[k].append(ctx.real(f"n{n[0]}", 0, 1000))
            elif isinstance(v, list) and v and isinstance(v[0], list) and v[0] and isinstance(v[0][0], float):
                x.__dict__[k] = [[ctx.real(f"p{i}{j}", 0, 1000) for j in range(len(w))] for i, w in enumerate(v)]
            elif isinstance(v, dict):
                x.__dict__[k] = {a: ctx.real(f"d{i}", 0, 1000) if isinstance(b, float) else b for i, (a, b) in enumerate(v.items())}
            elif isinstance(v, pydantic.BaseModel):
                go(v)
            elif isinstance(v, list):
                for y in v:
                    if isinstance(y, pydantic.BaseModel):
                        go(y)

    go(ad)


def tokens(t, x):
    """symbolic numbers of a configuration as tokens (in place)"""
    for k, v in list(vars(x).items()):
        if isinstance(v, SymReal):
            x.__dict__[k] = t.hide(v)
        elif isinstance(v, dict):
            x.__dict__[k] = {a: t.hide(b) for a, b in v.items()}
        elif isinstance(v, pydantic.BaseModel):
            tokens(t, v)
        elif isinstance(v, list):
            x.__dict__[k] = t.hide(v)
            for y in v:
                if isinstance(y, pydantic.BaseModel):
                    tokens(t, y)


def shown(t, x):
    if isinstance(x, dict):
        return {k: shown(t, v) for k, v in x.items()}
    if isinstance(x, list):
        return [shown(t, v) for v in x]
    return t.numbers.get(x, x) if isinstance(x, float) else x


def files(ctx):
    d = copy.deepcopy(m02.system(ctx.choice(4, "shape")))
    d["product_data"][0]["auxiliaries"] = ["A"]
    d.update(ID="the system", seed=17, scenario_data=copy.deepcopy(SCENARIO), reconfiguration_cost=5.0, valid_configuration=bool(ctx.choice(2, "valid")))
    d["time_model_data"].append({"ID": "cyc", "description": "d", "schedule": [1.0, 2.0], "absolute": False, "cyclic": True})
    left = [(k, f) for k in OPTIONAL for f in OPTIONAL[k]] + [("node_data", None), ("scenario_data", None), ("auxiliary_data", None), None]
    out = left[ctx.choice(len(left), "left out")]
    if out is not None:
        k, f = out
        if k == "auxiliary_data":
            d["product_data"][0]["auxiliaries"] = []
        if f is None:
            d.pop(k)
            if k == "node_data":
                d["process_data"] = [p for p in d["process_data"] if p["ID"] != "LT"]
        else:
            for e in d[k]:
                if f != "capability" or e["type"] == "LinkTransportProcesses":
                    e.pop(f, None)
    used = ctx.choice(2, "into another system") == 1
    ad = adapters.JsonProductionSystemAdapter(**d)
    symbolic(ctx, ad)
    before = plain(ad)
    t = Tokens()
    hidden = ad.model_copy(deep=True)
    tokens(t, hidden)
    folder = tempfile.mkdtemp()
    try:
        path = os.path.join(folder, "system.json")
        hidden.write_data(path)
        other = adapters.JsonProductionSystemAdapter(**copy.deepcopy(m02.system(1))) if used else adapters.JsonProductionSystemAdapter()
        other.read_data(path)
        with open(path) as f:
            data = json.load(f)
        third = adapters.JsonProductionSystemAdapter(**data)
        gone = DEFAULTED[ctx.choice(len(DEFAULTED), "not in the file")] if out is None else None
        if gone:
            data.pop(gone)
            want = plain(adapters.JsonProductionSystemAdapter(**data))
            with open(path + "g", "w") as f:
                json.dump(data, f)
            fourth = adapters.JsonProductionSystemAdapter(**dict(copy.deepcopy(m02.system(1)), seed=3, scenario_data=copy.deepcopy(SCENARIO), valid_configuration=False, reconfiguration_cost=9.0)) if used else adapters.JsonProductionSystemAdapter()
            fourth.read_data(path + "g")
            same(ctx, plain(fourth), want, "what a file lacks has its default", f"{gone} {'over another' if used else ''}")
        split = None
        if hidden.scenario_data is not None:
            hidden.write_scenario_data(path + "s")
            split = adapters.JsonProductionSystemAdapter()
            split.read_data(path, path + "s")
    finally:
        shutil.rmtree(folder)
    tag = f"{out} {'over another' if used else ''}"
    for what, b in (("read back", other), ("loaded", third), ("read with its scenario", split)):
        if b is None:
            continue
        got = shown(t, plain(b))
        for k in before:
            same(ctx, got[k], before[k], f"what is {what} is what was written", f"{tag}: {k}")
        for k in ("time_model_data", "process_data", "state_data", "queue_data", "resource_data"):
            ctx.require([type(x) for x in getattr(b, k)] == [type(x) for x in getattr(ad, k)], f"what is {what} is of the same kinds", f"{tag}: {k}")
    same(ctx, plain(hidden) if not ctx.symbolic else shown(t, plain(hidden)), before, "writing changes nothing", tag)
    ctx.cover("over another system", used)


# -- runs ------------------------------------------------------------------
def runs(ctx):
    """running an express system is running its data"""
    tp, gap = ctx.real("tp", 0, None, True), ctx.real("gap", 0, None, True)
    end = [7, 120][ctx.choice(2, "end")]
    seed = [0, 5][ctx.choice(2, "seed")]
    with Carried():
        t = psx.FunctionTimeModel("constant", tp, 0.0, ID="t")
        p = psx.ProductionProcess(t, ID="P")
        tr = psx.TransportProcess(psx.DistanceTimeModel(2.0, 0.5, ID="d"), ID="TP")
        x = psx.Product([p], tr, ID="X")
        ps = psx.ProductionSystem(
            [psx.ProductionResource([p], [10.0, 0.0], ID="M"), psx.TransportResource([tr], [0.0, 0.0], ID="T")],
            [psx.Source(x, psx.ScheduledTimeModel([gap, gap + 1], absolute=True, cyclic=False, ID="a"), [0.0, 0.0], ID="S")], [psx.Sink(x, [20.0, 0.0], ID="K")],
        )
        ps.run(end, seed)
        ad = ps.to_model()
        ad.seed = seed
        from prodsys.util import runner

        r = runner.Runner(adapter=ad)
        r.initialize_simulation()
        r.run(end)
    ctx.require(ps.runner.adapter.seed == seed, "a run has the seed that was given", str(ps.runner.adapter.seed))
    a, b = S.plain_log(ps.runner.event_logger.event_data), S.plain_log(r.event_logger.event_data)
    ctx.observe("log", a)
    same(ctx, a, b, "running an express system is running its data", "log")
    for e in ps.runner.event_logger.event_data:
        ctx.require(ctx.le(e["Time"], end), "a run ends at the time that was given", str(e["Time"]))
    ctx.cover("something is finished", any(O_finished(e) for e in ps.runner.event_logger.event_data))


def O_finished(e):
    return S.act(e) == "finished product"


def scenarios(tier):
    return [
        Scenario("express", express, ["all looked at"], bounds=f"a system with every kind of express object, {len(OPTIONS)} variations, every real number arbitrary"),
        Scenario("files", files, ["over another system"], bounds="a system with every kind of entity, optional parts left out one at a time, read into an empty or another system; every real number arbitrary"),
        Scenario("runs", runs, bounds="one machine, two products, arbitrary times and end"),
    ]
