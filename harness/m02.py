"""M02: data is accepted exactly when all it refers to is there, and refused with the reason otherwise."""
import copy

import pydantic

from symx import num
from symx.engine import And, Or, Scenario
from symx.num import SymReal

from . import simlib as S
from . import m01
from .names import name

from prodsys import adapters
from prodsys.models import resource_data as rd
from prodsys.models import processes_data as pd_

ASSUMPTIONS = [
    "a name is one of those of the system's things or any other string (one stands for all)",
    "at most two references are arbitrary at a time",
    "processes of process breakdowns, setups and rework processes are not looked at (they are not checked)",
]

LISTS = m01.LISTS
TIMES, STATES, PROCS, QUEUES, PRODUCTS = "time_model_data", "state_data", "process_data", "queue_data", "product_data"
TARGET = {
    "time_model_id": TIMES, "repair_time_model_id": TIMES, "battery_time_model_id": TIMES, "loading_time_model_id": TIMES, "unloading_time_model_id": TIMES,
    "process_ids": PROCS, "state_ids": STATES, "input_queues": QUEUES, "output_queues": QUEUES, "processes": PROCS, "transport_process": PROCS, "product_type": PRODUCTS,
    "storages": QUEUES, "relevant_processes": PROCS, "relevant_transport_processes": PROCS,
}


def system(shape=0):
    """one whose configuration is valid, too"""
    d = m01.system()
    d["resource_data"][1]["process_ids"] = ["PC", "PD"]
    d["resource_data"].append(dict(copy.deepcopy(d["resource_data"][1]), ID="M3", location=[25.0, 51.0], input_location=[25.0, 51.0], output_location=[25.0, 51.0], process_ids=["RW", "CP"]))
    d["queue_data"].append(dict(d["queue_data"][5], ID="QL"))
    d["sink_data"][1]["input_queues"] = ["QK", "QL"]
    d["product_data"][0]["processes"] = [["PA", "PB", "PD"], [["PA", "PB"], ["PA", "PD"]], {"PA": ["PB"], "PB": [], "PD": []}, {"PA": ["PB", "PD"]}][shape]
    return d


def ids(d):
    return [x["ID"] for k in LISTS for x in d[k]]


def construct(ctx, d, change):
    """the real classes check the parts, then the adapter checks the system"""
    base = adapters.JsonProductionSystemAdapter(**copy.deepcopy(d))
    parts = {k: list(getattr(base, k)) for k in LISTS}
    change(parts)
    return adapters.JsonProductionSystemAdapter(ID="S", **parts)


def part(parts, k, i):
    return next(e for e in parts[k] if e.ID == i)


def references(d):
    """(list, entity, field, path to the string)"""
    out = []
    for k in LISTS:
        for e in d[k]:
            for f, v in e.items():
                if f not in TARGET or (f == "product_type" and k == "product_data") or (k == "process_data" and f == "process_ids"):
                    continue
                if isinstance(v, str):
                    out.append((k, e["ID"], f, ()))
                elif isinstance(v, dict):
                    for a, ws in v.items():
                        out.append((k, e["ID"], f, (a,)))
                        out += [(k, e["ID"], f, (a, j)) for j in range(len(ws))]
                elif isinstance(v, list):
                    for j, w in enumerate(v):
                        out += [(k, e["ID"], f, (j, m)) for m in range(len(w))] if isinstance(w, list) else [(k, e["ID"], f, (j,))]
    return out


def put(parts, at, s):
    k, i, f, path = at
    e = part(parts, k, i)
    v = copy.deepcopy(getattr(e, f))
    if not path:
        v = s
    elif isinstance(v, dict) and len(path) == 1:
        v = {(s if a == path[0] else a): ws for a, ws in v.items()}
    elif len(path) == 1:
        v[path[0]] = s
    else:
        v[path[0]][path[1]] = s
    e.__dict__[f] = v


def outcome(ctx, make):
    try:
        return make(), ""
    except pydantic.ValidationError as e:
        return None, str(e)
    except ValueError as e:
        return None, str(e)


def reference(ctx, shape, two=False):
    d = system(shape)
    refs = references(d)
    if shape:
        refs = [r for r in refs if r[0] == "product_data" and r[1] == "X"]
    n = ctx.choice(len(refs), "reference")
    ats = [refs[n]]
    if two:
        ats.append(refs[(n + 1 + ctx.choice(3, "second") * 7) % len(refs)])
        if ats[0] == ats[1]:
            ctx.stop()
    ws = [name(ctx, f"name{i}", ids(d)) for i in range(len(ats))]

    def change(parts):
        for at, (s, _) in zip(ats, ws):
            put(parts, at, s)

    got, why = outcome(ctx, lambda: construct(ctx, d, change))
    good = And([among([x["ID"] for x in d[TARGET[at[2]]]]) for at, (_, among) in zip(ats, ws)])
    what = ", ".join(f"{f} of {i}" for _, i, f, _ in ats)
    if got is not None:
        ctx.cover("accepted")
        ctx.require(good, "what is referred to is there", what)
        for k in LISTS:
            if k != "queue_data":
                ctx.require(len(getattr(got, k)) == len(d[k]), "nothing is lost", f"{what} {k}")
    else:
        ctx.cover("refused")
        ctx.require(num.Not(good), "data whose references are there is accepted", what)
        ctx.require(any(i in why for _, i, _, _ in ats), "the reason names what is wrong", f"{what}: {why[:100]}")


def queues(ctx):
    """queues that are not given are made, those that are given stay as they are"""
    d = system()
    cap = [ctx.real(f"cap{i}", 0, 100) for i in range(3)]
    given = [ctx.bool("in"), ctx.bool("out"), ctx.bool("sink"), ctx.bool("source")]

    def change(parts):
        for q, c in zip(("QI", "QO", "QK"), cap):
            part(parts, "queue_data", q).__dict__["capacity"] = c
        m = part(parts, "resource_data", "M1")
        m.__dict__["input_queues"], m.__dict__["output_queues"] = ["QI"] if given[0] else [], ["QO"] if given[1] else []
        part(parts, "sink_data", "K1").__dict__["input_queues"] = ["QK"] if given[2] else []
        part(parts, "source_data", "S1").__dict__["output_queues"] = ["QS"] if given[3] else []

    ad = construct(ctx, d, change)
    by = {}
    for q in ad.queue_data:
        ctx.require(q.ID not in by, "no two queues have the same name", q.ID)
        by[q.ID] = q
    m, k, s = part({"r": ad.resource_data}, "r", "M1"), part({"r": ad.sink_data}, "r", "K1"), part({"r": ad.source_data}, "r", "S1")
    for what, have, was, own in (("input of M1", m.input_queues, given[0], "QI"), ("output of M1", m.output_queues, given[1], "QO"), ("K1", k.input_queues, given[2], "QK"), ("S1", s.output_queues, given[3], "QS")):
        if was:
            ctx.require(have == [own], "queues that are given stay", what)
        else:
            ctx.require(len(have) == 1 and have[0] in by and have[0] not in ids(d), "a queue of its own is made where none is given", what)
            ctx.require(by[have[0]].capacity == 0, "queues that are made are not limited", what)
    for q, c, own in (("QI", cap[0], True), ("QO", cap[1], True), ("QK", cap[2], False)):
        if own:
            ctx.require(ctx.eq(by[q].capacity, c), "the capacity of a queue stays", q)
        else:
            ctx.require(by[q].capacity == 0, "queues of sinks are not limited", q)
    ctx.cover("all given", all(given))
    ctx.cover("none given", not any(given))


def capacities(ctx):
    """process capacities: one per process, none more than the machine has"""
    kind = ctx.choice(2, "kind")
    n, k = ctx.choice(3, "processes"), ctx.choice(5, "capacities")
    cap = ctx.int("capacity", 1, 100)
    caps = None if k == 4 else [ctx.int(f"cap{i}", 0, 100) for i in range(k)]
    num_ = lambda x: x if ctx.symbolic else int(x)
    d = dict(ID="R", description="", capacity=num_(cap), location=[1.0, 2.0], process_ids=[f"P{i}" for i in range(n)], process_capacities=None if caps is None else [num_(c) for c in caps], state_ids=[])
    cls = rd.TransportResourceData if kind else rd.ProductionResourceData
    d.update(controller="TransportController" if kind else "PipelineController", control_policy="FIFO")
    try:
        r = cls(**d)
        refused = False
    except pydantic.ValidationError as e:
        refused = any(x["type"] in ("value_error", "assertion_error") for x in e.errors())
        r = None
        if not refused and not ctx.symbolic:
            raise
    good = True if caps is None else And([k == n] + [c <= cap for c in caps])
    ctx.require(good if not refused else num.Not(good), "process capacities are accepted when there is one per process and none exceeds the capacity", f"{n} processes, {k} capacities")
    if r is not None and caps is None:
        ctx.require(list(r.process_capacities) == [int(cap)] * n, "each process may use the whole capacity if nothing is said", "")
    ctx.cover("refused" if refused else "accepted")


# ---- whole configurations
def needed_available(d):
    """may every product be made and carried with what the resources provide?"""
    procs = {p["ID"]: p for p in d["process_data"]}

    def parts(p):
        return [procs[i] for i in p["process_ids"]] if p["type"] == "CompoundProcesses" else [p]

    have = [q for r in d["resource_data"] for i in r["process_ids"] for q in parts(procs[i])]
    if any(procs[i]["type"] == "RequiredCapabilityProcesses" for r in d["resource_data"] for i in r["process_ids"]):
        return False
    need = []
    for x in d["product_data"]:
        p = x["processes"]
        names = set()
        if isinstance(p, dict):
            names |= set(p) | {w for ws in p.values() for w in ws}
        else:
            names |= {w for e in p for w in (e if isinstance(e, list) else [e])}
        need += [q for i in names | {x["transport_process"]} for q in parts(procs[i])]

    def provided(q):
        if q.get("capability"):
            return any(h.get("capability") == q["capability"] and h["type"] != "RequiredCapabilityProcesses" for h in have)
        return any(h["ID"] == q["ID"] for h in have)

    return all(provided(q) for q in need)


def plain(d, at, w):
    d = copy.deepcopy(d)
    k, i, f, path = at
    e = next(x for x in d[k] if x["ID"] == i)
    if not path:
        e[f] = w
    elif isinstance(e[f], dict) and len(path) == 1:
        e[f] = {(w if a == path[0] else a): ws for a, ws in e[f].items()}
    elif len(path) == 1:
        e[f][path[0]] = w
    else:
        e[f][path[0]][path[1]] = w
    return d


def give(d, r, ps):
    e = next(x for x in d["resource_data"] if x["ID"] == r)
    e.update(process_ids=ps, process_capacities=[e["capacity"]] * len(ps))


def compound(d):
    """the machine has the compound process only"""
    give(d, "M1", ["CP"])
    give(d, "M3", ["RW", "PD"])


def asks(d):
    """a product asks for the compound process and is carried over links"""
    d["product_data"][1].update(processes=["CP", "RC"], transport_process="LT")
    give(d, "T2", ["LT"])


VARIANTS = {"plain": lambda d: None, "compound": compound, "asks-compound": asks}


def valid(ctx, shape, variant):
    d = system(shape)
    VARIANTS[variant](d)
    ats = [r for r in references(d) if r[2] in ("processes", "transport_process", "process_ids") and r[0] in ("product_data", "resource_data")]
    at = ats[ctx.choice(len(ats), "reference")]
    listed = [p["ID"] for p in d["process_data"]]
    s, among = name(ctx, "name", listed)
    ctx.assume(among(listed))
    ad = construct(ctx, d, lambda parts: put(parts, at, s))
    got, why = outcome(ctx, lambda: ad.validate_configuration() or True)
    good = among([w for w in listed if needed_available(plain(d, at, w))])
    what = f"{at[2]} of {at[1]}"
    ctx.cover("accepted" if got else "refused")
    ctx.require(good if got else num.Not(good), "a configuration is valid when all processes that are needed are provided", f"{what} {why[:100]}")


def links(ctx):
    d = system()
    k = ctx.choice(4, "end")
    listed = ids(d)
    s, among = name(ctx, "name", listed)
    ad = construct(ctx, d, lambda parts: None)
    p = next(x for x in ad.process_data if x.ID == "LT")
    v = copy.deepcopy(p.links)
    v[k // 2][k % 2] = s
    p.__dict__["links"] = v
    got, why = outcome(ctx, lambda: ad.validate_configuration() or True)
    places = [x["ID"] for l in ("node_data", "resource_data", "source_data", "sink_data") for x in d[l]]
    ctx.cover("accepted" if got else "refused")
    ctx.require(among(places) if got else num.Not(among(places)), "a configuration is valid when links join places", f"end {k} {why[:100]}")


def parts(ctx):
    """one process of a compound process is any string"""
    d = system()
    k = ctx.choice(2, "part")
    listed = [p["ID"] for p in d["process_data"]]
    s, among = name(ctx, "name", listed)
    ad = construct(ctx, d, lambda parts: None)
    p = next(x for x in ad.process_data if x.ID == "CP")
    v = list(p.process_ids)
    v[k] = s
    p.__dict__["process_ids"] = v
    got, why = outcome(ctx, lambda: ad.validate_configuration() or True)
    ctx.cover("accepted" if got else "refused")
    ctx.require(among(listed) if got else num.Not(among(listed)), "a configuration is valid when the parts of its compound processes are there", f"part {k} {why[:100]}")


def places(ctx):
    """two things at arbitrary places"""
    d = system()
    d["queue_data"][6].update(location=[70.0, 1.0], input_location=[70.0, 1.0], output_location=[70.0, 1.0])
    spots = [("resource_data", i, f) for i in ("M1", "M2") for f in ("location", "input_location", "output_location")] + [("source_data", "S1", "location"), ("sink_data", "K1", "location"), ("queue_data", "W1", "location"), ("queue_data", "W2", "location"), ("queue_data", "W2", "output_location")]
    i = ctx.choice(len(spots), "first")
    j = ctx.choice(len(spots), "second")
    if i >= j or spots[i][1] == spots[j][1]:
        ctx.stop()
    ad = construct(ctx, d, lambda parts: None)
    pos = []
    for n, (k, e, f) in enumerate((spots[i], spots[j])):
        v = [ctx.real(f"x{n}", 1000, 2000), ctx.real(f"y{n}", 1000, 2000)]
        next(x for x in getattr(ad, k) if x.ID == e).__dict__[f] = v
        pos.append(v)
    if ctx.symbolic:
        ctx.hash_among([])
    got, why = outcome(ctx, lambda: ad.validate_configuration() or True)
    apart = num.Not(And(pos[0][0] == pos[1][0], pos[0][1] == pos[1][1]))
    ctx.cover("accepted" if got else "refused")
    ctx.require(apart if got else num.Not(apart), "a configuration is valid when its things are at different places", f"{spots[i]} {spots[j]} {why[:100]}")


def scenarios(tier):
    out = [
        Scenario("reference", lambda ctx: reference(ctx, 0), covers=["accepted", "refused"], bounds="every reference of a system with all kinds of entities, to any string"),
        Scenario("reference-edges", lambda ctx: reference(ctx, 1), covers=["accepted", "refused"], bounds="the same for the processes of a product given as edges"),
        Scenario("reference-graph", lambda ctx: reference(ctx, 2), covers=["accepted", "refused"], bounds="the same for processes given as a precedence graph"),
        Scenario("reference-graph-successors", lambda ctx: reference(ctx, 3), covers=["accepted", "refused"], bounds="the same with processes that are only successors"),
        Scenario("queues", queues, covers=["all given", "none given"], bounds="queues given or not, arbitrary capacities"),
        Scenario("capacities", capacities, covers=["accepted", "refused"], bounds="up to 2 processes and 3 process capacities, arbitrary"),
        Scenario("links", links, covers=["accepted", "refused"], bounds="one end of a link is any string"),
        Scenario("compound-parts", parts, covers=["accepted", "refused"], bounds="one part of a compound process is any string"),
        Scenario("places", places, covers=["accepted", "refused"], bounds="two places arbitrary"),
    ]
    for v in VARIANTS:
        for sh in (0, 2, 3) if tier == "quick" else (0, 1, 2, 3):
            out.append(Scenario(f"valid-{v}-{sh}", lambda ctx, v=v, sh=sh: valid(ctx, sh, v), covers=["accepted", "refused"], bounds="one process of a product or resource is any of the system's"))
    if tier == "thorough":
        out.append(Scenario("two-references", lambda ctx: reference(ctx, 0, True), covers=["accepted", "refused"], bounds="two references at a time"))
    return out
