"""systems with scenario data, and what a consistent configuration is"""
import copy

from . import simlib as S  # first: finds the code under test

from prodsys.models import resource_data as rd
from prodsys.models import scenario_data as sc
from prodsys.models import state_data as sd

POS = [[0.0, 40.0], [40.0, 0.0], [40.0, 40.0]]
ALL = ["production_capacity", "transport_capacity", "auxiliary_capacity", "sequencing_logic", "routing_logic"]


def scenario(transformations=ALL, positions=POS, policies=("FIFO", "LIFO"), tpolicies=("FIFO", "SPT_transport"), heuristics=("FIFO", "random"),
             machines=3, per_machine=2, transports=2, cost=10.0**9, info=None, objectives=("throughput",)):
    return sc.ScenarioData(
        constraints=dict(max_reconfiguration_cost=cost, max_num_machines=machines, max_num_processes_per_machine=per_machine, max_num_transport_resources=transports, target_product_count=None),
        options=dict(transformations=list(transformations), machine_controllers=list(policies), transport_controllers=list(tpolicies), routing_heuristics=list(heuristics), positions=copy.deepcopy(positions)),
        info=info or dict(machine_cost=1.0, transport_resource_cost=1.0, process_module_cost=1.0, auxiliary_cost=1.0, time_range=100),
        objectives=[o if isinstance(o, dict) else {"name": o} for o in objectives],
    )


STATES = {
    "S12": {"type": "SetupState", "time_model_id": "t", "origin_setup": "P1", "target_setup": "P2"},
    "S21": {"type": "SetupState", "time_model_id": "t", "origin_setup": "P2", "target_setup": "P1"},
    "S23": {"type": "SetupState", "time_model_id": "t", "origin_setup": "P2", "target_setup": "P3"},
}
NAMED = {
    "BSM": {"type": "BreakDownState", "time_model_id": "t", "repair_time_model_id": "t"},
    "BST": {"type": "BreakDownState", "time_model_id": "t", "repair_time_model_id": "t"},
    "BSP_P1": {"type": "ProcessBreakDownState", "time_model_id": "t", "repair_time_model_id": "t", "process_id": "P1"},
}
CHARGE = {"CH": {"type": "ChargingState", "time_model_id": "t", "battery_time_model_id": "t"}}


def build(machines, transports=None, states=None, compound=None, aux=None, stores=None, route=("P1", "P2"), scn=None, paux=(), stype=None, **kw):
    procs = {p: {"t": "t"} for p in ("P1", "P2", "P3")}
    for c, g in (compound or {}).items():
        procs[c] = {"kind": "compound", "process_ids": list(g)}
    ad = S.build(
        {"t": 1.0, "tt": 1.0}, procs, machines,
        {"X": {"procs": list(route), "aux": list(paux)}},
        {"S": {"product": "X", "t": "t", "heuristic": "FIFO"}},
        transports=transports or {"T": {"procs": ["TP"]}},
        states=states, aux=aux, stores=stores, **kw,
    )
    ad.scenario_data = scn or scenario()
    return ad


def machines(ad):
    return [r for r in ad.resource_data if isinstance(r, rd.ProductionResourceData)]


def transports(ad):
    return [r for r in ad.resource_data if isinstance(r, rd.TransportResourceData)]


def place(ctx, ad, sym=True, offset=True):
    """machines at any place, their input and output sides at any offset"""
    for m in machines(ad):
        n = m.ID
        if sym:
            m.location = [ctx.real(f"x{n}", -1000, 1000), ctx.real(f"y{n}", -1000, 1000)]
        for side in ("input_location", "output_location"):
            if offset:
                k = side[0]
                setattr(m, side, [m.location[0] + ctx.real(f"{k}x{n}", -5, 5), m.location[1] + ctx.real(f"{k}y{n}", -5, 5)])
            else:
                setattr(m, side, list(m.location))


def groups(ad):
    """the process modules: a compound process is one, every other process is one of its own"""
    comp = [tuple(p.process_ids) for p in ad.process_data if type(p).__name__ == "CompoundProcessData"]
    inside = {p for g in comp for p in g}
    names = {"ProductionProcessData", "CapabilityProcessData", "ReworkProcessData"}
    return [(p.ID,) for p in ad.process_data if type(p).__name__ in names and p.ID not in inside] + comp


def same_loc(ctx, a, b):
    return ctx.And(ctx.eq(a[0], b[0]), ctx.eq(a[1], b[1]))


def snap(ad):
    """what makes up the configuration (lists copied, numbers kept)"""
    out = {"res": {}, "n": len(ad.resource_data)}
    for r in ad.resource_data:
        e = {
            "kind": type(r).__name__, "procs": list(r.process_ids), "states": list(r.state_ids), "policy": str(r.control_policy.value if hasattr(r.control_policy, "value") else r.control_policy),
            "cap": r.capacity, "pcaps": list(r.process_capacities), "loc": list(r.location), "controller": str(r.controller),
        }
        if isinstance(r, rd.ProductionResourceData):
            e["in"], e["out"] = list(r.input_location), list(r.output_location)
        out["res"][r.ID] = e
    out["aux"] = {a.ID: list(a.quantity_in_storages) for a in ad.auxiliary_data}
    out["route"] = {s.ID: getattr(s.routing_heuristic, "value", s.routing_heuristic) for s in ad.source_data}
    out["fixed"] = {
        "products": [p.model_dump() for p in ad.product_data], "processes": [p.model_dump() for p in ad.process_data],
        "states": [p.model_dump() for p in ad.state_data], "times": [p.model_dump() for p in ad.time_model_data],
        "sources": [(s.ID, s.location, s.product_type, s.time_model_id, list(s.output_queues)) for s in ad.source_data],
        "sinks": [(s.ID, s.location, s.product_type, list(s.input_queues)) for s in ad.sink_data],
        "aux": [(a.ID, list(a.storages), a.transport_process) for a in ad.auxiliary_data],
    }
    return out


def breakdowns(ad):
    return {s.ID for s in ad.state_data if isinstance(s, (sd.BreakDownStateData, sd.ProcessBreakDownStateData))}


def setups_for(ad, procs):
    return {s.ID for s in ad.state_data if isinstance(s, sd.SetupStateData) and (s.origin_setup in procs or s.target_setup in procs)}


def well_formed(ctx, ad, tag=""):
    ids = [r.ID for r in ad.resource_data]
    ctx.require(len(set(ids)) == len(ids), "no two resources have the same ID", f"{tag} {ids}")
    ctx.require(len({id(r) for r in ad.resource_data}) == len(ad.resource_data), "a resource is in the configuration once", tag)
    pids = {p.ID for p in ad.process_data}
    sids = {s.ID for s in ad.state_data}
    qids = [q.ID for q in ad.queue_data]
    ctx.require(len(set(qids)) == len(qids), "no two queues have the same ID", f"{tag} {sorted(qids)}")
    tps = {p.ID for p in ad.process_data if isinstance(p, S.prodsys.processes_data.TransportProcessData)}
    used = []
    for r in ad.resource_data:
        i = f"{tag} {r.ID[:8]}: {r.process_ids} {r.state_ids}"
        ctx.require(set(r.process_ids) <= pids, "a resource's processes exist", i)
        ctx.require(len(set(r.process_ids)) == len(r.process_ids), "a resource has a process once", i)
        ctx.require(set(r.state_ids) <= sids, "a resource's states exist", i)
        ctx.require(len(set(r.state_ids)) == len(r.state_ids), "a resource has a state once", i)
        ctx.require(len(r.process_capacities) == len(r.process_ids), "a resource has one capacity per process", i)
        ctx.require(all(1 <= c <= r.capacity for c in r.process_capacities), "a process has no more capacity than its resource", i)
        transport = isinstance(r, rd.TransportResourceData)
        ctx.require(all((p in tps) == transport for p in r.process_ids), "machines produce and transporters transport", i)
        if not transport:
            ctx.require(len(r.input_queues) >= 1 and len(r.output_queues) >= 1, "a machine has an input and an output queue", i)
            ctx.require(set(r.input_queues + r.output_queues) <= set(qids), "a machine's queues exist", i)
            used += r.input_queues + r.output_queues
            procs = set(r.process_ids)
            for s in ad.state_data:
                if s.ID in r.state_ids and isinstance(s, sd.ProcessBreakDownStateData):
                    ctx.require(s.process_id in procs, "a machine's process breakdowns are of processes it has", i)
    ctx.require(len(set(used)) == len(used), "machines do not share queues", f"{tag} {used}")
    for s in ad.source_data:
        ctx.require(set(s.output_queues) <= set(qids), "a source's queues exist", tag)
    for s in ad.sink_data:
        ctx.require(set(s.input_queues) <= set(qids), "a sink's queues exist", tag)
    for a in ad.auxiliary_data:
        ctx.require(set(a.storages) <= set(qids), "an auxiliary's storages exist", tag)
        for q, n in zip(a.storages, a.quantity_in_storages):
            cap = next(x.capacity for x in ad.queue_data if x.ID == q)
            ctx.require(n >= 0, "no storage holds a negative quantity", f"{tag} {a.ID} {n}")
            tot = sum(y for b in ad.auxiliary_data for x, y in zip(b.storages, b.quantity_in_storages) if x == q)
            ctx.require(cap == 0 or tot <= cap, "no storage is filled beyond its capacity", f"{tag} {q} {tot} > {cap}")


def readable(ctx, ad):
    """the configuration can be written and read back"""
    b = ad.model_copy(deep=True)
    for k, r in enumerate(b.resource_data):
        for side in ("location", "input_location", "output_location"):
            if hasattr(r, side):
                setattr(r, side, [float(k), 7.0])
    for k in ("max_reconfiguration_cost",):
        pass
    try:
        c = type(b).model_validate_json(b.model_dump_json())
    except Exception as e:
        ctx.require(False, "a configuration that was written can be read back", f"{type(e).__name__}: {str(e)[:160]}")
        return
    ctx.require(c.model_dump() == b.model_dump(), "what is read back is what was written", "")
