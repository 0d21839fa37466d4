"""O01: the optimisers' operations turn consistent configurations into consistent configurations."""
import contextlib

from symx.engine import Scenario
from symx.num import Unsupported

from . import opt as P

from prodsys.optimization import adapter_manipulation as am

ASSUMPTIONS = [
    "the machines' places are arbitrary reals within 1000 of the origin, with input and output sides within 5 of them; the positions the scenario offers are fixed",
    "every random choice of an operation takes every value it can take",
    "configurations have up to three machines, two transporters, three processes, two auxiliaries and two positions per choice",
]


def changes(ctx, ad, a, b, names):
    """the one change between two snapshots, checked against what it may be"""
    opts = ad.scenario_data.options
    gs = P.groups(ad)
    ctx.require(a["fixed"] == b["fixed"], "products, processes, states, sources and sinks stay as they are", "")
    gone = [i for i in a["res"] if i not in b["res"]]
    new = [i for i in b["res"] if i not in a["res"]]
    found = []
    for i in gone:
        found.append(("removed", a["res"][i]["kind"], i))
    for i in new:
        e = b["res"][i]
        found.append(("added", e["kind"], i))
        if e["kind"] == "ProductionResourceData":
            ctx.require(e["loc"] in opts.positions, "a new machine stands at a position the scenario offers", str(e["loc"]))
            for j, f in a["res"].items():
                if f["kind"] == e["kind"]:
                    ctx.require(ctx.Not(P.same_loc(ctx, e["loc"], f["loc"])), "a new machine stands where no other machine stands", j)
            have = [g for g in gs if set(g) <= set(e["procs"])]
            ctx.require({p for g in have for p in g} == set(e["procs"]), "a new machine has whole process modules", str(e["procs"]))
            ctx.require(1 <= len(have) <= ad.scenario_data.constraints.max_num_processes_per_machine, "a new machine has as many modules as the scenario allows", str(e["procs"]))
            ctx.require(e["policy"] in [p.value for p in opts.machine_controllers], "a new machine has a policy the scenario offers", e["policy"])
            ctx.require(P.setups_for(ad, e["procs"]) <= set(e["states"]), "a new machine has the setups of its processes", f"{e['procs']} {e['states']}")
        else:
            ctx.require(e["policy"] in [getattr(p, "value", p) for p in opts.transport_controllers], "a new transporter has a policy the scenario offers", e["policy"])
            ctx.require(len(e["procs"]) == 1, "a new transporter has one transport process", str(e["procs"]))
    bds = P.breakdowns(ad)
    for i in a["res"]:
        if i not in b["res"]:
            continue
        e, f = a["res"][i], b["res"][i]
        ctx.require(e["kind"] == f["kind"] and e["cap"] == f["cap"] and e["controller"] == f["controller"], "capacity and controller of a resource stay", i)
        if e["policy"] != f["policy"]:
            found.append(("policy", e["kind"], i))
            of = opts.machine_controllers if e["kind"] == "ProductionResourceData" else opts.transport_controllers
            ctx.require(f["policy"] in [getattr(p, "value", p) for p in of], "a new policy is one the scenario offers", f["policy"])
        if set(e["procs"]) != set(f["procs"]):
            found.append(("modules", tuple(sorted(set(e["procs"]) - set(f["procs"]))), tuple(sorted(set(f["procs"]) - set(e["procs"]))), i))
        if not P.same_loc(ctx, e["loc"], f["loc"]):
            found.append(("moved", e["kind"], i))
            ctx.require(f["loc"] in opts.positions, "a machine moves to a position the scenario offers", "")
            for j, g in b["res"].items():
                if j != i and g["kind"] == f["kind"]:
                    ctx.require(ctx.Not(P.same_loc(ctx, f["loc"], g["loc"])), "a machine moves to where no other machine stands", j)
        if e["kind"] == "ProductionResourceData":
            for side in ("in", "out"):
                for k in (0, 1):
                    ctx.require(ctx.eq(f[side][k] - f["loc"][k], e[side][k] - e["loc"][k]), "the input and output sides of a machine move with it", f"{i} {side}")
        keep = set(e["states"]) - bds
        if e["pcaps"] == [e["cap"]] * len(e["procs"]):
            ctx.require(f["pcaps"] == [f["cap"]] * len(f["procs"]), "processes keep the capacity of their resource", f"{i} {e['pcaps']} {f['pcaps']}")
        if e["kind"] == "ProductionResourceData":
            setups = P.setups_for(ad, [p.ID for p in ad.process_data])
            if set(e["procs"]) != set(f["procs"]):
                keep = (keep - setups) | P.setups_for(ad, f["procs"])
                ctx.require(set(f["states"]) & setups == P.setups_for(ad, f["procs"]), "the setups of a machine are those of its processes", f"{f['procs']} {f['states']}")
        ctx.require(keep <= set(f["states"]), "a resource keeps its setup and charging states", f"{i} had {e['states']} has {f['states']}")
    for i in a["aux"]:
        for q, (x, y) in enumerate(zip(a["aux"][i], b["aux"][i])):
            if x != y:
                found.append(("auxiliary", y - x, i))
    for i in a["route"]:
        if a["route"][i] != b["route"][i]:
            found.append(("routing", b["route"][i], i))
            ctx.require(b["route"][i] in [getattr(h, "value", h) for h in opts.routing_heuristics], "a new routing heuristic is one the scenario offers", b["route"][i])
    return found


def kind_of(ctx, found, gs):
    """name of the one operation that explains the changes"""
    if not found:
        return "nothing"
    if len(found) == 1:
        f = found[0]
        if f[0] in ("added", "removed"):
            return f"{f[0]} {'machine' if f[1].startswith('P') else 'transporter'}"
        if f[0] == "modules":
            out, inn = set(f[1]), set(f[2])
            g = [set(x) for x in gs]
            whole = any(out <= x and out for x in g) if out else any(inn <= x for x in g)
            if whole and not (out and inn):
                return "removed module" if out else "added module"
            return None
        if f[0] == "auxiliary":
            return "auxiliary" if abs(f[1]) == 1 else None
        return f[0]
    if len(found) == 2 and all(f[0] == "modules" for f in found):
        (x, y) = sorted(found, key=lambda f: -len(f[1]))
        if not x[2] and not y[1] and set(y[2]) <= set(x[1]) and any(set(x[1]) <= set(g) for g in gs):
            return "moved module"
    return None


# what a scenario lets a mutation do (growing the production also lets it move machines and change policies)
ALLOWED = {
    "production_capacity": {"added machine", "removed machine", "moved", "policy", "added module", "removed module", "moved module"},
    "transport_capacity": {"added transporter", "removed transporter"},
    "auxiliary_capacity": {"auxiliary"},
    "layout": {"moved"},
    "sequencing_logic": {"policy"},
    "routing_logic": {"routing"},
}


def held(snap, gs):
    """modules per process over all machines"""
    return sorted(p for e in snap["res"].values() if e["kind"] == "ProductionResourceData" for p in e["procs"])


def mutate(make, steps=1, sym=True, expect=(), read=True, honest=False):
    def fn(ctx):
        ad = make(ctx)
        P.place(ctx, ad, sym=sym)
        ctx.assume(_apart(ctx, ad))
        ind = [ad]
        ids = {ad.ID}
        for k in range(steps):
            a = P.snap(ind[0])
            before = ind[0].ID
            (ind,) = am.mutation(ind)
            b = P.snap(ind[0])
            P.well_formed(ctx, ind[0])
            found = changes(ctx, ind[0], a, b, None)
            gs = P.groups(ind[0])
            name = kind_of(ctx, found, gs)
            ctx.require(name is not None, "a mutation makes one change", str(found))
            tr = [getattr(t, "value", t) for t in ind[0].scenario_data.options.transformations]
            ctx.require(name == "nothing" or any(name in ALLOWED[t] for t in tr), "a mutation makes a change the scenario allows", f"{name} {tr}")
            if honest:
                ctx.require(bool(found) == (ind[0].ID != before), "a mutation of policies that counts as a change is one", str(found))
            if name == "moved module":
                ctx.require(set(held(a, gs)) == set(held(b, gs)), "a moved module is not lost", f"{held(a, gs)} {held(b, gs)}")
            if name == "removed module":
                # a module is taken off, or moved to where it is already
                lost = set(held(a, gs)) - set(held(b, gs))
                ctx.cover("the last module of a process is removed", bool(lost))
            if found:
                ctx.require(ind[0].ID != before and ind[0].ID not in ids, "a changed configuration has an ID of its own", "")
                ids.add(ind[0].ID)
            if name:
                ctx.cover(name)
        if read:
            P.readable(ctx, ind[0])

    return fn


def _apart(ctx, ad):
    ms = P.machines(ad)
    return ctx.And(True, *[ctx.Not(P.same_loc(ctx, x.location, y.location)) for i, x in enumerate(ms) for y in ms[:i]])


def prints(ctx, rs):
    return [(type(r).__name__, tuple(r.process_ids), r.location, r.control_policy, r.capacity) for r in rs]


def match(ctx, xs, ys, label):
    """the two lists hold the same resources"""
    ctx.require(len(xs) == len(ys), label, f"{len(xs)} before, {len(ys)} after")
    left = list(ys)
    for x in xs:
        hit = next((y for y in left if x[0] == y[0] and x[1] == y[1] and x[3:] == y[3:] and x[2][0] is y[2][0] and x[2][1] is y[2][1]), None)
        ctx.require(hit is not None, label, str(x[:2]))
        if hit is not None:
            left = [y for y in left if y is not hit]


def cross(pools):
    """two configurations of one family: each has some of the machines"""

    def fn(ctx):
        inds = []
        for k, (n, ts) in enumerate(pools):
            ms = {i: {"procs": list(p), "states": list(s), "cap": 1} for i, p, s in n}
            ad = P.build(ms, transports={t: {"procs": ["TP"], "states": ["CH"]} for t in ts}, states={**P.STATES, **P.CHARGE, **P.NAMED})
            ad.ID = f"ind{k}"
            for m in P.machines(ad):
                m.location = [ctx.real(f"x{m.ID}{k}", -1000, 1000), ctx.real(f"y{m.ID}{k}", -1000, 1000)]
                m.input_location, m.output_location = list(m.location), list(m.location)
            for t in P.transports(ad):
                t.location = [ctx.real(f"x{t.ID}{k}", -1000, 1000), 0.0]
            inds.append([ad])
        snaps = [P.snap(i[0]) for i in inds]
        m0 = [P.machines(i[0]) for i in inds]
        t0 = [P.transports(i[0]) for i in inds]
        fm, ft = prints(ctx, m0[0] + m0[1]), prints(ctx, t0[0] + t0[1])
        sets = [[id(r) for r in x] for x in m0]
        out = am.crossover(inds[0], inds[1])
        ads = [out[0][0], out[1][0]]
        for k, ad in enumerate(ads):
            P.well_formed(ctx, ad, f"individual {k}")
            P.readable(ctx, ad)
            ctx.require(P.snap(ad)["fixed"] == snaps[k]["fixed"], "products, processes, states, sources and sinks stay as they are", "")
            states = {r.ID: r.state_ids for r in ad.resource_data}
            for s in snaps:
                for i, e in s["res"].items():
                    for r in ad.resource_data:
                        if r.ID == i:
                            ctx.require(set(e["states"]) - P.breakdowns(ad) <= set(r.state_ids), "a resource keeps its setup and charging states", f"{i} had {e['states']} has {r.state_ids}")
        ctx.require(not {id(r) for r in ads[0].resource_data} & {id(r) for r in ads[1].resource_data}, "the two configurations share no resource object", "")
        match(ctx, fm, prints(ctx, P.machines(ads[0]) + P.machines(ads[1])), "every machine of the two configurations is in one of them afterwards")
        match(ctx, ft, prints(ctx, P.transports(ads[0]) + P.transports(ads[1])), "every transporter of the two configurations is in one of them afterwards")
        ctx.require(ads[0].ID != ads[1].ID and not {ads[0].ID, ads[1].ID} & {"ind0", "ind1"}, "new configurations have IDs of their own", "")
        now = [{id(r) for r in P.machines(ad)} for ad in ads]
        ctx.cover("all machines swapped", now[0] == set(sets[1]) and now[1] == set(sets[0]))
        ctx.cover("machines kept", now[0] == set(sets[0]))
        ctx.cover("some machines swapped", any(now[0] & set(s) for s in sets[:1]) and bool(now[0] & set(sets[1])))

    return fn


@contextlib.contextmanager
def first_try(ctx, cls, limit):
    """a path ends when a second configuration is tried: the next try is like the first"""
    real = cls.model_copy
    n = [0]

    def model_copy(self, *a, **k):
        n[0] += 1
        if n[0] > limit:
            ctx.stop()
        return real(self, *a, **k)

    cls.model_copy = model_copy
    try:
        yield
    finally:
        cls.model_copy = real


def random_conf(make):
    def fn(ctx):
        base = make(ctx)
        for m in P.machines(base):
            pass
        a = P.snap(base)
        with first_try(ctx, type(base), 1):
            ad = am.random_configuration(base)
        ctx.require(ad is not base and P.snap(base) == a, "the baseline stays as it is", "")
        ctx.require(not {id(r) for r in ad.resource_data} & {id(r) for r in base.resource_data}, "a random configuration shares no resource with the baseline", "")
        P.well_formed(ctx, ad)
        P.readable(ctx, ad)
        b = P.snap(ad)
        ctx.require(a["fixed"] == b["fixed"], "products, processes, states, sources and sinks stay as they are", "")
        s = ad.scenario_data
        tr = [getattr(t, "value", t) for t in s.options.transformations]
        ms, ts = P.machines(ad), P.transports(ad)
        ctx.require(ad.ID != base.ID, "a random configuration has an ID of its own", "")
        ctx.require(len(ms) <= s.constraints.max_num_machines and 1 <= len(ts) <= s.constraints.max_num_transport_resources, "no more resources than the scenario allows", f"{len(ms)} {len(ts)}")
        have = {p for m in ms for p in m.process_ids}
        ctx.require({p for x in ad.product_data for p in x.processes} <= have, "every process the products need is there", str(have))
        locs = [tuple(m.location) for m in ms]
        ctx.require(len(set(locs)) == len(locs), "no two machines stand at the same place", str(locs))
        if "production_capacity" in tr or "layout" in tr:
            ctx.require(all(list(l) in s.options.positions for l in locs), "machines stand at positions the scenario offers", str(locs))
        for m in ms:
            gs = [g for g in P.groups(ad) if set(g) & set(m.process_ids)]
            ctx.require(len(gs) <= s.constraints.max_num_processes_per_machine, "no machine has more modules than the scenario allows", str(m.process_ids))
        if "production_capacity" not in tr:
            keep = lambda x: {i: (sorted(e["procs"]), e["cap"], sorted(e["states"])) for i, e in x["res"].items() if e["kind"].startswith("P")}
            ctx.require(keep(a) == keep(b), "machines only change when the scenario lets them", f"{keep(a)} {keep(b)}")
            if "layout" not in tr:
                ctx.require(all(a["res"][m.ID]["loc"] == b["res"][m.ID]["loc"] for m in ms), "machines only move when the scenario lets them", "")
        else:
            for m in ms:
                ctx.require(P.setups_for(ad, m.process_ids) <= set(m.state_ids), "a new machine has the setups of its processes", f"{m.process_ids} {m.state_ids}")
        if "transport_capacity" not in tr:
            keep = lambda x: {i: (e["procs"], e["loc"], e["cap"], sorted(e["states"])) for i, e in x["res"].items() if e["kind"].startswith("T")}
            ctx.require(keep(a) == keep(b), "transporters only change when the scenario lets them", "")
        if not {"sequencing_logic", "production_capacity"} & set(tr):
            ctx.require(all(a["res"][m.ID]["policy"] == b["res"][m.ID]["policy"] for m in ms), "policies only change when the scenario lets them", "")
        if "sequencing_logic" in tr and not {"production_capacity", "transport_capacity"} <= set(tr):
            val = lambda l: [getattr(p, "value", p) for p in l]
            ctx.require(all(b["res"][m.ID]["policy"] in val(s.options.machine_controllers) for m in ms), "machines get policies the scenario offers", "")
            ctx.require(all(b["res"][t.ID]["policy"] in val(s.options.transport_controllers) for t in ts), "transporters get policies the scenario offers", "")
        if "routing_logic" in tr:
            ctx.require(all(h in [getattr(x, "value", x) for x in s.options.routing_heuristics] for h in b["route"].values()), "sources get heuristics the scenario offers", str(b["route"]))
        if "routing_logic" not in tr:
            ctx.require(a["route"] == b["route"], "routing only changes when the scenario lets it", "")
        if "auxiliary_capacity" not in tr:
            ctx.require(a["aux"] == b["aux"], "auxiliaries only change when the scenario lets them", "")
        ctx.cover("two machines", len(ms) == 2)
        ctx.cover("changed", a["res"] != b["res"] or a["route"] != b["route"] or a["aux"] != b["aux"])

    return fn


class Same(list):
    """a set of values that may be symbolic: equality decides"""

    def __init__(self, xs=()):
        for x in xs:
            if not any(x == y for y in self):
                self.append(x)


def as_set(xs=()):
    xs = list(xs)
    try:
        return set(xs)
    except Unsupported:
        return Same(xs)


def defaults(ctx):
    from prodsys.optimization import util as ou

    ou.set = as_set
    try:
        _defaults(ctx)
    finally:
        del ou.set


def _defaults(ctx):
    """breakdowns of one's own become the breakdowns of all machines"""
    from prodsys.optimization import util as ou

    st = {
        "BA": {"type": "BreakDownState", "time_model_id": "ta", "repair_time_model_id": "ra"},
        "BB": {"type": "BreakDownState", "time_model_id": "tb", "repair_time_model_id": "rb"},
        "PA": {"type": "ProcessBreakDownState", "time_model_id": "ta", "repair_time_model_id": "ra", "process_id": "P1"},
        "PB": {"type": "ProcessBreakDownState", "time_model_id": "tb", "repair_time_model_id": "rb", "process_id": "P1"},
        "TA": {"type": "BreakDownState", "time_model_id": "ta", "repair_time_model_id": "ra"},
        "TB": {"type": "BreakDownState", "time_model_id": "tb", "repair_time_model_id": "rb"},
    }
    mode = ctx.choice(4, "which")
    tms = {n: ctx.real(n, 0, 2, True) for n in ("ta", "tb", "ra", "rb")}
    own = [(["BA"], ["BB"]), (["PA"], ["PB"]), ([], []), (["BA", "PB"], ["BB"])][mode]
    ad = P.S.build(
        {"t": 1.0, "tt": 1.0, **tms}, {p: {"t": "t"} for p in ("P1", "P2")},
        {"M1": {"procs": ["P1"], "states": own[0]}, "M2": {"procs": ["P1", "P2"], "states": own[1]}},
        {"X": {"procs": ["P1"]}}, {"S": {"product": "X", "t": "t"}},
        transports={"T": {"procs": ["TP"], "states": ["TA"] if mode == 2 else []}, "U": {"procs": ["TP"], "states": ["TB"] if mode == 2 else []}}, states=st,
    )
    had = {r.ID: list(r.state_ids) for r in ad.resource_data}
    same = ctx.And(ctx.eq(tms["ta"], tms["tb"]), ctx.eq(tms["ra"], tms["rb"]))
    try:
        ou.create_default_breakdown_states(ad)
    except ValueError:
        ctx.require(ctx.Not(same), "breakdowns that are alike are taken as the default", "")
        ctx.cover("not alike")
        return
    ou.clean_out_breakdown_states_of_resources(ad)
    sts = {s.ID: s for s in ad.state_data}
    loc = {t.ID: t.location for t in ad.time_model_data}
    for r in ad.resource_data:
        for i in had[r.ID]:
            old = sts[i]
            new = [sts[j] for j in r.state_ids if type(sts[j]) is type(old) and getattr(sts[j], "process_id", None) == getattr(old, "process_id", None)]
            ctx.require(len(new) == 1, "a resource has the breakdowns it had, once", f"{r.ID} {had[r.ID]} {r.state_ids}")
            for x in new[:1]:
                # the code takes times for alike that round to the same whole unit
                near = lambda x, y: ctx.And(ctx.le(x - y, 1), ctx.le(y - x, 1))
                ctx.require(ctx.And(near(loc[x.time_model_id], loc[old.time_model_id]), near(loc[x.repair_time_model_id], loc[old.repair_time_model_id])), "a resource's breakdowns keep their times", f"{r.ID} {i} -> {x.ID}")
    ctx.cover("alike")


def scenarios(tier):
    out = []
    ops = ["added machine", "removed machine", "moved", "policy", "added module", "removed module", "nothing"]

    def two(ctx, **k):
        st = {**P.STATES, **P.CHARGE}
        return P.build(
            {"M1": {"procs": ["P1"], "states": ["S12", "S21"]}, "M2": {"procs": ["P2", "P3"], "states": ["S12", "S21", "S23"]}},
            transports={"T": {"procs": ["TP"], "states": ["CH"]}}, states=st, **k)

    def named(ctx):
        return P.build(
            {"M1": {"procs": ["P1"], "states": ["S12", "S21", "BSM", "BSP_P1"]}, "M2": {"procs": ["P1", "P2"], "states": ["S12", "S21", "S23", "BSM", "BSP_P1"]}},
            transports={"T": {"procs": ["TP"], "states": ["CH", "BST"]}}, states={**P.STATES, **P.CHARGE, **P.NAMED}, scn=P.scenario(["production_capacity"]))

    def comp(ctx):
        part = ctx.choice(2, "part of the compound") == 1
        return P.build(
            {"M1": {"procs": ["P1"] if part else ["P1", "P2"]}, "M2": {"procs": ["P3"]}},
            compound={"C": ["P1", "P2"]}, scn=P.scenario(["production_capacity"]))

    def off(ctx):
        # the current policies are not among the options
        ad = P.build({"M1": {"procs": ["P1"], "policy": "SPT"}}, transports={"T": {"procs": ["TP"], "policy": "SPT_transport"}},
                     scn=P.scenario(["sequencing_logic", "routing_logic"], tpolicies=("FIFO", "Nearest_origin_and_longest_target_queues_transport"), heuristics=("random", "shortest_queue")))
        return ad

    def few(ctx):
        return P.build({"M1": {"procs": ["P1"]}, "M2": {"procs": ["P2"]}}, scn=P.scenario(["production_capacity", "layout", "transport_capacity"], positions=P.POS[:1]))

    def empty(ctx):
        return P.build({"M1": {"procs": []}} if ctx.bool("a machine without modules") else {}, transports={} or {"T": {"procs": ["TP"]}}, scn=P.scenario(["production_capacity", "layout", "transport_capacity"]))

    def aux(ctx):
        need = ctx.choice(3, "need")
        return P.build(
            {"M1": {"procs": ["P1"]}}, aux={"A": {"storages": ["Q1", "Q2"], "quantity": [1, 0]}, "B": {"storages": ["Q1"], "quantity": [1]}},
            stores={"Q1": {"capacity": 2, "location": [5.0, 5.0]}, "Q2": {"capacity": ctx.choice(2, "bounded"), "location": [5.0, 6.0]}},
            paux=[[], ["A"], ["A", "B"]][need], scn=P.scenario(["auxiliary_capacity"]))

    out.append(Scenario("mutate", mutate(two), ops + ["routing", "added transporter", "removed transporter", "moved module"], bounds="one mutation of two machines and a transporter; machines anywhere"))
    out.append(Scenario("mutate-breakdowns", mutate(named), ["added machine", "moved module", "added module"], bounds="one mutation, with default breakdown states and setups"))
    out.append(Scenario("mutate-compound", mutate(comp), ["added module", "removed module", "moved module"], bounds="one mutation, one compound process"))
    def kind(ctx):
        # each kind of change on its own; the current policies are on offer
        tr = sorted(ALLOWED)[ctx.choice(len(ALLOWED), "allowed")]
        return P.build({"M1": {"procs": ["P1", "P3"], "cap": 2, "pcaps": [2, 2]}, "M2": {"procs": ["P2"], "cap": 3, "pcaps": [3]}}, aux={"A": {"storages": ["Q1"], "quantity": [1]}}, stores={"Q1": {"capacity": 3, "location": [5.0, 5.0]}}, paux=["A"], scn=P.scenario([tr]))

    def kept(ctx):
        # the current policies are on offer, alone or with others
        one = ctx.bool("nothing else is on offer")
        return P.build({"M1": {"procs": ["P1"], "policy": "FIFO"}}, transports={"T": {"procs": ["TP"], "policy": "FIFO"}},
                       scn=P.scenario([["sequencing_logic", "routing_logic"][ctx.choice(2, "allowed")]], policies=("FIFO",) if one else ("FIFO", "SPT"), tpolicies=("FIFO",) if one else ("FIFO", "SPT_transport"), heuristics=("shortest_queue",) if one else ("shortest_queue", "random")))

    out.append(Scenario("mutate-policies", mutate(off, honest=True), ["policy", "routing"], bounds="one mutation; the current policies are not on offer"))
    out.append(Scenario("mutate-current-policies", mutate(kept, honest=True), ["policy", "routing", "nothing"], bounds="one mutation; the current policies are on offer, alone or with one other"))
    out.append(Scenario("mutate-kinds", mutate(kind), [k for t in ALLOWED.values() for k in t], bounds="one mutation; a single kind of change allowed"))
    out.append(Scenario("mutate-one-position", mutate(few), ["nothing", "moved"], bounds="one mutation; a single position on offer"))
    out.append(Scenario("mutate-empty", mutate(empty), ["added machine", "nothing"], bounds="one mutation of a system with no machine or an empty one"))
    out.append(Scenario("mutate-auxiliaries", mutate(aux), ["auxiliary", "nothing"], bounds="one mutation of two auxiliaries that share a storage"))

    M = {
        "A": ("A", ["P1"], ["S12", "S21"]), "B": ("B", ["P2"], ["S12", "S21", "S23"]), "C": ("C", ["P1", "P3"], ["S12", "S21", "S23"]), "D": ("D", ["P3"], ["S23"]),
    }
    for a, b in [("AB", "CD"), ("ABC", "D"), ("A", "BCD"), ("ABC", "AC"), ("AB", "ABC"), ("A", "A")]:
        for ta, tb in ([("T", "T")] if a != "AB" or b != "CD" else [("TU", "T"), ("T", "UV")]):
            cov = ["all machines swapped", "machines kept"]
            out.append(Scenario(f"cross-{a}-{b}-{ta}-{tb}", cross([([M[x] for x in a], list(ta)), ([M[x] for x in b], list(tb))]), cov, bounds=f"crossover of {len(a)} and {len(b)} machines"))

    def rnd(tr, **k):
        def make(ctx):
            ad = P.build(
                {"M1": {"procs": ["P1"], "loc": P.POS[0], "states": ["S12", "S21"]}, "M2": {"procs": ["P2"], "loc": P.POS[1], "states": ["S12", "S21", "S23"]}},
                states={**P.STATES, **P.CHARGE}, transports={"T": {"procs": ["TP"], "states": ["CH"]}}, scn=P.scenario(tr, machines=2, per_machine=2, transports=2), **k)
            return ad
        return make

    st = dict(aux={"A": {"storages": ["Q1"], "quantity": [1]}}, stores={"Q1": {"capacity": 2, "location": [5.0, 5.0]}}, paux=["A"])
    out.append(Scenario("random-transport", random_conf(rnd(["transport_capacity", "routing_logic"])), ["changed"], bounds="a random configuration: transporters and routing"))
    out.append(Scenario("random-layout", random_conf(rnd(["layout", "sequencing_logic"])), ["changed"], bounds="a random configuration: layout and policies"))
    def others(tr):
        # the policies of the baseline are not on offer
        return lambda ctx: P.build({"M1": {"procs": ["P1", "P2"], "policy": "SPT", "loc": P.POS[0]}}, transports={"T": {"procs": ["TP"], "policy": "SPT_transport"}},
                                   scn=P.scenario(tr, machines=2, per_machine=2, transports=2, policies=("FIFO", "LIFO"), tpolicies=("FIFO", "Nearest_origin_and_longest_target_queues_transport"), heuristics=("random",)))

    out.append(Scenario("random-policies", random_conf(others(["sequencing_logic", "routing_logic"])), ["changed"], bounds="a random configuration: policies and heuristics, the current ones not on offer"))
    out.append(Scenario("random-transport-policies", random_conf(others(["sequencing_logic", "transport_capacity"])), ["changed"], bounds="a random configuration: transporters and policies, the current ones not on offer"))
    two_aux = dict(aux={"A": {"storages": ["Q1", "Q2"], "quantity": [1, 0]}, "B": {"storages": ["Q1"], "quantity": [1]}, "C": {"storages": ["Q2"], "quantity": [1]}},
                   stores={"Q1": {"capacity": 2, "location": [5.0, 5.0]}, "Q2": {"capacity": 3, "location": [5.0, 6.0]}}, paux=["A", "B"])
    out.append(Scenario("random-shared-storages", random_conf(rnd(["auxiliary_capacity"], **two_aux)), ["changed"], bounds="a random configuration: three auxiliaries, two required, in shared storages"))
    out.append(Scenario("default-breakdowns", defaults, ["alike", "not alike"], bounds="breakdowns of two resources with arbitrary times up to 2"))
    out.append(Scenario("random-auxiliaries", random_conf(rnd(["auxiliary_capacity", "sequencing_logic"], **st)), ["changed"], bounds="a random configuration: auxiliaries"))
    out.append(Scenario("random-production", random_conf(lambda ctx: P.build(
        {"M1": {"procs": ["P1", "P2"], "loc": P.POS[0], "states": ["S12"]}}, states=P.STATES, scn=P.scenario(["production_capacity"], machines=2, per_machine=2, positions=P.POS[:2], policies=("FIFO",)))), ["changed", "two machines"], bounds="a random configuration: up to two machines of up to two modules"))
    if tier == "thorough":
        out.append(Scenario("mutate-twice", mutate(two, 2, read=False), ["moved module"], bounds="two mutations in a row"))
        out.append(Scenario("mutate-breakdowns-twice", mutate(named, 2, read=False), ["moved module"], bounds="two mutations in a row, with breakdowns"))
    return out
