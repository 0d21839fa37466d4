"""M01: equal hashes exactly for systems that are built alike."""
import contextlib
import hashlib
import re
import sys

from symx import num
from symx.engine import And, Scenario
from symx.num import SymReal

from . import simlib as S

from prodsys import adapters

ASSUMPTIONS = [
    "digests of different texts differ (md5 is taken to be injective)",
    "printed numbers are kept apart in the text a digest is made from (numbers run together are looked at in `digits`)",
    "processes count as alike when their times and failure rates are; the ends of links are compared by their IDs",
]


class Digests:
    """an injective digest over texts with symbolic numbers in them"""

    TOKEN = re.compile("⟦(\\d+)(?::([^⟧]*))?⟧")

    def __init__(self):
        self.numbers, self.seen = [], []

    def show(self, x, spec=""):
        for i, (y, s) in enumerate(self.numbers):
            if s == spec and y.c == x.c and y.k == x.k:
                return f"⟦{i}:{spec}⟧"
        self.numbers.append((x, spec))
        return f"⟦{len(self.numbers) - 1}:{spec}⟧"

    def digest(self, text):
        nums = [self.numbers[int(m.group(1))] for m in self.TOKEN.finditer(text)]
        skeleton = self.TOKEN.sub(lambda m: f"⟦{m.group(2)}⟧", text)
        for i, (sk, other) in enumerate(self.seen):
            if sk == skeleton and all(bool(a == b) for (a, _), (b, _) in zip(nums, other)):
                return f"{i:032x}"
        self.seen.append((skeleton, nums))
        return f"{len(self.seen) - 1:032x}"


class Hash:
    def __init__(self, d, data=b""):
        self.d, self.data = d, data

    def update(self, data):
        self.data += data

    def copy(self):
        return Hash(self.d, self.data)

    def hexdigest(self):
        return self.d.digest(self.data.decode("utf-8"))

    def digest(self):
        return bytes.fromhex(self.hexdigest())


NAMES = ("md5", "sha1", "sha224", "sha256", "sha384", "sha512", "blake2b", "blake2s", "sha3_256", "sha3_512")


@contextlib.contextmanager
def digests(ctx):
    if not ctx.symbolic:
        yield
        return
    d = Digests()
    undo = []
    for n in NAMES:
        real = getattr(hashlib, n)
        fake = lambda data=b"", **_: Hash(d, bytes(data))
        mods = [hashlib] + [m for k, m in list(sys.modules.items()) if m is not None and k.startswith("prodsys")]
        for m in mods:
            for k, v in list(vars(m).items()):
                if v is real:
                    undo.append((m, k, v))
                    setattr(m, k, fake)
    num.PRINT = d.show
    try:
        yield
    finally:
        num.PRINT = None
        for m, k, v in undo:
            setattr(m, k, v)


def system():
    f = lambda i, loc, sc=0.0, fn="normal": {"ID": i, "description": "", "distribution_function": fn, "location": loc, "scale": sc}
    d = {"ID": "S", "seed": 3}
    d["time_model_data"] = [
        f("ta", 5.0, 1.0), f("tb", 6.0, 1.0), f("tl", 1.0, 0.0, "constant"), f("tr", 9.0, 0.0, "exponential"), f("tsu", 2.5, 0.0, "constant"), f("tq", 9.5, 0.0, "exponential"),
        {"ID": "seq", "description": "", "sequence": [3.0, 4.0]},
        {"ID": "smp", "description": "", "samples": [7.0, 8.0]},
        {"ID": "sch", "description": "", "schedule": [11.0, 12.0], "absolute": True, "cyclic": False},
        {"ID": "tm", "description": "", "speed": 60.0, "reaction_time": 0.25, "metric": "manhattan"},
        {"ID": "tn", "description": "", "speed": 80.0, "reaction_time": 0.25, "metric": "manhattan"},
        {"ID": "to", "description": "", "speed": 80.0, "reaction_time": 0.75, "metric": "euclidean"},
    ]
    st = lambda i, t, tm, **k: {"ID": i, "description": "", "type": t, "time_model_id": tm, **k}
    d["state_data"] = [
        st("BD", "BreakDownState", "tr", repair_time_model_id="tl"),
        st("BE", "BreakDownState", "tq", repair_time_model_id="tl"),
        st("PBD", "ProcessBreakDownState", "tr", repair_time_model_id="tl", process_id="PA"),
        st("SU", "SetupState", "tsu", origin_setup="PA", target_setup="PB"),
        st("CH", "ChargingState", "tl", battery_time_model_id="tr"),
    ]
    pr = lambda i, t, tm, **k: {"ID": i, "description": "", "type": t, "time_model_id": tm, **k}
    d["process_data"] = [
        pr("PA", "ProductionProcesses", "ta", failure_rate=0.1),
        pr("PB", "ProductionProcesses", "tb", failure_rate=0.1),
        pr("PC", "CapabilityProcesses", "seq", capability="C", failure_rate=0.2),
        pr("PD", "ProductionProcesses", "smp", failure_rate=0.0),
        {"ID": "RC", "description": "", "type": "RequiredCapabilityProcesses", "capability": "C"},
        pr("TP", "TransportProcesses", "tm", loading_time_model_id="tl", unloading_time_model_id="tsu"),
        pr("TQ", "TransportProcesses", "tn", loading_time_model_id="tl", unloading_time_model_id="tsu"),
        pr("TR", "TransportProcesses", "to", loading_time_model_id="tl"),
        pr("LT", "LinkTransportProcesses", "tm", capability="L", links=[["N1", "M1"], ["S1", "N1"]]),
        pr("RW", "ReworkProcesses", "tb", reworked_process_ids=["PA"], blocking=True),
        {"ID": "CP", "description": "", "type": "CompoundProcesses", "process_ids": ["PA", "PB"]},
    ]
    q = lambda i, c: {"ID": i, "description": "", "capacity": c}
    d["queue_data"] = [q("QI", 2), q("QJ", 3), q("QO", 4), q("QP", 5), q("QS", 6), q("QK", 0)] + [
        {"ID": "W1", "description": "", "capacity": 20, "location": [70.0, 1.0], "input_location": [71.0, 2.0], "output_location": [72.0, 3.0]},
        {"ID": "W2", "description": "", "capacity": 30, "location": [75.0, 1.0], "input_location": [76.0, 2.0], "output_location": [77.0, 3.0]},
    ]
    d["node_data"] = [{"ID": "N1", "description": "", "location": [31.0, 32.0]}, {"ID": "N2", "description": "", "location": [33.0, 34.0]}]
    m = lambda i, x, procs, caps, states, qi, qo, c=3: {
        "ID": i, "description": "", "capacity": c, "location": [x, 1.0], "input_location": [x + 1, 2.0], "output_location": [x + 2, 3.0],
        "controller": "PipelineController", "control_policy": "FIFO", "process_ids": procs, "process_capacities": caps, "state_ids": states, "input_queues": qi, "output_queues": qo,
    }
    t = lambda i, x, procs, states, c=1: {
        "ID": i, "description": "", "capacity": c, "location": [x, 9.0], "controller": "TransportController", "control_policy": "FIFO", "process_ids": procs, "process_capacities": [c] * len(procs), "state_ids": states,
    }
    d["resource_data"] = [
        m("M1", 10.0, ["PA", "PB"], [1, 2], ["BD", "SU"], ["QI"], ["QO"]), m("M2", 20.0, ["PC", "PA"], [2, 2], ["PBD"], ["QJ"], ["QP"], 2),
        t("T1", 40.0, ["TP", "TQ"], ["CH"]), t("T2", 45.0, ["TQ"], ["BD"], 2),
    ]
    d["product_data"] = [
        {"ID": "X", "description": "", "product_type": "X", "processes": ["PA", "PB", "PD"], "transport_process": "TP"},
        {"ID": "Y", "description": "", "product_type": "Y", "processes": ["RC", "PA"], "transport_process": "TQ"},
    ]
    d["sink_data"] = [
        {"ID": f"K{i}", "description": "", "location": [90.0, 5.0 * i], "product_type": p, "input_queues": ["QK"]} for i, p in ((1, "X"), (2, "Y"))
    ]
    d["source_data"] = [
        {"ID": f"S{i}", "description": "", "location": [0.0, 5.0 * i], "product_type": p, "time_model_id": tm, "routing_heuristic": "random", "output_queues": ["QS"]}
        for i, p, tm in ((1, "X", "sch"), (2, "Y", "ta"))
    ]
    d["auxiliary_data"] = [
        {"ID": "A", "description": "", "auxiliary_type": "A", "transport_process": "TP", "storages": ["W1", "W2"], "quantity_in_storages": [3, 5], "relevant_processes": ["PA", "PB"], "relevant_transport_processes": ["TP", "TQ"]}
    ]
    return d


LISTS = ("time_model_data", "state_data", "process_data", "queue_data", "node_data", "resource_data", "product_data", "sink_data", "source_data", "auxiliary_data")
# numbers that say nothing about how the system is built or that the hash is not documented to cover
LEFT_OUT = {"batch_size"}


def fields():
    """every number of every entity: (list, index, field, position or None)"""
    ad = adapters.JsonProductionSystemAdapter(**system())
    for k in LISTS:
        for i, e in enumerate(getattr(ad, k)):
            for f in type(e).model_fields:
                v = getattr(e, f)
                if f in LEFT_OUT or isinstance(v, bool):
                    continue
                if isinstance(v, (int, float)):
                    yield k, i, f, None
                elif isinstance(v, list) and v and all(isinstance(x, (int, float)) for x in v):
                    for j in range(len(v)):
                        yield k, i, f, j


def get(ad, at):
    k, i, f, j = at
    v = getattr(getattr(ad, k)[i], f)
    return v if j is None else v[j]


def put(ad, at, x):
    k, i, f, j = at
    e = getattr(ad, k)[i]
    if j is None:
        e.__dict__[f] = x
    else:
        v = list(getattr(e, f))
        v[j] = x
        e.__dict__[f] = v


def make(ctx, d=None, whole=True):
    ad = adapters.JsonProductionSystemAdapter(**(d or system()))
    if ctx.symbolic:
        for k in LISTS:
            for i, e in enumerate(getattr(ad, k)):
                for f in type(e).model_fields:
                    v = getattr(e, f)
                    if isinstance(v, bool) or (f == "process_capacities" and not whole):
                        continue
                    if isinstance(v, (int, float)):
                        e.__dict__[f] = SymReal({}, num.norm(v))
                    elif isinstance(v, list) and v and all(type(x) in (int, float) for x in v):
                        e.__dict__[f] = [SymReal({}, num.norm(x)) for x in v]
    return ad


WHOLE = {"capacity", "process_capacities", "quantity_in_storages"}


def number(ctx, at, label):
    if at[2] in WHOLE and not (at[0] == "queue_data"):
        return ctx.int(label, 0, 1000)
    return ctx.real(label, None, None) if "location" in at[2] and at[0] != "time_model_data" else ctx.real(label, 0, 1000)


def same(ctx, a, b):
    with digests(ctx):
        return a.hash() == b.hash()


def judge(ctx, eq, alike, what, info):
    if eq:
        ctx.require(alike, f"systems of the same hash have the same {what}", info)
    else:
        ctx.require(num.Not(alike), f"systems of the same {what} have the same hash", info)


def one_number(ctx):
    """one number of the system is a in one system and b in the other"""
    fs = list(fields())
    at = fs[ctx.choice(len(fs), "field")]
    a, b = make(ctx), make(ctx)
    x, y = number(ctx, at, "a"), number(ctx, at, "b")
    put(a, at, x)
    put(b, at, y)
    eq = same(ctx, a, b)
    ctx.cover("same" if eq else "different")
    judge(ctx, eq, x == y, "numbers", str(at))


def two_numbers(ctx, reach):
    """two numbers of one entity"""
    fs = list(fields())
    pairs = [(f, g) for n, f in enumerate(fs) for g in fs[n + 1:n + 1 + reach] if f[:2] == g[:2]]
    f, g = pairs[ctx.choice(len(pairs), "fields")]
    a, b = make(ctx), make(ctx)
    vals = []
    for ad, n in ((a, "a"), (b, "b")):
        v = [number(ctx, f, n + "1"), number(ctx, g, n + "2")]
        put(ad, f, v[0])
        put(ad, g, v[1])
        vals.append(v)
    eq = same(ctx, a, b)
    ctx.cover("same" if eq else "different")
    alike = And(vals[0][0] == vals[1][0], vals[0][1] == vals[1][1])
    judge(ctx, eq, alike, "numbers", f"{f} {g}")


# ---- what refers to what
def ent(ad, i):
    for k in LISTS:
        for e in getattr(ad, k):
            if e.ID == i:
                return e
    raise KeyError(i)


def at(ad, i, f, j=None):
    for k in LISTS:
        for n, e in enumerate(getattr(ad, k)):
            if e.ID == i:
                return (k, n, f, j)


NUMBER = {"ta": "location", "tb": "location", "tl": "location", "tsu": "location", "tr": "location", "tq": "location", "tm": "speed", "tn": "speed"}


def changes():
    """(what, change of one system, the two things of which one takes the other's place)"""
    out = []

    def ref(i, f, new, pair, j=None):
        def change(ad):
            e = ent(ad, i)
            if j is None:
                e.__dict__[f] = new
            else:
                v = list(getattr(e, f))
                v[j] = new
                e.__dict__[f] = v

        out.append((f"{f} of {i}" + ("" if j is None else f" [{j}]") + f": {new}", change, pair))

    T, Q = ("ta", "tb"), "queue"
    ref("X", "processes", "PB", T, 0)
    ref("X", "processes", "PA", T, 1)
    ref("X", "processes", ["PB", "PA", "PD"], T)
    ref("Y", "processes", ["RC", "PB"], T)
    ref("X", "transport_process", "TQ", ("tm", "tn"))
    ref("Y", "transport_process", "TP", ("tm", "tn"))
    ref("S2", "time_model_id", "tb", T)
    ref("S1", "output_queues", ["QK"], ("QS", "QK"))
    ref("K1", "input_queues", ["QS"], ("QS", "QK"))
    ref("M2", "process_ids", "PB", T, 1)
    ref("M1", "process_ids", "PA", T, 1)
    ref("M1", "process_ids", ["PB", "PA"], T)
    ref("M1", "process_capacities", [2, 1], T)
    ref("T2", "process_ids", ["TP"], ("tm", "tn"))
    ref("M1", "state_ids", "BE", ("tr", "tq"), 0)
    ref("T2", "state_ids", ["BE"], ("tr", "tq"))
    ref("M1", "input_queues", ["QJ"], ("QI", "QJ"))
    ref("M2", "output_queues", ["QO"], ("QO", "QP"))
    out.append(("input and output queues of M1 change sides", lambda ad: ent(ad, "M1").__dict__.update(input_queues=["QO"], output_queues=["QI"]), ("QI", "QO")))
    ref("BD", "time_model_id", "tq", ("tr", "tq"))
    ref("BD", "repair_time_model_id", "tsu", ("tl", "tsu"))
    ref("PBD", "time_model_id", "tq", ("tr", "tq"))
    ref("PBD", "repair_time_model_id", "tsu", ("tl", "tsu"))
    ref("PBD", "process_id", "PB", T)
    ref("SU", "time_model_id", "tl", ("tl", "tsu"))
    ref("SU", "origin_setup", "PB", T)
    ref("SU", "target_setup", "PA", T)
    out.append(("origin and target of SU change sides", lambda ad: ent(ad, "SU").__dict__.update(origin_setup="PB", target_setup="PA"), T))
    ref("CH", "time_model_id", "tsu", ("tl", "tsu"))
    ref("CH", "battery_time_model_id", "tq", ("tr", "tq"))
    ref("PA", "time_model_id", "tb", T)
    ref("TP", "time_model_id", "tn", ("tm", "tn"))
    ref("LT", "time_model_id", "tn", ("tm", "tn"))
    ref("RW", "time_model_id", "ta", T)
    ref("TP", "loading_time_model_id", "tsu", ("tl", "tsu"))
    ref("TP", "unloading_time_model_id", "tl", ("tl", "tsu"))
    ref("TQ", "loading_time_model_id", None, None)
    ref("TQ", "unloading_time_model_id", None, None)
    out.append(("what is loaded by TR is unloaded", lambda ad: ent(ad, "TR").__dict__.update(loading_time_model_id=None, unloading_time_model_id="tl"), None))
    ref("CP", "process_ids", ["PA", "PA"], T)
    ref("A", "transport_process", "TQ", ("tm", "tn"))
    ref("A", "relevant_processes", ["PA"], None)
    ref("A", "relevant_transport_processes", ["TP"], None)
    ref("A", "storages", ["W1"], None)
    # one more, which may be like one that is there
    for i, f, new, pair in (
        ("M1", "state_ids", ["BD", "BE", "SU"], ("tr", "tq")), ("M1", "input_queues", ["QI", "QJ"], ("QI", "QJ")), ("S1", "output_queues", ["QS", "QK"], ("QS", "QK")), ("K1", "input_queues", ["QK", "QS"], ("QS", "QK")),
        ("X", "processes", ["PA", "PB", "PA", "PD"], T), ("A", "relevant_transport_processes", ["TP"], ("tm", "tn")), ("A", "relevant_processes", ["PA"], T), ("CP", "process_ids", ["PA"], T), ("T1", "process_ids", ["TP"], ("tm", "tn")),
    ):
        ref(i, f, new, pair + (None,))
    # things that are never alike
    for i, f, new in (
        ("X", "processes", ["PA", "PB"]), ("X", "processes", ["PA", "PB", "PD", "PD"]), ("S1", "product_type", "Y"), ("K1", "product_type", "Y"), ("S1", "routing_heuristic", "FIFO"),
        ("S1", "output_queues", ["QS", "QS"]), ("M1", "controller", "BatchController"), ("M1", "state_ids", ["SU"]), ("M1", "state_ids", ["BD"]), ("M1", "state_ids", ["BD", "SU", "PBD"]), ("T1", "state_ids", []),
        ("M2", "process_ids", ["PC"]), ("M2", "process_ids", ["PC", "RW"]), ("T1", "process_ids", ["TQ", "TQ", "TR"]),
        ("BD", "type", "SetupState"), ("PC", "capability", "D"), ("RC", "capability", "D"), ("LT", "capability", "D"), ("LT", "links", [["N1", "M1"]]), ("LT", "links", [["N1", "M1"], ["S1", "M1"]]), ("LT", "links", [["M1", "N1"], ["S1", "N1"]]),
        ("LT", "capability", None),
        ("CP", "process_ids", ["PA", "PB", "PB"]), ("CP", "process_ids", ["PA"]), ("ta", "distribution_function", "lognormal"), ("tm", "metric", "euclidean"), ("sch", "absolute", False), ("sch", "cyclic", True),
        ("seq", "sequence", [3.0, 4.0, 4.0]), ("smp", "samples", [7.0]), ("sch", "schedule", [11.0]), ("A", "auxiliary_type", "B"),
    ):
        ref(i, f, new, None)
    return out


def reference(ctx):
    """another thing takes the place of one: alike if the two are"""
    ch = changes()
    what, change, pair = ch[ctx.choice(len(ch), "change")]
    # capacities stay plain numbers here: they may be sorted as text next to alike processes
    a, b = make(ctx, whole=False), make(ctx, whole=False)
    alike = False
    if pair:
        vals = []
        for n, i in enumerate(pair[:2]):
            f = NUMBER.get(i, "capacity")
            v = ctx.real(f"v{n}", 0, 1000, strict=True)
            put(a, at(a, i, f), v)
            put(b, at(b, i, f), v)
            vals.append(v)
        alike = len(pair) == 2 and vals[0] == vals[1]
    change(b)
    eq = same(ctx, a, b)
    ctx.cover("same" if eq else "different")
    judge(ctx, eq, alike, "parts", what)


def digits(ctx):
    """numbers that run together in the text"""
    i, f, v, w = [("ta", ("location", "scale"), (1.0, 10.05), (1.01, 0.05)), ("seq", ("sequence",), ([1.0, 10.5],), ([1.01, 0.5],))][ctx.choice(2, "which")]
    ads = []
    for vals in (v, w):
        ad = adapters.JsonProductionSystemAdapter(**system())
        ent(ad, i).__dict__.update(zip(f, vals))
        ads.append(ad)
    ctx.cover("looked at")
    judge(ctx, ads[0].hash() == ads[1].hash(), False, "numbers", f"digits of {i}")


def removed(ctx):
    """a system with one thing more, which may be a second one of its kind, is another system"""
    d, e = system(), system()
    spare = [(k, n) for k in LISTS for n in range(len(d[k]))]
    k, n = spare[ctx.choice(len(spare), "thing")]
    extra = dict(e[k][n], ID="extra")
    if k == "product_data":
        extra["product_type"] = "extra"
    e[k] = e[k] + [extra]
    a, b = make(ctx, d), make(ctx, e)
    ctx.cover("different")
    judge(ctx, same(ctx, a, b), False, "parts", f"{k} {d[k][n]['ID']}")


# ---- names and orders
def renamed(d, mapping, keep):
    def walk(x, key=None):
        if isinstance(x, dict):
            return {mapping.get(k, k): walk(v, k) for k, v in x.items()}
        if isinstance(x, list):
            return [walk(v, key) for v in x]
        if isinstance(x, str) and key not in keep:
            return mapping.get(x, x)
        return x

    return walk(d)


INNER = {
    "resource_data": [("process_ids", "process_capacities"), ("state_ids",), ("input_queues",), ("output_queues",)],
    "sink_data": [("input_queues",)], "source_data": [("output_queues",)], "auxiliary_data": [("relevant_processes",), ("relevant_transport_processes",)], "process_data": [("links",)],
}


def names(ctx):
    d = system()
    mode = ["names", "description", "order", "inner", "seed", "valid"][ctx.choice(6, "mode")]
    e = system()
    linked = {x for p in d["process_data"] for l in p.get("links", []) for x in l}
    if mode == "names":
        # every thing gets a name that changes the alphabetical order; the types of products and auxiliaries stay
        ids = [x["ID"] for k in LISTS for x in d[k]]
        new = [f"z{len(ids) - n:03d}" for n in range(len(ids))]
        mapping = {i: j for i, j in zip(ids, new) if i not in linked}
        e = renamed(e, mapping, {"capability", "type", "auxiliary_type", "distribution_function", "metric", "description"})
    elif mode == "description":
        for k in LISTS:
            for n, x in enumerate(e[k]):
                x["description"] = f"other {n}"
    elif mode == "order":
        k = LISTS[ctx.choice(len(LISTS), "list")]
        r = ctx.choice(3, "how")
        e[k] = e[k][::-1] if r == 0 else e[k][1:] + e[k][:1] if r == 1 else [e[k][-1]] + e[k][:-1]
        mode = f"{mode} of {k}"
    elif mode == "inner":
        for x in (d, e):
            x["resource_data"][0]["input_queues"] = ["QI", "QJ"]
            x["resource_data"][0]["output_queues"] = ["QO", "QP"]
            x["sink_data"][0]["input_queues"] = ["QK", "QP"]
            x["source_data"][0]["output_queues"] = ["QS", "QJ"]
        opts = [(k, n, fs) for k in INNER for n in range(len(e[k])) for fs in INNER[k] if len(e[k][n].get(fs[0]) or []) > 1]
        k, n, fs = opts[ctx.choice(len(opts), "list")]
        for f in fs:
            e[k][n][f] = list(e[k][n][f])[::-1]
        mode = f"{fs[0]} of {e[k][n]['ID']}"
    elif mode == "seed":
        e["seed"] = 77
    else:
        e["valid_configuration"], e["reconfiguration_cost"] = False, 10.0
    a, b = make(ctx, d, whole=False), make(ctx, e, whole=False)
    # two times that may be alike
    vals = [ctx.real(f"v{n}", 0, 1000, strict=True) for n in range(2)]
    for ad in (a, b):
        n = [x for x in ad.time_model_data if getattr(x, "distribution_function", "") == "normal"]
        for x, v in zip(sorted(n, key=lambda x: num.norm(x.location.k) if ctx.symbolic else x.location), vals):
            x.__dict__["location"] = v
    ctx.cover("looked at")
    judge(ctx, same(ctx, a, b), True, "parts", mode)


def scenarios(tier):
    return [
        Scenario("one-number", one_number, covers=["same", "different"], bounds="every number of a system with all kinds of entities, one at a time, arbitrary in both systems"),
        Scenario("two-numbers", lambda ctx: two_numbers(ctx, 2 if tier == "quick" else 99), covers=["same", "different"], bounds="two numbers of one entity " + ("(neighbours)" if tier == "quick" else "(any two)")),
        Scenario("reference", reference, covers=["same", "different"], bounds="one thing in the place of another, whose times, speeds or capacities are arbitrary"),
        Scenario("removed", removed, covers=["different"], bounds="one thing more, of each kind"),
        Scenario("digits", digits, covers=["looked at"], bounds="two pairs of concrete numbers whose digits run together"),
        Scenario("names", names, covers=["looked at"], bounds="other names, descriptions, orders of the lists, seed; two arbitrary times"),
    ]
