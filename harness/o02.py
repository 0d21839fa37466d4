"""O02: a configuration is valid exactly when it keeps the scenario's limits, and it costs what was added."""
import contextlib

from symx.engine import Scenario

from . import opt as P

from prodsys.optimization import optimization as oo

ASSUMPTIONS = [
    "costs, limits, quantities, places and offsets are arbitrary numbers (costs and quantities not negative); which machines, modules and processes there are is chosen from small sets",
    "without a baseline only the cost of auxiliaries is judged (the baseline then assumed for machines is a convention of the code)",
]

KINDS = {
    "P1": ("prod", {}), "P2": ("prod", {}), "P3": ("prod", {}),
}


def costs(ctx, ad, modules="number", aux=True):
    i = ad.scenario_data.info
    c = {"m": ctx.real("cm", 0, 1000), "t": ctx.real("ct", 0, 1000)}
    i.machine_cost, i.transport_resource_cost = c["m"], c["t"]
    if modules == "number":
        c["p"] = lambda g, v=ctx.real("cp", 0, 1000): v
        i.process_module_cost = c["p"](None)
    elif modules == "table":
        tab = {"P1": ctx.real("cp1", 0, 1000), "P2": ctx.real("cp2", 0, 1000)}
        i.process_module_cost = dict(tab)
        c["p"] = lambda g: tab.get(g[0], 0)
    else:
        i.process_module_cost = None
        c["p"] = lambda g: 0
    if aux:
        c["a"] = ctx.real("ca", 0, 1000)
        i.auxiliary_cost = c["a"]
    else:
        i.auxiliary_cost = None
        c["a"] = 0
    return c


def more(x):
    return x if x > 0 else 0


def expected_cost(ad, base, c):
    gs = P.groups(ad)
    count = lambda x, g: sum(1 for m in P.machines(x) if set(g) & set(m.process_ids))
    total = more(len(P.machines(ad)) - len(P.machines(base))) * c["m"] + more(len(P.transports(ad)) - len(P.transports(base))) * c["t"]
    for g in gs:
        total = total + more(count(ad, g) - count(base, g)) * c["p"](g)
    for a, b in zip(ad.auxiliary_data, base.auxiliary_data):
        for q, r in zip(a.quantity_in_storages, b.quantity_in_storages):
            total = total + more(q - r) * c["a"]
    return total


SETS = [["P1"], ["P2", "P1"], ["P3"], ["P1", "P2", "P3"]]


def fleet(ctx, tag, most, compound=None):
    ms = {}
    for k in range(ctx.choice(most + 1, f"{tag} machines")):
        ms[f"M{k}"] = {"procs": list(SETS[ctx.choice(len(SETS), f"{tag}{k}")])}
    ts = {f"T{k}": {"procs": ["TP"]} for k in range(1 + ctx.choice(2, f"{tag} transporters"))}
    return P.build(ms, transports=ts, compound=compound)


def cost_resources(modules, most, compound=None):
    def fn(ctx):
        base, ad = fleet(ctx, "before", most, compound), fleet(ctx, "after", most, compound)
        c = costs(ctx, ad, modules)
        before = P.snap(ad), P.snap(base)
        got = oo.get_reconfiguration_cost(ad, base)
        ctx.require(ctx.eq(got, expected_cost(ad, base, c)), "the cost is that of what was added", str(got))
        ctx.require((P.snap(ad), P.snap(base)) == before, "counting the cost changes nothing", "")
        ctx.cover("more machines", len(P.machines(ad)) > len(P.machines(base)))
        ctx.cover("fewer machines", len(P.machines(ad)) < len(P.machines(base)))
        ctx.cover("more transporters", len(P.transports(ad)) > len(P.transports(base)))

    return fn


def with_aux(ctx, paux=("A",), quantities=None, kinds=("A", "B")):
    return P.build(
        {"M1": {"procs": ["P1", "P2"]}}, aux={k: {"storages": ["Q1", "Q2"], "quantity": [1, 0]} for k in kinds},
        stores={"Q1": {"capacity": 0, "location": [5.0, 5.0]}, "Q2": {"capacity": 0, "location": [5.0, 6.0]}}, paux=list(paux))


def cost_auxiliaries(ctx):
    ad, base = with_aux(ctx), with_aux(ctx)
    none = ctx.bool("no baseline")
    c = costs(ctx, ad, "none", aux=not ctx.bool("no auxiliary cost"))
    for tag, x in (("n", ad), ("b", base)):
        for a in x.auxiliary_data:
            a.quantity_in_storages = [ctx.int(f"{tag}{a.ID}{k}", 0, 5) for k in range(2)]
    if none:
        for x in (ad, base):
            x.resource_data = [r for r in x.resource_data]
        for a in base.auxiliary_data:
            a.quantity_in_storages = [0, 0]
    got = oo.get_reconfiguration_cost(ad, None if none else base)
    ctx.require(ctx.eq(got, expected_cost(ad, base, c)), "the cost is that of what was added", str(got))
    ctx.cover("a cost", got > 0)
    ctx.cover("no cost", got == 0)


def offered(ad):
    """what the resources offer: IDs and capabilities"""
    procs = {p.ID: p for p in ad.process_data}

    def inside(i):
        p = procs[i]
        return [x for q in p.process_ids for x in inside(q)] if type(p).__name__ == "CompoundProcessData" else [i]

    ids = {x for r in ad.resource_data for i in r.process_ids for x in inside(i)}
    caps = {procs[i].capability for i in ids if getattr(procs[i], "capability", None)}
    need = set()
    for p in ad.product_data:
        xs = list(p.processes) if not isinstance(p.processes, dict) else list(p.processes)
        for x in xs:
            for i in (x if isinstance(x, list) else [x]):
                need |= set(inside(i))
        need |= set(inside(p.transport_process))
    for i in need:
        c = getattr(procs[i], "capability", None)
        if (c not in caps) if c else (i not in ids):
            return False
    return True


def places(ctx, xs):
    """the places an object takes: one or more"""
    return [xs.location] + [getattr(xs, k) for k in ("input_location", "output_location") if hasattr(xs, k)]


def apart(ctx, ad):
    """no object shares a place with another; sources may share places with sources and sinks with sinks"""
    objs = [("m", m) for m in P.machines(ad)] + [("s", s) for s in ad.source_data] + [("k", k) for k in ad.sink_data]
    objs += [("q", q) for q in ad.queue_data if hasattr(q, "location")]
    ok = True
    for n, (k, a) in enumerate(objs):
        for j, b in objs[n + 1:]:
            if k == j and k in "sk":
                continue
            for x in places(ctx, a):
                for y in places(ctx, b):
                    ok = ctx.And(ok, ctx.Not(P.same_loc(ctx, x, y)))
    return ok


def offered_place(ctx, ad):
    ok = True
    for m in P.machines(ad):
        any_ = False
        for p in ad.scenario_data.options.positions:
            any_ = ctx.Or(any_, P.same_loc(ctx, m.location, p))
        ok = ctx.And(ok, any_)
    return ok


def valid(ctx, ad, base, c):
    s = ad.scenario_data
    n, t = len(P.machines(ad)), len(P.transports(ad))
    gs = P.groups(ad)
    ok = ctx.And(ctx.le(n, s.constraints.max_num_machines), ctx.le(t, s.constraints.max_num_transport_resources), t >= 1)
    for m in P.machines(ad):
        ok = ctx.And(ok, ctx.le(len([g for g in gs if set(g) & set(m.process_ids)]), s.constraints.max_num_processes_per_machine))
    wanted = {x for p in ad.product_data for x in p.auxiliaries or []}
    for a in ad.auxiliary_data:
        if a.auxiliary_type in wanted or a.ID in wanted:
            ok = ctx.And(ok, ctx.lt(0, ctx.Sum(a.quantity_in_storages)))
    ok = ctx.And(ok, offered(ad), apart(ctx, ad), offered_place(ctx, ad))
    return ctx.And(ok, ctx.le(expected_cost(ad, base, c), s.constraints.max_reconfiguration_cost))


def numbers(ad):
    out = []
    for x in P.machines(ad) + P.transports(ad) + ad.source_data + ad.sink_data + [q for q in ad.queue_data if hasattr(q, "location")]:
        for p in places(None, x):
            out += list(p)
    for p in ad.scenario_data.options.positions:
        out += list(p)
    return out


@contextlib.contextmanager
def number_fields(cls):
    """the cost may be symbolic: it is not checked for being a float when it is written down"""
    real = cls.__setattr__

    def put(self, name, value):
        if name == "reconfiguration_cost":
            self.__dict__[name] = value
        else:
            real(self, name, value)

    cls.__setattr__ = put
    try:
        yield
    finally:
        del cls.__setattr__


def judge(ctx, ad, base, c):
    ctx.hash_among(numbers(ad))
    want = valid(ctx, ad, base, c)
    before = P.snap(ad), P.snap(base)
    try:
        with number_fields(type(ad)):
            got = oo.check_valid_configuration(ad, base)
    except (TypeError, ValueError, IndexError, KeyError, AttributeError) as e:
        ctx.require(False, "every configuration is judged", f"{type(e).__name__}: {e}")
        return
    if got:
        ctx.require(want, "a configuration that is accepted keeps every limit", "")
        ctx.require(ctx.eq(ad.reconfiguration_cost, expected_cost(ad, base, c)), "an accepted configuration has its cost written down", str(ad.reconfiguration_cost))
    else:
        ctx.require(ctx.Not(want), "a configuration that keeps every limit is accepted", "")
    ctx.require((P.snap(ad), P.snap(base)) == before, "judging a configuration changes nothing", "")
    ctx.cover("valid" if got else "not valid")


def free_limits(ctx, ad, hi=4):
    c = ad.scenario_data.constraints
    c.max_num_machines, c.max_num_transport_resources, c.max_num_processes_per_machine = ctx.int("lm", 0, hi), ctx.int("lt", 0, hi), ctx.int("lp", 0, hi)
    c.max_reconfiguration_cost = ctx.real("lc", 0, 4000)


def limits(most, compound=None):
    def fn(ctx):
        base, ad = P.build({"M0": {"procs": ["P1"]}}, compound=compound), fleet(ctx, "after", most, compound)
        if ctx.bool("no transporter"):
            ad.resource_data = P.machines(ad)
        for m, p in zip(P.machines(ad), P.POS):
            m.location = list(p)
            m.input_location, m.output_location = list(p), list(p)
        c = costs(ctx, ad, "number")
        free_limits(ctx, ad)
        judge(ctx, ad, base, c)

    return fn


def positions(n, offered=None):
    def fn(ctx):
        k = {"scn": P.scenario(positions=P.POS[:offered])} if offered is not None else {}
        mk = lambda: P.build({f"M{k}": {"procs": ["P1", "P2"], "loc": list(P.POS[k])} for k in range(n)}, stores={"Q": {"capacity": 0, "location": [7.0, 7.0]}}, **k)
        ad, base = mk(), mk()
        P.place(ctx, ad, offset=False)
        judge(ctx, ad, base, costs(ctx, ad, "none"))

    return fn


def neighbours(ctx):
    """a machine and a store with sides of their own, a second machine and its sides anywhere on a line"""
    mk = lambda: P.build({f"M{k}": {"procs": ["P1", "P2"], "loc": list(P.POS[k])} for k in range(2)}, stores={"Q": {"capacity": 0, "location": [7.0, 0.0]}})
    ad, base = mk(), mk()
    a, b = P.machines(ad)
    a.location, a.input_location, a.output_location = [40.0, 0.0], [38.0, 0.0], [42.0, 0.0]
    q = next(q for q in ad.queue_data if q.ID == "Q")
    q.input_location, q.output_location = [6.0, 0.0], [8.0, 0.0]
    row = 40.0 * ctx.choice(2, "row")
    b.location, b.input_location, b.output_location = [0.0, row if row else 40.0], [ctx.real("ix", -50, 50), row], [ctx.real("ox", -50, 50), row]
    judge(ctx, ad, base, costs(ctx, ad, "none"))


def sides(ctx):
    """one machine whose sides may coincide"""
    mk = lambda: P.build({"M": {"procs": ["P1", "P2"], "loc": list(P.POS[0])}}, stores={"Q": {"capacity": 0, "location": [7.0, 7.0]}})
    ad, base = mk(), mk()
    P.place(ctx, ad)
    judge(ctx, ad, base, costs(ctx, ad, "none"))


def processes(ctx):
    """products that need processes of every kind, offered or not"""
    kinds = ["prod", "cap", "req", "compound", "compound-cap", "link", "dict", "nested"]
    kind = kinds[ctx.choice(len(kinds), "kind")]
    have = [[], ["A"], ["B"], ["A", "B"], ["D", "A"], ["C"]][ctx.choice(6, "have")]
    procs = {
        "A": {"t": "t", "kind": "cap", "capability": "x"} if "cap" in kind or kind == "req" else {"t": "t"},
        "B": {"t": "t", "kind": "cap", "capability": "y"} if "cap" in kind else {"t": "t"},
        "D": {"t": "t", "kind": "cap", "capability": "y"} if "cap" in kind else {"t": "t"},
    }
    procs["C"] = {"kind": "compound", "process_ids": ["A", "B"]}
    tp, trs = "TP", {"T": {"procs": ["TP"]}}
    need = ["A", "B"]
    if kind == "req":
        procs["R"] = {"kind": "req", "capability": "x"}
        need = ["R"]
    elif kind.startswith("compound"):
        need = ["C"]
    elif kind == "dict":
        need = {"A": ["B"], "B": []}
    elif kind == "nested":
        need = [["A", "B"], ["B"]]
    elif kind == "link":
        procs["L"] = {"kind": "link", "t": "tt", "links": [["S", "M"]], **({"capability": "l"} if ctx.bool("with capability") else {})}
        procs["TP"] = {"kind": "transport", "t": "tt"}
        tp = "L"
        trs = {"T": {"procs": [["L"], ["TP"], ["L", "TP"]][ctx.choice(3, "transporter")]}}
    mk = lambda: P.S.build({"t": 1.0, "tt": 1.0}, procs, {"M": {"procs": list(have), "loc": list(P.POS[0])}}, {"X": {"procs": need, "tp": tp}}, {"S": {"product": "X", "t": "t"}}, transports=trs)
    ad, base = mk(), mk()
    ad.scenario_data = P.scenario(per_machine=5)
    base.scenario_data = P.scenario()
    judge(ctx, ad, base, costs(ctx, ad, "none"))
    ctx.cover(f"{kind} accepted", offered(ad))


def auxiliaries(ctx):
    need = [[], ["A"], ["A", "B"]][ctx.choice(3, "need")]
    ad, base = with_aux(ctx, need), with_aux(ctx, need)
    for m in P.machines(ad):
        m.location, m.input_location, m.output_location = list(P.POS[0]), list(P.POS[0]), list(P.POS[0])
    c = costs(ctx, ad, "none")
    ad.scenario_data.info.auxiliary_cost = c["a"] = 3
    for a in ad.auxiliary_data:
        a.quantity_in_storages = [ctx.int(f"n{a.ID}{k}", 0, 5) for k in range(2)]
    ad.scenario_data.constraints.max_reconfiguration_cost = ctx.real("lc", 0, 100)
    judge(ctx, ad, base, c)


def scenarios(tier):
    big = tier == "thorough"
    v = ["valid", "not valid"]
    mm = ["more machines", "fewer machines", "more transporters"]
    comp = {"C": ["P1", "P2"]}
    return [
        Scenario("cost-number", cost_resources("number", 2 if big else 2), mm, bounds="up to two machines with any of four module sets and two transporters before and after; costs arbitrary"),
        Scenario("cost-table", cost_resources("table", 2 if big else 1), mm, bounds="up to two machines; a table of module costs / up to one machine" if big else "up to one machine; a table of module costs"),
        Scenario("cost-compound", cost_resources("number", 2 if big else 1, comp), mm, bounds="up to two machines; one compound process" if big else "up to one machine; one compound process"),
        Scenario("cost-none", cost_resources("none", 1), mm, bounds="up to one machine; no declared module cost"),
        Scenario("cost-auxiliaries", cost_auxiliaries, ["a cost", "no cost"], bounds="two auxiliaries in two storages, quantities 0-5, with and without baseline and cost"),
        Scenario("limits", limits(3), v, bounds="up to three machines, two transporters; all limits and costs arbitrary"),
        Scenario("limits-compound", limits(2, comp), v, bounds="up to two machines, one compound process; all limits and costs arbitrary"),
        Scenario("positions", positions(2), v, bounds="two machines anywhere, source, sink and store"),
        Scenario("positions-few", positions(2, 1), ["not valid"], bounds="two machines anywhere, one position on offer"),
        Scenario("positions-three", positions(3), v, bounds="three machines anywhere") if big else Scenario("one-machine", positions(1), v, bounds="one machine anywhere"),
        Scenario("sides", sides, v, bounds="a machine anywhere with input and output sides anywhere within 5"),
        Scenario("neighbours", neighbours, v, bounds="a machine whose sides are anywhere on a line beside a machine and a store with sides of their own"),
        Scenario("processes", processes, v + [f"{k} accepted" for k in ("prod", "cap", "req", "compound", "compound-cap", "link", "dict", "nested")], bounds="products that need processes of eight kinds; six sets of processes offered"),
        Scenario("auxiliaries", auxiliaries, v, bounds="two auxiliaries, quantities 0-5, none, one or both needed"),
    ]
