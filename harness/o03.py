"""O03: configurations are judged by what their simulation shows, in the direction the objectives have."""
import contextlib
import types

import numpy as np

from symx import frame
from symx.engine import Scenario

from . import opt as P
from . import o02 as V

from prodsys.optimization import optimization as oo
from prodsys.optimization import optimization_analysis as oa
from prodsys.optimization import simulated_annealing as sa
from prodsys.optimization import tabu_search as ts
from prodsys.optimization import util as ou

ASSUMPTIONS = [
    "every draw of every run is an arbitrary positive number; runs have up to three products",
    "weights are arbitrary positive numbers",
    "files the optimisers write are not looked at",
]

OBJ = {"throughput": "max", "cost": "min", "WIP": "min", "throughput_time": "min"}


@contextlib.contextmanager
def patched(obj, **kw):
    old = {k: getattr(obj, k) for k in kw}
    for k, v in kw.items():
        setattr(obj, k, v)
    try:
        yield
    finally:
        for k, v in old.items():
            setattr(obj, k, v)


def two_types(ctx, objectives, n=1, place=True):
    ad = P.S.build(
        {"t": 1.0, "tt": 1.0, "a": [1.0] * n, "b": [2.0]}, {"P1": {"t": "t"}, "P2": {"t": "t"}},
        {"M": {"procs": ["P1", "P2"], "loc": list(P.POS[0])}},
        {"X": {"procs": ["P1"]}, "Y": {"procs": ["P2"]}}, {"S": {"product": "X", "t": "a"}, "U": {"product": "Y", "t": "b"}}, transports={"T": {"procs": ["TP"], "cap": 4}},
    )
    ad.scenario_data = P.scenario(objectives=objectives, info=dict(machine_cost=1.0, transport_resource_cost=1.0, time_range=8))
    return ad


class Watch:
    """records the runs `evaluate` makes; figures come from the real log and post processor"""

    def __init__(self, ctx):
        self.ctx, self.runs, self.pps = ctx, [], []

    def __enter__(self):
        from prodsys.util import post_processing as pp
        from prodsys.util import runner as real

        me, ctx = self, self.ctx

        class Rec(real.Runner):
            def initialize_simulation(self):
                me.runs.append({"seed": self.adapter.seed, "adapter": self.adapter, "runner": self})
                return super().initialize_simulation()

            def run(self, t):
                me.runs[-1]["range"] = t
                return super().run(t)

        def make(df_raw=None, **kw):
            me.pps.append(pp.PostProcessor(df_raw=frame.column(ctx, df_raw), **kw))
            return me.pps[-1]

        self.st = contextlib.ExitStack()
        self.st.enter_context(patched(oo, runner=types.SimpleNamespace(Runner=Rec), PostProcessor=make))
        self.st.enter_context(frame.patched(ctx))
        self.st.enter_context(V.number_fields(type(self.adapter)) if getattr(self, "adapter", None) else contextlib.nullcontext())
        return self

    def __exit__(self, *a):
        self.st.close()


def figure(ctx, w, k, name):
    """what the log of run k says"""
    log = w.runs[k]["runner"].event_logger.event_data
    from . import oracle as O
    from .kpi import ptype

    born = {p: t for p, t, _ in O.created(log)}
    done = {p: t for p, t, _ in O.finished(log)}
    if name == "throughput":
        return len(done)
    if name == "throughput_time":
        if not done:
            return 100000
        kinds = sorted({ptype(p) for p in done})
        total = 0
        for a in kinds:
            mine = [done[p] - born[p] for p in done if ptype(p) == a]
            total = total + ctx.Sum(mine) / len(mine)
        return total / len(kinds)
    s = w.pps[k].df_aggregated_WIP
    return ctx.Sum([v for i, v in s.items() if i != "Total"])


def fitness(names, seeds, free):
    def fn(ctx):
        ad, base = two_types(ctx, names), two_types(ctx, names)
        base.resource_data = [r for r in base.resource_data if r.ID != "M"]
        ad.scenario_data.info.machine_cost = base.scenario_data.info.machine_cost = ctx.real("cm", 0, 100)
        n = [0]

        def draw(o, t):
            n[0] += 1
            return ctx.real(f"d{n[0]}", 0, 20, True) if n[0] in free else 1.0

        w = Watch(ctx)
        w.adapter = ad
        with w, P.S.Draws({"t": draw}):
            got = oo.evaluate(base, {"hashes": {}, "current_generation": "0"}, {"0": {}}, seeds, "", [ad])
        ctx.require([r["seed"] for r in w.runs] == list(range(seeds)), "one run per seed, each with its seed", str([r["seed"] for r in w.runs]))
        ctx.require(all(r["adapter"] is ad and r["range"] == 8 for r in w.runs), "the configuration itself runs for the declared time", "")
        ctx.require(len(got) == len(names), "one value per objective", str(got))
        with frame.patched(ctx):
            for i, name in enumerate(names):
                if name == "cost":
                    c = {"m": ad.scenario_data.info.machine_cost, "t": 1.0, "p": lambda g: 0, "a": 0}
                    want = V.expected_cost(ad, base, c)
                    ctx.require(ctx.eq(got[i], want), "the cost is the cost of the change", str(got[i]))
                    continue
                xs = [figure(ctx, w, k, name) for k in range(seeds)]
                ctx.require(ctx.eq(got[i] * seeds, ctx.Sum(xs)), f"the value of an objective is the mean of its figure over the runs, in the order of the objectives", f"{name} {got[i]}")
        done = [figure(ctx, w, k, "throughput") for k in range(seeds)]
        ctx.cover("everything finished", all(d == 2 for d in done))
        ctx.cover("not everything finished", any(d < 2 for d in done))
        ctx.cover("nothing finished", not any(done))

    return fn


def weights(ctx):
    names = list(OBJ)
    k = 1 + ctx.choice(3, "objectives")
    order = []
    for j in range(k):
        order.append(names.pop(ctx.choice(len(names), f"objective {j}")))
    ad = two_types(ctx, order)
    ws = []
    for o in ad.scenario_data.objectives:
        o.weight = ctx.real("w", 0, 100, True)
        ws.append(o.weight)
    for d, flip in (("max", "min"), ("min", "max")):
        got = ou.get_weights(ad, d)
        ctx.require(len(got) == k, "one weight per objective", str(got))
        for o, w, g in zip(order, ws, got):
            ctx.require(ctx.eq(g, -w if OBJ[o] == flip else w), "an objective's weight counts for it in its direction and against it in the other", f"{o} {d} {g}")
    # a configuration that breaks a limit
    bad = two_types(ctx, order)
    bad.scenario_data = ad.scenario_data
    bad.resource_data = P.machines(bad) if ctx.bool("no transporter") else P.transports(bad)
    w = Watch(ctx)
    with w:
        got = oo.evaluate(ad, {"hashes": {}, "current_generation": "0"}, {"0": {}}, 1, "", [bad])
    ctx.require(not w.runs, "a configuration that breaks a limit is not run", "")
    ctx.require(len(got) == k, "a configuration that breaks a limit has one value per objective", str(got))
    for g, x in zip(got, ou.get_weights(ad, "max")):
        ctx.require(ctx.eq(g * x, -100000), "a configuration that breaks a limit is worse than any other in every objective", str(g))
    ctx.cover("three objectives", k == 3)


def kept(ad):
    """what decides how a configuration behaves; resources have no names of their own"""
    sp = {s.ID: s for s in ad.state_data}
    return (
        sorted((type(r).__name__, str(r.location), str(getattr(r, "input_location", "")), str(getattr(r, "output_location", "")), r.capacity, str(r.controller), str(getattr(r.control_policy, "value", r.control_policy)),
                str(getattr(r, "batch_size", None)), str(sorted(zip(r.process_ids, r.process_capacities))), str(sorted(r.state_ids))) for r in ad.resource_data),
        [(s.ID, str(getattr(s.routing_heuristic, "value", s.routing_heuristic))) for s in ad.source_data],
        [(a.ID, list(a.quantity_in_storages)) for a in ad.auxiliary_data],
    )


def plain(batch=False):
    ad = P.build(
        {"M1": {"procs": ["P1", "P2"], "loc": list(P.POS[0]), "cap": 2, "pcaps": [2, 1], "states": ["S12"], **({"batch": 2} if batch else {})}, "M2": {"procs": ["P2"], "loc": list(P.POS[1])}},
        states={**P.STATES, **P.CHARGE, **{k: P.NAMED[k] for k in ("BSM", "BST")}}, aux={"A": {"storages": ["Q"], "quantity": [1]}}, stores={"Q": {"capacity": 0, "location": [5.0, 5.0]}}, paux=["A"],
        scn=P.scenario(cost=10.0**9, positions=P.POS, objectives=("throughput", "cost")))
    return ad


def changed(ctx, ad):
    """one difference of any kind, or none"""
    m1, m2 = P.machines(ad)
    t = P.transports(ad)[0]
    # the same-named members of both policies are equal strings, so they are taken from what is there
    ops = {
        "nothing": lambda: None,
        "renamed": lambda: setattr(m1, "ID", "M1b"),
        "policy": lambda: setattr(m1, "control_policy", "LIFO"),
        "policies swapped": lambda: (setattr(m1, "control_policy", "LIFO"), setattr(m2, "control_policy", "SPT")),
        "transport policy": lambda: setattr(t, "control_policy", "SPT_transport"),
        "routing": lambda: setattr(ad.source_data[0], "routing_heuristic", "random"),
        "place": lambda: [setattr(m2, k, list(P.POS[2])) for k in ("location", "input_location", "output_location")],
        "side": lambda: setattr(m2, "output_location", [41.0, 0.0]),
        "capacity": lambda: setattr(m1, "capacity", 3),
        "process capacities": lambda: setattr(m1, "process_capacities", [1, 2]),
        "another process of the same time": lambda: m2.process_ids.__setitem__(0, "P1"),
        "one process more": lambda: (m2.process_ids.append("P1"), m2.process_capacities.append(1)),
        "state": lambda: m1.state_ids.append("BSM"),
        "transport state": lambda: t.state_ids.append("CH"),
        "auxiliaries": lambda: setattr(ad.auxiliary_data[0], "quantity_in_storages", [2]),
        "batch": lambda: setattr(m1, "batch_size", 1),
        "a machine more": lambda: ad.resource_data.append(m2.model_copy(deep=True, update={"ID": "M3", "input_queues": ["S_q"], "output_queues": ["S_q"]})),
        "a transporter more": lambda: ad.resource_data.append(t.model_copy(deep=True, update={"ID": "T2"})),
    }
    k = list(ops)[ctx.choice(len(ops), "difference")]
    ops[k]()
    return k


def cached(ctx):
    batch = ctx.bool("batch machine")
    a, b, base = plain(batch), plain(batch), plain(batch)
    a.ID, b.ID = "A1", "B1"
    ka, kb = changed(ctx, a), changed(ctx, b)
    sol, perf = {"current_generation": "0", "hashes": {}}, {"0": {}}
    ran = []

    class Run:
        def __init__(self, adapter):
            self.adapter, self.event_logger = adapter, types.SimpleNamespace(get_data_as_dataframe=lambda: None)

        def initialize_simulation(self):
            ran.append(self.adapter)

        def run(self, t):
            pass

    va, vb = ctx.real("va", 0, 100), ctx.real("vb", 0, 100)
    figs = {oo.performance_indicators.KPIEnum.THROUGHPUT: lambda p: va if ran[-1] is a else vb}
    with patched(oo, runner=types.SimpleNamespace(Runner=Run), PostProcessor=lambda df_raw: None, KPI_function_dict=figs, check_valid_configuration=lambda *x: True), \
         patched(ou.adapters, JsonProductionSystemAdapter=types.SimpleNamespace(model_validate=lambda x: types.SimpleNamespace(write_data=lambda f: None))):
        fa = oo.evaluate(base, sol, perf, 1, "", [a])
        ou.document_individual(sol, "", [a])
        perf["0"][a.ID] = {"fitness": list(fa)}
        sol["current_generation"] = "1"
        perf["1"] = {}
        fb = oo.evaluate(base, sol, perf, 1, "", [b])
        ou.document_individual(sol, "", [b])
        perf["1"][b.ID] = {"fitness": list(fb)}
        again = oo.evaluate(base, sol, perf, 1, "", [a])
    same = kept(a) == kept(b)
    ctx.require(ctx.eq(fa[0], va), "the value of a configuration is that of its run", "")
    ctx.require(same or len(ran) >= 2, "a configuration that differs from those judged before is run", f"{ka} / {kb}")
    ctx.require(ctx.eq(fb[0], va if same and len(ran) == 1 else vb), "the value of a configuration is that of its run or of one that behaves alike", f"{ka} / {kb}")
    ctx.require(ctx.eq(again[0], va), "a configuration keeps its value", "")
    ctx.cover("known", same and len(ran) == 1)
    ctx.cover("run again", len(ran) > 1)


class Captured(Exception):
    pass


def optimiser(ctx, kind, ad, first):
    """the optimiser as it is when its search starts"""
    got = []
    quiet = dict(document_individual=lambda *x: None, float=lambda x: x, json=types.SimpleNamespace(dump=lambda *x: None), open=lambda *x: contextlib.nullcontext(None), print=lambda *x: None, set_seed=lambda s: got.append(("seed", s)))

    def stop(self, *x, **k):
        got.append(self)
        raise Captured()

    if kind == "annealing":
        hp = sa.SimulatedAnnealingHyperparameters(number_of_seeds=2, seed=5, steps=7)
        ctxs = [globals_of(sa, **quiet), patched(sa.ProductionSystemOptimization, anneal=stop)]
        go = lambda: sa.simulated_annealing_optimization(ad, hp, "x", first)
    else:
        hp = ts.TabuSearchHyperparameters(number_of_seeds=2, seed=5, tabu_size=3, max_steps=7)
        ctxs = [globals_of(ts, **quiet), patched(ts.TabuSearch, run=stop)]
        go = lambda: ts.tabu_search_optimization(ad, hp, "x", first)
    with contextlib.ExitStack() as st:
        for c in ctxs:
            st.enter_context(c)
        try:
            go()
        except Captured:
            pass
    ctx.require(("seed", 5) in got, "an optimiser seeds its random choices with the declared seed", str(got[:1]))
    return got[-1], quiet


def search(kind):
    """annealing: lower energy for what is better; tabu search: higher score"""

    def fn(ctx):
        order = [["throughput", "cost"], ["cost", "throughput_time"], ["WIP"]][ctx.choice(3, "objectives")]
        ad, first = two_types(ctx, order), two_types(ctx, order)
        first.ID = "first"
        for o in ad.scenario_data.objectives:
            o.weight = ctx.real("w", 0, 10, True)
        none = ctx.bool("no initial solution")
        opt, quiet = optimiser(ctx, kind, ad, None if none else first)
        start = opt.state if kind == "annealing" else opt.initial_state
        ctx.require(start is not None and start is not ad and kept(start) == kept(first), "the search starts from the initial solution, or else from a copy of the base configuration", str(start)[:60])
        mod = sa if kind == "annealing" else ts
        vals, out, seen = {}, [], []
        for n in ("A", "B"):
            b = two_types(ctx, order)
            b.ID = n
            vals[n] = [ctx.real(f"{n}{i}", 0, 100) for i in range(len(order))]
            ev = lambda **k: (seen.append(k), list(vals[n]))[1]
            with globals_of(mod, evaluate=ev, **quiet):
                if kind == "annealing":
                    opt.state = b
                    out.append(-opt.energy())
                else:
                    out.append(opt._score(b))
            k = seen[-1]
            ctx.require(k["individual"][0] is b and k["number_of_seeds"] == 2 and k["base_scenario"] is ad, "the search judges its states with the declared number of seeds against the base configuration", "")
            rec = k["performances"]["0"].get(n)
            ctx.require(rec is not None and len(rec["fitness"]) == len(order) and ctx.And(*[ctx.eq(x, y) for x, y in zip(rec["fitness"], vals[n])]), "the values of a state are written down", "")
        better = lambda i: vals["A"][i] > vals["B"][i] if OBJ[order[i]] == "max" else vals["A"][i] < vals["B"][i]
        if all(better(i) for i in range(len(order))):
            ctx.require(out[0] > out[1], "a state better in every objective is preferred", "")
            ctx.cover("better")
        if len(order) == 1 and not better(0):
            ctx.require(out[1] >= out[0], "a state that is not better is not preferred", "")
        # a step of the search
        made = []

        def mutate(individual=None):
            c = two_types(ctx, order)
            c.ID = f"m{len(made)}"
            made.append((individual[0], c))
            return ([c],)

        fine = {}

        def check(configuration=None, base_configuration=None, **k):
            ctx.require(base_configuration is ad, "neighbours are judged against the base configuration", "")
            if configuration.ID not in fine:
                fine[configuration.ID] = len(made) % 3 != 2 if len(made) > 2 else ctx.bool("valid")
            return fine[configuration.ID]

        here = two_types(ctx, order)
        here.ID = "here"
        before = here.model_dump_json()
        with globals_of(mod, mutation=mutate, check_valid_configuration=check, **quiet):
            if kind == "annealing":
                opt.state = here
                opt.move()
                new = [opt.state]
            else:
                opt.current = here
                new = opt._neighborhood()
        ctx.require(here.model_dump_json() == before and all(o is not here for o, _ in made), "a state is not changed while its neighbours are made", "")
        ctx.require(all(o.ID == "here" for o, _ in made), "neighbours are made from the current state", "")
        ctx.require(new and all(fine.get(c.ID) for c in new), "only valid neighbours are taken", str([c.ID for c in new]))
        ctx.require(len({c.ID for c in new}) == len(new), "neighbours are different", "")
        ctx.cover("an invalid neighbour", not all(fine.values()))

    return fn


@contextlib.contextmanager
def globals_of(mod, **new):
    old = {k: mod.__dict__.get(k) for k in new}
    had = {k for k in new if k in mod.__dict__}
    mod.__dict__.update(new)
    try:
        yield
    finally:
        for k in new:
            if k in had:
                mod.__dict__[k] = old[k]
            else:
                del mod.__dict__[k]


def tabu(steps, width, size, limit):
    def fn(ctx):
        seen = {}
        n = [0]

        class T(ts.TabuSearch):
            def _score(self, s):
                if s not in seen:
                    seen[s] = ctx.real(f"s{s}", 0, 10)
                return seen[s]

            def _neighborhood(self):
                out = []
                for k in range(width):
                    n[0] += 1
                    # a new state or one met before
                    out.append(n[0] if k or not seen or not ctx.bool("known") else sorted(seen)[ctx.choice(len(seen), "which")])
                return out

        top = ctx.real("enough", 0, 10) if limit else None
        t = T(0, size, steps)
        t.max_score = top
        with globals_of(ts, print=lambda *a: None):
            best, score = t.run(verbose=False)
        for s, v in seen.items():
            ctx.require(ctx.le(v, score), "tabu search ends with the best state it met", f"{s}: {v} > {score}")
        ctx.require(ctx.eq(seen[best], score), "tabu search returns the score of the state it returns", "")
        ctx.require(t.cur_steps <= steps, "tabu search makes no more steps than declared", str(t.cur_steps))
        if t.cur_steps < steps and limit:
            ctx.cover("enough", score > top)
        ctx.cover("known state", len(seen) < n[0] + 1)

    return fn


def pareto(which, n, k):
    def fn(ctx):
        pts = [[ctx.real(f"p{i}{j}", 0, 10) for j in range(k)] for i in range(n)]
        a = np.empty((n, k), dtype=object)
        for i in range(n):
            for j in range(k):
                a[i, j] = pts[i][j]
        got = [bool(x) for x in getattr(oa, which)(a)]
        ctx.require(len(got) == n, "one answer per point", str(got))
        dom = lambda x, y: ctx.And(*[ctx.le(u, v) for u, v in zip(x, y)], ctx.Or(*[ctx.lt(u, v) for u, v in zip(x, y)]))
        same = lambda x, y: ctx.And(*[ctx.eq(u, v) for u, v in zip(x, y)])
        for i in range(n):
            if got[i]:
                for j in range(n):
                    if j != i:
                        ctx.require(ctx.Not(dom(pts[j], pts[i])), "no efficient point is dominated", f"{i} by {j}")
            else:
                ctx.require(ctx.Or(*[ctx.Or(dom(pts[j], pts[i]), same(pts[j], pts[i])) for j in range(n) if j != i and got[j]]), "a point that is left out is dominated by or equal to one that is kept", f"{i}")
        ctx.cover("all", all(got))
        ctx.cover("one", sum(got) == 1)

    return fn


def scenarios(tier):
    q = tier == "quick"
    return [
        Scenario("fitness", fitness(["throughput", "throughput_time"], 2, {1, 2, 3} if q else {1, 2, 3, 4}), ["everything finished", "not everything finished"], bounds="two seeds, one product of each of two types, three (four) free process times"),
        Scenario("fitness-wip", fitness(["cost", "WIP", "throughput"], 1, {1, 2}), ["everything finished", "not everything finished", "nothing finished"], bounds="one seed, two free process times; cost and work in progress"),
        Scenario("weights", weights, ["three objectives"], bounds="up to three objectives in any order, any weights; configurations without transporter or machines"),
        Scenario("cached", cached, ["known", "run again"], bounds="two configurations, each with one of 18 differences"),
        Scenario("annealing", search("annealing"), ["better", "an invalid neighbour"], bounds="two states, up to two objectives, any values and weights; one step"),
        Scenario("tabu-score", search("tabu"), ["better", "an invalid neighbour"], bounds="two states, up to two objectives, any values and weights; one neighbourhood"),
        Scenario("tabu", tabu(3 if q else 4, 2, 2, False), ["known state"], bounds="three (four) steps, two neighbours each, new or met before"),
        Scenario("tabu-enough", tabu(2 if q else 3, 2, 1, True), ["enough"], bounds="two (three) steps with a score that is enough"),
        Scenario("pareto", pareto("is_pareto_efficient", 3 if q else 4, 2), ["all", "one"], bounds="three (four) points with two costs"),
        Scenario("pareto-simple", pareto("is_pareto_efficient_simple", 3 if q else 4, 2), ["all", "one"], bounds="three (four) points with two costs"),
        Scenario("pareto-three-costs", pareto("is_pareto_efficient", 3, 3 if not q else 2), ["all", "one"], bounds="three points with three costs (thorough)"),
    ]
