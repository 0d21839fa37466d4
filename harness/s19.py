"""S19: a run depends on its configuration and seed only, and leaves the random generators alone."""
import contextlib
import random
import sys

import numpy as np

from symx import stubs
from symx.engine import Scenario
from symx.num import SymReal

from . import oracle as O
from . import simlib as S

ASSUMPTIONS = [
    "the generators of random and numpy.random are modelled by a state that a seed determines: the n-th draw from a state is an arbitrary number or choice, the same whenever that state is reached again",
    "generator objects created by the code itself (random.Random, default_rng) are not modelled",
    "the order of a set(...) of strings is arbitrary in every run (string hashing differs between sessions); set literals and comprehensions are not modelled",
    "times drawn are arbitrary reals from 1 to 10000",
]


class Stream:
    """one generator: what is drawn is a function of its state"""

    def __init__(self, world, name):
        self.w, self.name = world, name
        self.token, self.pos = ("outside", 0), 0
        self.drawn = []
        self.tokens = set()

    def _key(self, *k):
        self.tokens.add(self.token)
        key = (self.name, self.token, self.pos, *k)
        self.pos += 1
        return key

    def choice(self, n, label="choice"):
        key = self._key("c", n)
        if key not in self.w.cache:
            self.w.cache[key] = self.w.ctx.choice(n, label)
        return self.w.cache[key]

    def real(self, label="x", lo=0, hi=None, strict=False, approx=False):
        key = self._key("r", label)
        if key not in self.w.cache:
            lo, hi = (1, 10000) if label == "draw" else (lo, hi)
            self.w.cache[key] = self.w.ctx.real(label, lo, hi, strict)
        return self.w.cache[key]

    def seed(self, x=None, *a):
        self.w.fresh += 1
        self.token, self.pos = (("seed", x) if x is not None else ("fresh", self.w.fresh)), 0

    def get(self, *a):
        return (self.token, self.pos)

    def set(self, s):
        self.token, self.pos = s


class AnyOrder(set):
    """set of strings in an order the session determines"""

    world = None

    def __iter__(self):
        xs = list(super().__iter__())
        if len(xs) < 2 or not all(isinstance(x, str) for x in xs) or self.world is None:
            return iter(xs)
        xs.sort()
        return iter(self.world.permute(xs))


class World:
    def __init__(self, ctx):
        self.ctx, self.cache, self.fresh, self.session = ctx, {}, 0, 0
        self.py, self.np = Stream(self, "py"), Stream(self, "np")
        self.orders = {}

    def permute(self, xs):
        if self.session == 0:
            return xs
        key = (self.session, tuple(xs))
        if key not in self.orders:
            left, out = list(xs), []
            while left:
                out.append(left.pop(self.ctx.choice(len(left), "order")))
            self.orders[key] = out
        return self.orders[key]

    @contextlib.contextmanager
    def installed(self):
        sp, sn = stubs._Stubs(self.py), stubs._Stubs(self.np)
        saved = []

        def put(m, n, v):
            saved.append((m, n, m.__dict__.get(n, self)))
            setattr(m, n, v)

        for m, n, meth in stubs.PATCHES + (stubs._direct or []):
            if meth.startswith("uuid"):
                continue
            put(m, n, getattr(sn if meth.startswith("np_") else sp, meth))
        for m, s, names in ((random, self.py, ("seed", "getstate", "setstate")), (np.random, self.np, ("seed", "get_state", "set_state"))):
            for n, f in zip(names, (s.seed, s.get, s.set)):
                put(m, n, f)
        for name, mod in list(sys.modules.items()):
            if mod is not None and name.startswith(("prodsys.simulation", "prodsys.factories", "prodsys.util.runner")):
                put(mod, "set", AnyOrder)
        AnyOrder.world = self
        try:
            yield self
        finally:
            AnyOrder.world = None
            for m, n, v in reversed(saved):
                if v is self:
                    delattr(m, n)
                else:
                    setattr(m, n, v)

    def disturb(self, k):
        """the caller does something with the generators"""
        self.py.token, self.py.pos = ("outside", k), 0
        self.np.token, self.np.pos = ("outside", k), 0
        random.random()
        np.random.normal(0, 1, 1)


def simulate(ctx, w, ad, until, parts=1, fail=None):
    """the real Runner; obligations: generator state restored, only seeded draws"""
    before = w.py.get(), w.np.get()
    config = ad.model_dump()
    w.py.tokens, w.np.tokens = set(), set()
    r = S._runner.Runner(adapter=ad)
    try:
        r.initialize_simulation()
        ctx.require((w.py.get(), w.np.get()) == before, "building a simulation leaves the generators alone", "")
        r.run(until)
    except RuntimeError as e:
        if fail is None or str(e) != fail:
            raise
    ctx.require((w.py.get(), w.np.get()) == before, "a run leaves the generators alone", "")
    now = ad.model_dump()
    ctx.require(now == config, "a run leaves the configuration alone", repr([k for k in config if now.get(k) != config[k]]))
    for s in (w.py, w.np):
        ctx.require(all(t == ("seed", ad.seed) for t in s.tokens), "a run only draws from generators with its seed", f"{s.name} {sorted(map(str, s.tokens))}")
    return S.plain_log(r.event_logger.event_data)


def equal(ctx, a, b, what):
    ctx.require(len(a) == len(b), f"{what}: same number of events", f"{len(a)} {len(b)}")
    for x, y in zip(a, b):
        ctx.require(x[1:] == y[1:], f"{what}: same events", f"{x} {y}")
        ctx.require(ctx.eq(x[0], y[0]), f"{what}: same times", f"{x} {y}")


def system(kind, seed=0):
    """small systems that use random numbers in different places"""
    procs = {"P": {"t": "tP"}, "TP": {"kind": "transport", "t": "tt"}}
    tms = {"tP": 1, "tt": 0.25, "arr": [1.0, 0.5]}
    machines = {"M": {"procs": ["P"], "cap": 1}}
    product, states, heur = {"procs": ["P"]}, {}, "FIFO"
    if kind == "routing":
        machines["M2"] = {"procs": ["P"], "cap": 1}
        heur = "random"
    elif kind in ("edges", "graph"):
        for p in "QR":
            procs[p] = {"t": "tP"}
        machines["M"]["procs"] = ["P", "Q", "R"]
        machines["M"]["pcaps"] = [1, 1, 1]
        tms["arr"] = [1.0]
        product = {"procs": [["P", "R"], ["Q", "R"]] if kind == "edges" else {"P": ["R"], "Q": ["R"], "R": []}}
    elif kind == "rework":
        procs["P"]["failure_rate"] = 0.5
        tms["arr"] = [1.0]
        procs["RW"] = {"kind": "rework", "t": "tP", "reworked_process_ids": ["P"], "blocking": True}
        machines["M"]["procs"] = ["P", "RW"]
        machines["M"]["pcaps"] = [1, 1]
    elif kind == "breakdown":
        tms["ttf"], tms["rep"] = 1, 1
        states["B"] = {"type": "BreakDownState", "time_model_id": "ttf", "repair_time_model_id": "rep"}
        machines["M"]["states"] = ["B"]
        tms["arr"] = [1.0]
    more = {}
    if kind == "links":
        procs["TP"] = {"kind": "link", "t": "tt", "links": [["src", "n1"], ["n1", "M"], ["src", "n2"], ["n2", "M"], ["M", "K_A"]], "capability": ""}
        tms["tt"] = ("dist", 1.0, 0.5, "manhattan")
        tms["arr"] = [1.0]
        more["nodes"] = {"n1": [5.0, 5.0], "n2": [5.0, -5.0]}
        machines["M2"] = {"procs": ["P"], "cap": 1}
    if kind == "auxiliary":
        product["aux"] = ["AX"]
        more["aux"] = {"AX": {"storages": ["ST"], "quantity": [1]}}
        more["stores"] = {"ST": {"capacity": 2, "location": [1.0, 1.0]}}
    if kind == "setup":
        procs["Q"] = {"t": "tP"}
        tms["set"] = 1
        for a, b in ("PQ", "QP"):
            states[a + b] = {"type": "SetupState", "time_model_id": "set", "origin_setup": a, "target_setup": b}
        machines["M"] = {"procs": ["P", "Q"], "cap": 1, "pcaps": [1, 1], "states": ["PQ", "QP"]}
        product["procs"] = ["P", "Q", "P"]
        tms["arr"] = [1.0]
    ad = S.build(tms, procs, machines, {"A": product}, {"src": {"product": "A", "t": "arr", "heuristic": heur}}, states=states, seed=seed, **more)
    ad = ad.model_copy(deep=True)
    for t in ad.time_model_data:
        if (kind == "times" and t.ID == "tP") or (kind == "breakdown" and t.ID in ("ttf", "rep")) or (kind == "setup" and t.ID == "set"):
            t.distribution_function, t.location, t.scale, t.batch_size = {"tP": ("normal", 5, 1, 2), "ttf": ("exponential", 5, 0, 1), "rep": ("lognormal", 5, 1, 1), "set": ("normal", 2, 1, 2)}[t.ID]
    if kind == "sample":
        from prodsys.models import time_model_data as d

        ad.time_model_data = [t if t.ID != "tP" else d.SampleTimeModelData(ID="tP", description="", samples=[1.0, 2.0]) for t in ad.time_model_data]
    return ad


def twice(kind, until, other=None, reuse=False, seeds=(0, 0)):
    def fn(ctx):
        w = World(ctx)
        a = system(kind, seeds[0])
        b = a if reuse else system(kind, seeds[0])
        with w.installed():
            w.disturb(1)
            one = simulate(ctx, w, a, until)
            if other:
                w.disturb(2)
                simulate(ctx, w, system(other, 7), until)
            w.disturb(3)
            w.session = 1
            two = simulate(ctx, w, b, until)
        equal(ctx, one, two, "the same run again")
        ctx.observe("log", one)
        ctx.cover("random numbers matter", len(w.cache) > 6)

    return fn


def failing(kind, until):
    def fn(ctx):
        w = World(ctx)
        ad = system(kind)
        at = ctx.choice(3, "at")
        n = [0]

        def get(self, origin=None, target=None):
            n[0] += 1
            if n[0] > at:
                raise RuntimeError("time model failed")
            return orig(self, origin, target)

        from prodsys.simulation import time_model as tm

        orig = tm.FunctionTimeModel.get_next_time
        tm.FunctionTimeModel.get_next_time = get
        try:
            with w.installed():
                w.disturb(1)
                simulate(ctx, w, ad, until, fail="time model failed")
        finally:
            tm.FunctionTimeModel.get_next_time = orig

    return fn


def scenarios(tier):
    q = tier == "quick"
    W = ["random numbers matter"]
    t = 20
    return [
        Scenario("times", twice("times", t), bounds="normally distributed process times, run twice to time 20, arbitrary draws"),
        Scenario("sample", twice("sample", t, reuse=True), bounds="sampled process times, the same configuration object again"),
        Scenario("routing", twice("routing", t, other="times"), bounds="random routing over two machines, another run in between"),
        Scenario("graph", twice("graph", t), bounds="precedence graph of three processes"),
        Scenario("edges", twice("edges", t), bounds="process model given by edges, arbitrary order of the IDs in sets"),
        Scenario("rework", twice("rework", t), bounds="failures and rework"),
        Scenario("links", twice("links", 40, reuse=True), bounds="link transports, two machines, the same configuration object again"),
        Scenario("auxiliary", twice("auxiliary", t, reuse=True), bounds="two products share one auxiliary"),
        Scenario("setup", twice("setup", t), bounds="normally distributed setup times"),
        Scenario("breakdown", twice("breakdown", 12 if q else 2 * t), bounds="exponential times to failure and lognormal repair times"),
        Scenario("seed-5", twice("routing", t, seeds=(5, 5)), bounds="another seed"),
        Scenario("failing", failing("times", t), bounds="a time model raises at its first to third call: generator state"),
    ]
