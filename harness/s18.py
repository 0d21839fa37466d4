"""S18: time models yield times of the distribution they declare."""
import contextlib
import math
from fractions import Fraction

import numpy as np

from symx.engine import Scenario
from symx.num import SymReal, Unsupported

from . import simlib as S  # noqa: F401  (imports the code under test)

ASSUMPTIONS = [
    "numpy's samplers draw from the distribution named by their arguments; the check covers the arguments and what is done with the draws",
    "parameters are arbitrary reals up to 10000 (positive where the distribution needs it)",
]


def make(kind, ID="tm", **k):
    """the time model as the simulation builds it"""
    import prodsys.factories.time_model_factory as f
    from prodsys.models import time_model_data as d

    cls = {
        "function": d.FunctionTimeModelData, "sample": d.SampleTimeModelData, "sequence": d.SequentialTimeModelData,
        "schedule": d.ScheduledTimeModelData, "distance": d.DistanceTimeModelData, "manhattan": d.ManhattanDistanceTimeModelData,
    }[kind]
    base = {
        "function": dict(distribution_function="constant", location=1.0, scale=0.0), "sample": dict(samples=[1.0]), "sequence": dict(sequence=[1.0]),
        "schedule": dict(schedule=[1.0], absolute=False), "distance": dict(speed=1.0, reaction_time=0.0), "manhattan": dict(speed=1.0, reaction_time=0.0),
    }[kind]
    data = cls(ID=ID, description="", **base)
    for a, v in k.items():
        setattr(data, a, v)
    fac = f.TimeModelFactory()
    fac.time_models = []

    class A:
        time_model_data = [data]

    fac.create_time_models(A)
    return fac.get_time_model(ID)


class Log:
    """log of symbolic terms: an unknown per term, with the term remembered"""

    def __init__(self, ctx):
        self.ctx, self.terms, self.n = ctx, {}, 0

    def log(self, x):
        if not isinstance(x, SymReal):
            return math.log(float(x))
        for a, t in self.terms.items():
            if (t - x).is_zero():
                return SymReal.var(a)
        self.ctx.require(self.ctx.lt(0, x), "the logarithm is taken of positive numbers", "")
        self.n += 1
        # log is increasing and log(1) = 0: its sign is known
        v = self.ctx.real(f"log{self.n}", None, None, approx=True)
        self.ctx.assume(self.ctx.And(self.ctx.Implies(self.ctx.le(1, x), self.ctx.le(0, v)), self.ctx.Implies(self.ctx.lt(x, 1), self.ctx.lt(v, 0))))
        self.terms[next(iter(v.c))] = x
        return v


@contextlib.contextmanager
def samplers(ctx, calls, logs):
    """numpy samplers that record their arguments and draw arbitrary numbers"""
    import prodsys.util.statistical_functions as sf

    def rec(name, f):
        def draw(*a, **k):
            names = {"normal": ("loc", "scale", "size"), "exponential": ("scale", "size"), "lognormal": ("mean", "sigma", "size")}[name]
            args = {"loc": 0, "scale": 1, "mean": 0, "sigma": 1, "size": None} | dict(zip(names, a)) | k
            v = f(*a, **k)
            for x in (v if isinstance(v, list) else [v]):
                ctx.assume(ctx.And(ctx.le(-10000, x), ctx.le(x, 10000)))
            calls.append((name, args, list(v) if isinstance(v, list) else [v]))
            return v

        return draw

    saved = []
    for name in ("normal", "exponential", "lognormal"):
        w = None
        for m in (np.random, sf):
            if hasattr(m, name):
                saved.append((m, name, getattr(m, name)))
                w = w or rec(name, getattr(m, name))
                setattr(m, name, w)
    for m, name in ((np, "log"), (math, "log"), (math, "sqrt")):
        saved.append((m, name, getattr(m, name)))
    real_log, real_mlog = np.log, math.log
    np.log = lambda x, *a, **k: logs.log(x) if isinstance(x, SymReal) else real_log(float(x) if isinstance(x, Fraction) else x, *a, **k)
    math.log = lambda x, *a: logs.log(x) if isinstance(x, SymReal) and not a else real_mlog(x, *a)
    r = math.sqrt
    math.sqrt = lambda x: x.sqrt() if isinstance(x, SymReal) else r(x)
    try:
        yield
    finally:
        for m, n, f in saved:
            setattr(m, n, f)


def same(a, b):
    d = a - b
    return d.is_zero() if isinstance(d, SymReal) else abs(d) < 1e-9


def function(dist, n):
    def fn(ctx):
        loc = ctx.real("location", 0, None, True)
        scale = ctx.real("scale", 0, None, dist == "lognormal")
        calls, logs, ms, got = [], Log(ctx), [], []
        with samplers(ctx, calls, logs):
            for i in range(2):
                calls.append(i)
                ms.append(make("function", f"tm{i}", distribution_function=dist, location=loc + i, scale=scale, batch_size=2))
            for k in range(n):
                calls.append(k % 2)
                got.append((k % 2, ms[k % 2].get_next_time()))
        for i in range(2):
            ctx.require(ctx.eq(ms[i].get_expected_time(), loc + i), "the expected time is the location", "")
        if dist == "constant":
            for i, v in got:
                ctx.require(ctx.eq(v, loc + i), "a constant time model always gives its value", "")
            ctx.require(all(isinstance(c, int) for c in calls), "a constant time model draws nothing", repr(len(calls)))
            return
        left = {0: [], 1: []}
        for c in calls:
            if isinstance(c, int):
                i = c
                continue
            name, args, vals = c
            ctx.require(name == dist, "times are drawn from the declared distribution", name)
            if name != dist:
                return
            parameters(ctx, name, args, loc + i, scale, logs)
            left[i] += vals
        for i, v in got:
            ctx.require(ctx.le(0, v), "a time is not negative", "")
            hit = next((d for d in left[i] if same(v, d)), None)
            if hit is None and dist == "normal":
                hit = next((d for d in left[i] if ctx.lt(d, 0)), None)
                ctx.cover("a negative draw is replaced", hit is not None)
                ctx.require(hit is None or ctx.eq(v * 10, 1), "a negative draw counts as 0.1", "")
            ctx.require(hit is not None, "a time is a number drawn for it, used once", f"model {i}")
            left[i] = [d for d in left[i] if d is not hit]

    return fn


def parameters(ctx, name, args, loc, scale, logs):
    """the sampler's arguments stand for the declared distribution"""
    if name == "exponential":
        ctx.require(ctx.eq(args["scale"], loc), "exponential: the mean is the location", "")
        return
    if name == "normal":
        ctx.require(ctx.eq(args["scale"], scale), "normal: the standard deviation is the scale", "")
        ctx.require(ctx.eq(args["loc"], loc), "normal: the mean is the location", "")
        return
    mu, sg = args["mean"], args["sigma"]
    if not isinstance(mu, SymReal) and not isinstance(sg, SymReal):
        mu, sg = float(mu), float(sg)
        mean = math.exp(mu + sg * sg / 2)
        l = float(loc)
        ctx.require(abs(mean - l) <= 1e-6 * l, "lognormal: the mean is the location", f"{mean} {l}")
        var = math.expm1(sg * sg) * l * l
        ctx.require(abs(var - float(scale) ** 2) <= 1e-6 * max(1e-6, float(scale) ** 2), "lognormal: the standard deviation is the scale", f"{var} {scale}")
        return
    try:
        s2 = square(ctx, sg, logs)
        lhs, rhs = powers(s2, logs)
    except Unsupported:
        # sigma is no root of a combination of logarithms: left to the replay with numbers
        ctx.require(False, "lognormal: the standard deviation is the scale", repr(sg))
        return
    l = loc
    # exp(sigma^2) = 1 + (scale / location)^2
    ctx.require(ctx.eq(lhs * (l * l) ** lhs_pow(s2), rhs * (l * l + scale * scale) ** lhs_pow(s2)), "lognormal: the standard deviation is the scale", "")
    # exp(mu + sigma^2 / 2) = location
    t = SymReal.__add__(mu, s2 * Fraction(1, 2)) if isinstance(mu, SymReal) else s2 * Fraction(1, 2) + mu
    lhs, rhs = powers(t, logs)
    ctx.require(ctx.eq(lhs, rhs * l ** lhs_pow(t)), "lognormal: the mean is the location", "")


def lhs_pow(form):
    return math.lcm(*[Fraction(c).denominator for c in form.c.values()] or [1])


def powers(form, logs):
    """(num, den) with exp(m * form) = num / den, both products of terms"""
    if form.k or any(a not in logs.terms for a in form.c):
        raise Unsupported("not a combination of logarithms")
    m = lhs_pow(form)
    a = b = SymReal({}, 1)
    for n, c in form.c.items():
        e = int(c * m)
        for _ in range(abs(e)):
            if e > 0:
                a = a * logs.terms[n]
            else:
                b = b * logs.terms[n]
    return a, b


def square(ctx, s, logs):
    """s^2 as a combination of logarithms, for s = c * sqrt(combination)"""
    if len(s.c) != 1 or s.k:
        raise Unsupported("sigma is not a root")
    n, c = next(iter(s.c.items()))
    a = ctx.roots.get(n)
    if a is None:
        raise Unsupported("sigma is not a root")
    return a * (c * c)


def sample(kind, attr, n):
    def fn(ctx):
        vals = [ctx.real("v", 0, None) for _ in range(n)]
        tm = make(kind, **{attr: list(vals)})
        ns = []
        real = ctx.choice

        def choice(k, label="choice"):
            ns.append(k)
            return real(k, label)

        ctx.choice = choice
        try:
            got = [tm.get_next_time() for _ in range(2)]
        finally:
            del ctx.choice
        for g in got:
            ctx.require(any(same(g, v) for v in vals), "a time is an element of the sample", "")
        ctx.require(math.prod(ns) >= n ** 2, "every element of the sample can be drawn every time", repr(ns))
        ctx.require(ctx.eq(tm.get_expected_time() * n, ctx.Sum(vals)), "the expected time is the mean of the sample", "")

    return fn


def schedule(n, absolute):
    def fn(ctx):
        vals, t = [], 0
        for _ in range(n):
            g = ctx.real("g", 0, None)
            t = t + g
            vals.append(t if absolute else g)
        tm = make("schedule", schedule=list(vals), absolute=absolute)
        ctx.require(ctx.eq(tm.get_expected_time() * n, t), "the expected time is the mean gap", "")
        gaps = [vals[0]] + [vals[i] - vals[i - 1] for i in range(1, n)] if absolute else list(vals)
        for cyclic in (False, True):
            tm = make("schedule", schedule=list(vals), absolute=absolute, cyclic=cyclic)
            for g in gaps + (gaps[:2] if cyclic else []):
                ctx.require(ctx.eq(tm.get_next_time(), g), "a schedule gives the gaps between its entries, in order", "cyclic" if cyclic else "")
            if not cyclic:
                ctx.require(tm.get_next_time() < 0, "a schedule gives no times after its end", "")

    return fn


def distance(kind, metric):
    def fn(ctx):
        k = {} if kind == "manhattan" else {"metric": metric}
        v, r = ctx.real("speed", 0, None, True), ctx.real("reaction", 0, None)
        tm = make(kind, speed=v, reaction_time=r, **k)
        a = [ctx.real("x", None, None, approx=True), ctx.real("y", None, None, approx=True)]
        b = [ctx.real("x", None, None, approx=True), ctx.real("y", None, None, approx=True)]
        d1, d2 = a[0] - b[0], a[1] - b[1]
        for f in (tm.get_next_time, tm.get_expected_time):
            for o, t in ((a, b), (b, a)):
                got = f(list(o), list(t))
                if metric == "manhattan":
                    ctx.require(ctx.eq((got - r) * v, abs(d1) + abs(d2)), "a trip takes reaction time plus distance over speed", metric)
                else:
                    ctx.require(ctx.le(r, got), "a trip takes reaction time plus distance over speed", metric)
                    ctx.require(ctx.eq(((got - r) * v) * ((got - r) * v), d1 * d1 + d2 * d2), "a trip takes reaction time plus distance over speed", metric)

    return fn


def scenarios(tier):
    q = tier == "quick"
    n = 5 if q else 9
    S2 = "2 models with batches of 2 draws"
    return [
        Scenario("constant", function("constant", n), bounds=f"{n} times, {S2}"),
        Scenario("exponential", function("exponential", n), bounds=f"{n} times, {S2}"),
        Scenario("normal", function("normal", n), ["a negative draw is replaced"], bounds=f"{n} times, {S2}"),
        Scenario("lognormal", function("lognormal", n), bounds=f"{n} times, {S2}"),
        Scenario("sample", sample("sample", "samples", 3), bounds="samples of 3 elements, 2 draws"),
        Scenario("sequence", sample("sequence", "sequence", 3), bounds="sequences of 3 elements, 2 draws"),
        Scenario("schedule-relative", schedule(4, False), bounds="4 entries, once and repeated"),
        Scenario("schedule-absolute", schedule(4, True), bounds="4 entries, once and repeated"),
        Scenario("distance-manhattan", distance("distance", "manhattan"), bounds="any two positions in the plane"),
        Scenario("distance-euclidean", distance("distance", "euclidean"), bounds="any two positions in the plane"),
        Scenario("manhattan", distance("manhattan", "manhattan"), bounds="any two positions in the plane"),
    ]
