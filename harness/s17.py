"""S17: sources create their products at the declared times."""
from symx.engine import Scenario

from . import oracle as O
from . import simlib as S

ASSUMPTIONS = [
    "all gaps of schedules are arbitrary reals from 0 (where stated) or above 0 up to 10000",
    "what happens to the products afterwards does not matter: their transport takes longer than the observed time (except where a full queue holds the source)",
    "draws are fresh arbitrary numbers per call, negative ones included where stated",
]
FAR = 10**6


def system(ctx, srcs, tms, qcap=None, tt=FAR, products=None):
    """srcs: {source: (product, time model)}"""
    tms = dict(tms, tt=tt, tP=1)
    prods = products or dict.fromkeys(p for p, _ in srcs.values())
    return S.build(
        {k: v for k, v in tms.items() if not callable(v)} | {k: 1 for k, v in tms.items() if callable(v)},
        {"P": {"t": "tP"}, "TP": {"kind": "transport", "t": "tt"}},
        {"M": {"procs": ["P"], "cap": 50, "pcaps": [50]}},
        {a: {"procs": ["P"]} for a in prods},
        {i: {"product": a, "t": t, "cap": qcap or 0} for i, (a, t) in srcs.items()},
        transports={"T": {"procs": ["TP"], "cap": 50 if tt == FAR else 1}},
    )


def by_source(ctx, run, srcs):
    out = {i: [] for i in srcs}
    ids = set()
    last = 0
    for e in run.log:
        if S.act(e) != O.CREATED:
            continue
        i, p = e["Resource"], e["Product"]
        ctx.require(i in out, "products are created by sources", i)
        ctx.require(p not in ids, "every product has its own ID", p)
        ids.add(p)
        ctx.require(ctx.le(last, e["Time"]), "the log is in order of time", p)
        last = e["Time"]
        out[i].append(e["Time"])
        q = [x for x in run.r.product_factory.products + run.r.product_factory.finished_products if x.product_data.ID == p]
        ctx.require(len(q) == 1 and q[0].product_data.product_type == srcs[i][0], "a source creates products of its type", p)
    ctx.observe("created", [[i, v] for i, v in sorted(out.items())])
    return out


def same(ctx, got, want, what):
    ctx.require(len(got) == len(want), f"{what}: one product per entry", f"{len(got)} instead of {len(want)}")
    for k, (a, b) in enumerate(zip(got, want)):
        ctx.require(ctx.eq(a, b), f"{what}: created at its time", str(k))


def schedule(n, absolute=False, cyclic=0, zero=(), sources=1, shared=True, draws=None):
    """n entries; cyclic: number of creations observed; zero: indices that may be 0"""

    def fn(ctx):
        srcs, tms, want = {}, {}, {}
        for s in range(sources):
            t = 0
            if s == 0 or not shared:
                gaps = [ctx.real("gap", 0, None, i not in zero) for i in range(n)]
                entries = []
                for g in gaps:
                    t = t + g
                    entries.append(t)
                tms[f"arr{s}"] = (entries if absolute else gaps)
            i = f"src{s}"
            srcs[i] = ("AB"[s % 2] if sources > 1 else "A", "arr0" if shared else f"arr{s}")
            w, t = [], 0
            for k in range(cyclic or n):
                t = t + gaps[k % n]
                w.append(t)
            want[i] = w
        ad = system(ctx, srcs, {k: list(v) for k, v in tms.items()})
        for t in ad.time_model_data:
            if t.ID in tms:
                t.absolute, t.cyclic = absolute, bool(cyclic)
        total = sum(len(w) for w in want.values())

        def done(r):
            c = {}
            for e in r.log:
                if S.act(e) == O.CREATED:
                    c[e["Resource"]] = c.get(e["Resource"], 0) + 1
            return all(c.get(i, 0) >= len(w) for i, w in want.items())

        late = lambda r: ctx.lt(FAR // 2, r.env.peek())
        run = S.Run(ctx, ad).go(until=done if cyclic else late)
        got = by_source(ctx, run, srcs)
        if cyclic:
            ctx.require(run.ended == "until", "a cyclic schedule goes on", run.ended)
            got = {i: v[: len(want[i])] for i, v in got.items()}
            ctx.cover("the schedule is repeated", cyclic > n)
        for i in srcs:
            same(ctx, got[i], want[i], "schedule")
        if zero:
            ctx.cover("two products at one time", ctx.Or(*[ctx.eq(g, 0) for g in gaps]))

    return fn


def drawn(n, sources, kind, neg=False):
    """each source has its own function time model; consecutive draws are the gaps"""

    def fn(ctx):
        srcs, tms = {}, {}
        for s in range(sources):
            srcs[f"src{s}"] = ("AB"[s % 2], f"arr{s}")
            tms[f"arr{s}"] = 1
        ad = system(ctx, srcs, tms)
        for t in ad.time_model_data:
            if t.ID.startswith("arr"):
                t.distribution_function, t.location, t.scale = kind, 5, 2
                t.batch_size = 2
        rec = []
        import numpy as np

        names = {"normal": "normal", "exponential": "exponential", "lognormal": "lognormal"}
        import prodsys.util.statistical_functions as sf

        f0 = getattr(np.random, names[kind])

        def draw(*a, **k):
            v = f0(*a, **k)
            for x in v:
                ctx.assume(ctx.And(ctx.le(-10000, x), ctx.le(x, 10000)))
            rec.append(list(v))
            return v

        saved = {}
        for m in (np.random, sf):
            if hasattr(m, names[kind]):
                saved[m] = getattr(m, names[kind])
                setattr(m, names[kind], draw)
        late = lambda r: len([e for e in r.log if S.act(e) == O.CREATED]) >= n
        try:
            run = S.Run(ctx, ad).go(until=late)
        finally:
            for m, f in saved.items():
                setattr(m, names[kind], f)
        got = by_source(ctx, run, srcs)
        left = [v for b in rec for v in b]
        used = 0
        for i in srcs:
            t = 0
            for x in got[i]:
                g, t = x - t, x
                used += 1
                hit = next((v for v in left if same_number(g, v)), None)
                if hit is None and neg:
                    # a negative draw is replaced by some positive gap
                    ctx.require(ctx.lt(0, g), "time does not go backwards", i)
                    hit = next((v for v in left if ctx.lt(v, 0)), None)
                ctx.require(hit is not None, "a gap is a number drawn for it", f"{i} {g!r}")
                left = [v for v in left if v is not hit]
        ctx.require(used >= n, "the source goes on", f"{used} {run.ended}")

    return fn


def same_number(a, b):
    d = a - b
    return d.is_zero() if isinstance(d, S.SymReal) else abs(d) < 1e-9


def blocked(n):
    """a queue of length one before the source: the next gap starts when the product has been placed"""

    def fn(ctx):
        gaps = [ctx.real("gap", 0, None, True) for _ in range(n)]
        tt = ctx.real("tt", 0, None, True)
        ad = system(ctx, {"src0": ("A", "arr0")}, {"arr0": list(gaps)}, qcap=1, tt=tt)
        run = S.Run(ctx, ad).go()
        got = by_source(ctx, run, {"src0": ("A", "arr0")})["src0"]
        ctx.require(len(got) == n, "a held source goes on", str(len(got)))
        if len(got) < n:
            return
        # a product leaves the queue when its loaded trip starts
        left = {}
        for o in O.ops(ctx, run.log):
            if o.kind == "Transport" and not o.empty and o.product not in left:
                left[o.product] = o.start
        # a product enters the system when it is placed
        placed = 0
        for k in range(n):
            due = placed + gaps[k]
            prev = left.get(f"A_{k-1}") if k else 0
            ctx.require(prev is not None, "a product leaves before the next is placed", str(k))
            if prev is None:
                return
            placed = ctx.Max(due, prev)
            ctx.cover("the source is held", ctx.lt(due, prev))
            ctx.require(ctx.eq(got[k], placed), "a product enters when there is room; then the next gap starts", str(k))

    return fn


def scenarios(tier):
    q = tier == "quick"
    n = 3 if q else 4
    return [
        Scenario("relative", schedule(n), bounds=f"{n} entries"),
        Scenario("absolute", schedule(n, absolute=True), bounds=f"{n} entries"),
        Scenario("absolute-from-0", schedule(n, absolute=True, zero=(0,)), ["two products at one time"], bounds=f"{n} entries, the first may be 0"),
        Scenario("absolute-pairs", schedule(n, absolute=True, zero=(1, 2)), ["two products at one time"], bounds=f"{n} entries, two may be equal to the one before"),
        Scenario("relative-pairs", schedule(n, zero=(0, 2)), ["two products at one time"], bounds=f"{n} gaps, two may be 0"),
        Scenario("cyclic", schedule(2, cyclic=2 * n), ["the schedule is repeated"], bounds=f"2 gaps, {2 * n} products observed"),
        Scenario("cyclic-absolute", schedule(2, cyclic=2 * n, absolute=True), ["the schedule is repeated"], bounds=f"2 times, {2 * n} products observed"),
        Scenario("two-sources", schedule(2, sources=2, shared=False), bounds="2 sources with 2 entries each"),
        Scenario("shared-schedule", schedule(2 if q else 3, sources=2), bounds="2 sources naming the same schedule of 2 / 3 entries"),
        Scenario("exponential", drawn(n, 1, "exponential"), bounds=f"{n} products, fresh draws in batches of 2"),
        Scenario("exponential-two", drawn(n, 2, "exponential"), bounds=f"2 sources, {n} products, fresh draws in batches of 2"),
        Scenario("normal", drawn(n, 1, "normal", neg=True), bounds=f"{n} products, draws may be negative"),
        Scenario("blocked", blocked(n), ["the source is held"], bounds=f"{n} products, output queue of length 1, one transporter"),
    ]
