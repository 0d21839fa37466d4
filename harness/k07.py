"""K07: a warm-up cut-off discards the products created before the cut-off time, and nothing else."""
import pandas as pd

from symx.engine import Scenario

from . import kpi
from . import simlib as S  # noqa: F401  (imports the code under test)

ASSUMPTIONS = [
    "the event log given to the post processor holds creations and completions only (symbolic times)",
    "static ratio and threshold stabilisation; MSER-5 with 4 products, fewer than one batch (standard errors are outside)",
]


def frame(items):
    """items: (product, created, finished)"""
    from prodsys.simulation import state as st

    rows = []
    for p, c, f in items:
        a = kpi.ptype(p)
        for t, r, k, act in ((c, "src" + a, st.StateTypeEnum.source, "created product"), (f, "K_" + a, st.StateTypeEnum.sink, "finished product")):
            rows.append({"Time": t, "Resource": r, "State": r, "State Type": k, "Activity": act, "Expected End Time": None, "Product": p, "Origin location": None, "Target location": None, "Empty Transport": None})
    df = pd.DataFrame(rows)
    df["Activity"] = df["Activity"].astype("string")
    return df


def check(ctx, items, method, exact=None):
    full = kpi.Pack(ctx, df=frame(items))
    cut = kpi.Pack(ctx, df=frame(items), warm_up_cutoff=True, cut_off_method=method)
    born = {p: c for p, c, _ in items}
    done = {p: f for p, _, f in items}
    types = sorted({kpi.ptype(p) for p in born})
    kept = [x["Product"] for _, x in cut.get("df_throughput_with_warum_up_cutoff").iterrows()]
    ctx.require(len(set(kept)) == len(kept) and set(kept) <= set(born) and bool(kept), "only finished products are kept", "")
    gone = [p for p in born if p not in kept]
    for p in gone:
        for k in kept:
            ctx.require(ctx.lt(born[p], born[k]), "a product is only discarded before all that are kept", f"{p} {k}")
    t = cut.get("warm_up_cutoff_time")
    if gone:
        ctx.require(ctx.eq(t, ctx.Min(*[born[k] for k in kept])), "the cut-off time is the creation of the first product kept", "")
        ctx.cover("products are discarded")
    else:
        ctx.require(ctx.eq(t, 0), "nothing is discarded before time 0", "")
        ctx.cover("nothing is discarded")
    for a in types:
        ctx.require(any(kpi.ptype(p) == a for p in kept), "every type keeps products", a)
    if exact is not None:
        exact(ctx, born, kept, gone)
    # the figures are those of the products kept
    for pk, ps in ((cut, kept), (full, list(born))):
        tpt = {i.product_type: i.value for i in pk.get("aggregated_throughput_time_KPIs")}
        out = {(i.name.value, i.product_type): i.value for i in pk.get("throughput_and_output_KPIs")}
        first, last = ctx.Min(*[born[p] for p in ps]), ctx.Max(*[done[p] for p in ps])
        for a in types:
            mine = [p for p in ps if kpi.ptype(p) == a]
            ctx.require(ctx.eq(out.get(("output", a), -1), len(mine)), "the output counts the products kept", a)
            if mine:
                ctx.require(ctx.eq(tpt[a] * len(mine), ctx.Sum(done[p] - born[p] for p in mine)), "the throughput time is that of the products kept", a)
                ctx.require(ctx.eq(out[("throughput", a)] * (last - first), len(mine)), "the throughput is that of the products kept", a)
    ctx.observe("kept", sorted(kept))


def ratio(ctx, born, kept, gone):
    """15 % of the products of each type, the earliest cut counts for all types"""
    types = sorted({kpi.ptype(p) for p in born})
    cuts, lasts = [], []
    for a in types:
        mine = sorted((p for p in born if kpi.ptype(p) == a), key=lambda p: int(p.rsplit("_", 1)[1]))
        cuts.append(born[mine[int(len(mine) * 0.15)]])
        lasts.append(born[mine[-1]])
    t = ctx.Min(*cuts)
    ok = ctx.And(*[ctx.le(t, x) for x in lasts])
    for p in born:
        ctx.require(ctx.Implies(ok, ctx.eq(1 if p in kept else 0, ctx.Ite(ctx.le(t, born[p]), 1, 0))), "static ratio: the first 15 % of the products are discarded", p)


def scenarios(tier):
    q = tier == "quick"

    def one(n, method, exact=None, covers=(), free=2):
        def fn(ctx):
            t, items = 0, []
            for i in range(n):
                g = ctx.real("gap", 0, None, True) if i < free else 1
                d = ctx.real("dur", 0, None, True) if i in (0, n - 1) else 2
                t = t + g
                items.append((f"A_{i}", t, t + d))
            check(ctx, items, method, exact)

        return Scenario(f"{method}-{n}", fn, covers, bounds=f"{n} products of one type, {free} gaps and 2 durations free")

    def two(n, m, method, exact=None, covers=()):
        def fn(ctx):
            off = ctx.real("offset", 0, 3 if q else 10)
            d = 0.25 if q else ctx.real("dur", 0, None, True)
            items = [(f"A_{i}", 1 + i, 1 + i + d) for i in range(n)]
            items += [(f"B_{i}", 0.5 + off + i, 1 + off + i) for i in range(m)]
            check(ctx, items, method, exact)

        return Scenario(f"{method}-two-types", fn, covers, bounds=f"{n} + {m} products of two types, the second type shifted by any offset up to {3 if q else 10}{str() if q else ", one duration free"}")

    def thr(n):
        def fn(ctx):
            items = [(f"A_{i}", 1 + i, 1 + i + ctx.real("dur", 0, 100, True)) for i in range(n)]
            check(ctx, items, "threshold_stabilization")

        return Scenario(f"threshold-{n}", fn, ["nothing is discarded"] + (["products are discarded"] if n > 3 else []), bounds=f"{n} products of one type, all durations free")

    def lone(n):
        def fn(ctx):
            t = ctx.real("t", 0, n)
            items = [(f"A_{i}", 1 + i, 1.5 + i) for i in range(n)] + [("B_0", t, t + 1)]
            check(ctx, items, "static_ratio", ratio)

        return Scenario("static_ratio-lone", fn, ["products are discarded", "nothing is discarded"], bounds=f"{n} products of one type and one of another, created at any time")

    return [
        lone(7),
        one(7, "static_ratio", ratio, ["products are discarded"]),
        one(3, "static_ratio", ratio, ["nothing is discarded"]),
        two(7, 7 if q else 14, "static_ratio", ratio, ["products are discarded"]),
        thr(3 if q else 4),
        one(4, "mser5", None, ["nothing is discarded"]),
    ]
