"""K02: output and throughput count the finished products over the observed time."""
from symx.engine import Scenario

from . import kpi
from . import oracle as O

ASSUMPTIONS = kpi.ASSUMPTIONS


def check(ctx, run, types, method=None):
    pk = kpi.Pack(ctx, run, warm_up_cutoff=True, cut_off_method=method) if method else kpi.Pack(ctx, run)
    log = run.log
    born = {p: t for p, t, _ in O.created(log)}
    done = {p: t for p, t, _ in O.finished(log)}
    if method:
        # K07 states which products a cut-off keeps
        kept = {x["Product"] for _, x in pk.get("df_throughput_with_warum_up_cutoff").iterrows()}
        ctx.cover("a cut-off", len(kept) < len(done))
        done = {p: t for p, t in done.items() if p in kept}
    want = {}
    for p in done:
        want[kpi.ptype(p)] = want.get(kpi.ptype(p), 0) + 1
    out, thr = {}, {}
    for k in pk.get("throughput_and_output_KPIs"):
        d = out if k.name.value == "output" else thr
        ctx.require(k.product_type not in d, "one figure per type", k.product_type)
        d[k.product_type] = k.value
    ctx.require(set(out) == set(want) and set(thr) == set(want), "exactly the types with finished products are reported", f"{sorted(out)} {sorted(want)}")
    if not want:
        ctx.cover("nothing is finished")
        return
    first, last = ctx.Min(*[born[p] for p in done]), ctx.Max(*[done[p] for p in done])
    for a, n in want.items():
        if a in out:
            ctx.require(ctx.eq(out[a], n), "the output is the number of finished products", f"{a}: {out[a]} {n}")
        if a in thr:
            ctx.require(ctx.eq(thr[a] * (last - first), n), "the throughput is the output per time from the first creation to the last completion", a)
    ctx.require([int(x) for x in pk.p.get_aggregated_throughput_data()] == [want[a] for a in sorted(want)], "the optimisation reads the same outputs", "")
    ctx.cover("something happens after the last completion", ctx.lt(last, run.log[-1]["Time"]))
    ctx.cover("different outputs per type", len(set(want.values())) > 1)
    ctx.cover("a product is unfinished", len(born) > len(done))
    ctx.observe("out", [[a, out[a], thr[a]] for a in sorted(want) if a in out and a in thr])


def scenarios(tier):
    q = tier == "quick"

    def scn(name, covers=(), bounds="", method=None, **k):
        def fn(ctx):
            check(ctx, kpi.simple(ctx, **k), k.get("types", ("A",)), method)

        return Scenario(name, fn, covers, bounds=bounds)

    return [
        scn("one-type", [], "2 / 3 products of one type", n=2 if q else 3, tcap=2),
        scn("two-types", [], "one product of each of two types, one machine", n=1, types=("A", "B"), tcap=2),
        scn("stopped", ["a product is unfinished", "nothing is finished", "something happens after the last completion"], "2 products of one type and one of another, stopped after any of the first 26 events", n=2, types=("A", "B"), gaps=[[1, None], [2]], tP=2, tcap=2, stop=(4, 26)),
        scn("warm-up", ["a cut-off"], "7 products of one type, the first one is in the warm-up phase", n=7, tP="sym", gaps=[[None] + [1] * 6], method="static_ratio"),
        scn("uneven", ["different outputs per type"], "2 products of one type and one of another, fixed process time", n=2, types=("A", "B"), gaps=[[1, None], [None]], tP=2, tcap=2),
    ]
