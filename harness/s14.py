"""S14: carriers and other auxiliaries are exclusive, limited and come back."""
from symx.engine import Scenario

from . import brk, flow
from . import oracle as O
from . import simlib as S

ASSUMPTIONS = [
    "arrival gaps, process times and transport times are arbitrary positive reals up to 10000 (some fixed in the quick tier)",
    "each product type needs one type of auxiliary; auxiliaries have their own transport process",
]
USE, FREE = "started auxiliary usage", "finished auxiliary usage"


def aux(products, qty, types=None, xcap=8, ta=2, tP="sym", stores=1, gaps=None, tcap=8, steps=1, fleet=False, down=None, stcap=9, quantities=None):
    """products: type -> number of products; types: product type -> auxiliary type"""

    def fn(ctx):
        types_ = types or {p: "X" for p in products}
        tms = {"tt": 1, "ta": ctx.real("ta", 0, None, True) if ta == "sym" else ta}
        procs = {"TP": {"kind": "transport", "t": "tt"}, "TA": {"kind": "transport", "t": "ta"}}
        prods, srcs = {}, {}
        for i, (p, k) in enumerate(products.items()):
            tms["t" + p] = ctx.real("t" + p, 0, None, True) if tP == "sym" else tP
            procs["P" + p] = {"t": "t" + p}
            prods[p] = {"procs": ["P" + p] + ["R"] * (steps - 1), "aux": [types_[p]]}
            g = gaps[i] if gaps else [1 + i] + [None] * (k - 1)
            tms["arr" + p] = [ctx.real("gap" + p, 0, None, True) if x is None else x for x in g]
            srcs["src" + p] = {"product": p, "t": "arr" + p}
        if steps > 1:
            tms["tR"], procs["R"] = 2, {"t": "tR"}
        states, mst, xst = {}, [], []
        if down:
            # the machine or the transporter of the auxiliaries breaks down once
            tms["bd"], tms["rep"] = brk.upto(ctx, 1, "bd"), brk.upto(ctx, 1, "rep")
            states["BD"] = {"type": "BreakDownState", "time_model_id": "bd", "repair_time_model_id": "rep"}
            (mst if down == "machine" else xst).append("BD")
        st = {f"ST{i}": {"capacity": stcap, "location": [3.0, 3.0 + i]} for i in range(stores)}
        ax = {x: {"tp": "TA", "storages": list(st), "quantity": quantities or [qty] * stores, "tps": ["TP"]} for x in sorted(set(types_.values()))}
        n = sum(products.values())
        ms = {"M1": {"procs": ["P" + p for p in products], "cap": n, "pcaps": [n] * len(products), "states": mst}}
        if steps > 1:
            ms["M2"] = {"procs": ["R"], "cap": n, "pcaps": [n]}
        ts = {"T": {"procs": ["TP", "TA"], "cap": tcap}} if fleet else {"T": {"procs": ["TP"], "cap": tcap}, "TX": {"procs": ["TA"], "cap": xcap, "states": xst}}
        ad = S.build(tms, procs, ms, prods, srcs, transports=ts, stores=st, aux=ax, states=states)
        r = S.Run(ctx, ad, tms).go()
        ctx.observe("log", S.plain_log(r.log))
        check(ctx, r, products, types_, qty, stores, xcap, tms, prompt=not fleet, down=down, quantities=quantities or [qty] * stores)

    return fn


def check(ctx, r, products, types, qty, stores, xcap, tms, prompt=True, down=None, quantities=None):
    log = r.log
    n = sum(products.values())
    ctx.require(r.ended == "idle" and len(r.finished()) == n, "every product gets its auxiliary and is finished", f"{r.ended} {len(r.finished())}")
    ops = sorted(O.ops(ctx, log), key=lambda o: o.first)
    for x in sorted(set(types.values())):
        mine = [p for p in products if types[p] == x]
        made = [e["Product"] for e in log if O.act(e) == "created auxiliary" and e["Product"].startswith(x + "_")]
        ctx.require(len(made) == len(set(made)) == sum(quantities), "the declared quantity of auxiliaries exists", repr(made))
        home = {e["Product"]: e["Resource"] for e in log if O.act(e) == "created auxiliary"}
        uses, live = [], {}
        for i, e in enumerate(log):
            if not e["Product"].startswith(x + "_"):
                continue
            if O.act(e) == USE:
                ctx.require(e["Product"] not in live, "an auxiliary serves one product at a time", e["Product"])
                live[e["Product"]] = u = [e["Time"], None, i, None, e["Product"]]
                uses.append(u)
            elif O.act(e) == FREE:
                u = live.pop(e["Product"], None)
                ctx.require(u is not None, "an auxiliary is released only after it was used", e["Product"])
                if u:
                    u[1], u[3] = e["Time"], i
        ctx.require(not live and len(uses) == sum(products[p] for p in mine), "every product uses one auxiliary, which is released afterwards", f"{len(uses)} {live}")
        if live or len(uses) != sum(products[p] for p in mine):
            continue
        ids = [p for p, _, _ in O.created(log) if p.rsplit("_", 1)[0] in mine]
        ready = sorted([(i, t) for p, t, i in O.created(log) if p in ids])
        flow.work_conserving(ctx, [(t, u[0], u[1], u[3]) for (_, t), u in zip(ready, uses)], sum(quantities), f"auxiliary {x}")
        for (_, t), u in zip(ready, uses):
            ctx.cover("a product waits for an auxiliary", ctx.lt(t, u[0]))
        bring, back = [], []
        for u in uses:
            trips = [o for o in ops if o.product == u[4] and u[2] < o.first <= u[3]]
            load = [o for o in trips if not o.empty]
            ok = len(load) == 2 and load[0].origin == home[u[4]] and load[0].target.startswith("src") and load[1].origin.startswith("K_") and load[1].target == home[u[4]]
            ctx.require(ok, "an auxiliary is brought to the product and returned to its storage", repr([(o.origin, o.target) for o in trips]))
            if not ok:
                return
            ctx.require(ctx.eq(load[1].end, u[1]), "an auxiliary is released when it is back", repr(u))
            first = [o for o in trips if o.first < load[1].first and o.first > load[0].last]
            bring.append(load[0])
            back.append((first[0] if first else load[1]))
            for o in trips:
                ctx.require(ctx.eq(o.worked(ctx), tms["ta"]), "an auxiliary trip takes its transport time", repr(o))
        begin = sorted([min((o for o in ops if o.product == p), key=lambda o: o.first) for p in ids], key=lambda o: o.first)
        for b, o in zip(sorted(bring, key=lambda o: o.last), begin):
            ctx.require(b.last < o.first and ctx.le(b.end, o.start), "a product moves only with its auxiliary", repr(o))
            if prompt:
                ctx.require(ctx.eq(b.end, o.start), "a product moves as soon as its auxiliary is there", repr(o))
            if down:
                ctx.cover("an auxiliary trip is interrupted", len(b.segs) > 1)
        ends = sorted([(i, t) for p, t, i in O.finished(log) if p in ids])
        for b, (i, t) in zip(sorted(back, key=lambda o: o.first), ends):
            ctx.require(ctx.le(t, b.start), "an auxiliary leaves only after the product is finished", repr(b))
            if xcap > 1 and prompt and not down:
                ctx.require(ctx.eq(t, b.start), "an auxiliary is returned at once", repr(b))
    left = {q.data.ID: len(q.items) for q in r.queues() if q.data.ID.startswith("ST")}
    want = {f"ST{i}": k * len(set(types.values())) for i, k in enumerate(quantities)}
    ctx.require(left == want, "all auxiliaries are back in their storage", repr(left))


def scenarios(tier):
    q = tier == "quick"
    w = ["a product waits for an auxiliary"]
    return [
        Scenario("one-carrier", aux({"A": 2}, 1, ta="sym"), w, bounds="2 products, 1 auxiliary"),
        Scenario("one-carrier-three", aux({"A": 3}, 1, gaps=[[1, None, None]]), w, bounds="3 products, 1 auxiliary"),
        Scenario("two-carriers", aux({"A": 3}, 2, gaps=[[1, None, None]], tP=5 if q else "sym"), w, bounds="3 products, 2 auxiliaries"),
        Scenario("two-storages", aux({"A": 3}, 1, stores=2, gaps=[[1, None, 1]] if q else [[1, None, None]]), w, bounds="3 products, 2 storages with 1 auxiliary each"),
        Scenario("shared", aux({"A": 1, "B": 1}, 1), w, bounds="two product types share an auxiliary"),
        Scenario("own-types", aux({"A": 1, "B": 1 if q else 2}, 1, types={"A": "X", "B": "X2"}, gaps=[[None], [2] if q else [None, None]]), bounds="two product types with their own auxiliaries X and X2"),
        Scenario("two-steps", aux({"A": 2}, 1, steps=2, gaps=[[1, None]]), w, bounds="2 products with two processes on two machines, 1 auxiliary"),
        Scenario("one-fleet", aux({"A": 2}, 2, fleet=True, tcap=1, gaps=[[1, None]]), bounds="2 products, 2 auxiliaries, one transporter for products and auxiliaries"),
        Scenario("full-storages", aux({"A": 3}, 1, stores=2, gaps=[[1, 1, None]], stcap=2, quantities=[2, 0], tP=5), w, bounds="3 products, 2 auxiliaries from a storage that they fill, another one is empty"),
        Scenario("transporter-down", aux({"A": 2}, 1, down="transporter", gaps=[[1, 1]], ta=2), w + ["an auxiliary trip is interrupted"], bounds="2 products, 1 auxiliary, its transporter breaks down once"),
        Scenario("machine-down", aux({"A": 2}, 1, down="machine", gaps=[[1, 1]], ta=2), w, bounds="2 products, 1 auxiliary, the machine breaks down once"),
        Scenario("one-aux-transporter", aux({"A": 2}, 2, xcap=1, gaps=[[1, None]], ta="sym"), bounds="2 products, 2 auxiliaries, one transporter for them"),
    ]
