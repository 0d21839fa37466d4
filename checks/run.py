#!/opt/venv/bin/python
"""check driver:  run.py PROPERTY [--tier quick|thorough] [--replay FILE] [--only SCENARIO]

exit 0  property held for every value within the stated bounds (or only listed
        known findings, each printed)
exit 1  VIOLATION line printed; the counterexample was replayed on the real code
        with ordinary numbers in a fresh process
exit 2  no verdict (solver unknown, unsupported operation, budget, vacuity,
        counterexample that does not reproduce)
"""
import argparse
import importlib
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
VENV = "/opt/venv/bin/python"
ENV = {
    "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONHASHSEED": "0",
    "OPENBLAS_NUM_THREADS": "1",
    "OMP_NUM_THREADS": "1",
    "MPLBACKEND": "Agg",
}

if __name__ == "__main__" and any(os.environ.get(k) != v for k, v in ENV.items()):
    os.environ.update(ENV)
    os.environ.pop("PYTHONPATH", None)
    py = VENV if os.path.exists(VENV) else sys.executable
    os.execv(py, [py] + sys.argv)

sys.path.insert(0, VERIF)
for p in ("/opt/veriftools/pyvenv/lib/python3.12/site-packages",):
    if p not in sys.path:
        sys.path.append(p)


def load(prop, tier):
    m = importlib.import_module(f"harness.{prop.lower()}")
    return m, m.scenarios(tier)


def known_entries(prop):
    path = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line:
                e = json.loads(line)
                if e.get("property") == prop and e.get("status") == "open":
                    out.append(e)
    return out


def is_known(entries, v, scenario):
    for e in entries:
        if e["scenario"] == scenario and e["label"] == v["label"] and e.get("info", "") in (v.get("info") or ""):
            return e
    return None


def do_replay(path):
    d = json.load(open(path))
    _, scns = load(d["property"], d["tier"])
    from symx import engine

    scn = [s for s in scns if s.name == d["scenario"]][0]
    ctx = engine.replay(scn, d["values"], d["choices"])
    for label, info in ctx.failures:
        print(f"FAILS property={d['property']} scenario={d['scenario']} obligation={label} {info or ''}")
    if any(label == d["label"] for label, _ in ctx.failures):
        return 1
    if ctx.failures:
        return 1
    print("does not reproduce")
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--all", action="store_true", help="do not stop at the first violation")
    ap.add_argument("--jobs", type=int, default=None)
    ap.add_argument("--budget", type=float, default=None)
    a = ap.parse_args()
    if a.replay:
        sys.exit(do_replay(a.replay))
    t0 = time.time()
    prop = a.property
    mod, scns = load(prop, a.tier)
    if a.only:
        scns = [s for s in scns if s.name == a.only]
    from symx import engine

    entries = known_entries(prop)
    budget = a.budget or (780 if a.tier == "quick" else 7200)
    res = engine.explore(
        scns,
        jobs=a.jobs,
        budget_s=budget,
        validate_rate=getattr(mod, "VALIDATE", 0.02),
        stop_on_violation=not a.all,
        known=lambda v, s: is_known(entries, v, s) is not None,
    )
    st = res["stats"]
    code = 0
    lines = []
    new, old = [], {}
    for si, v, tb in res["violations"]:
        e = is_known(entries, v, scns[si].name)
        if e is not None:
            old.setdefault(e["id"], (si, v, tb))
        else:
            new.append((si, v, tb))

    def confirm(si, v, tb, name):
        os.makedirs(os.path.join(VERIF, "evidence", "replays"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", "replays", f"{prop}-{name}.json")
        with open(path, "w") as f:
            json.dump(
                {
                    "property": prop,
                    "tier": a.tier,
                    "scenario": scns[si].name,
                    "label": v["label"],
                    "info": v["info"],
                    "values": v["values"],
                    "choices": v["choices"],
                    "how": f"cd /verif && checks/run.py {prop} --replay {path}",
                    "traceback": tb,
                },
                f,
                indent=1,
            )
        if v["values"] is None:
            return path, False, "no concrete values"
        r = subprocess.run(
            [sys.executable, os.path.abspath(__file__), prop, "--replay", path],
            capture_output=True, text=True, timeout=300,
        )
        return path, r.returncode == 1 and "FAILS" in r.stdout, r.stdout[-400:] + r.stderr[-400:]

    violations = 0
    inconclusive = list(res["inconclusive"])
    seen = set()
    for si, v, tb in new[:40]:
        key = (si, v["label"], v["info"] if v["label"] == "exception" else "")
        if key in seen and not a.all:
            continue
        if violations >= 1 and not a.all:
            break
        if key in seen:
            continue
        path, ok, msg = confirm(si, v, tb, f"{len(seen)}")
        if ok:
            seen.add(key)
            violations += 1
            lines.append(f"VIOLATION property={prop} replay={path}")
            print(f"violated: scenario={scns[si].name} obligation={v['label']} {v['info']}", flush=True)
            print(f"  values={ {k: x[0] / x[1] for k, x in v['values'].items()} } choices={v['choices']}"[:600])
        else:
            print(f"counterexample not reproduced: {scns[si].name} {v['label']} {v['info']} {v['values']} :: {msg}")
    for eid, (si, v, tb) in sorted(old.items()):
        path, ok, msg = confirm(si, v, tb, f"known-{eid}")
        e = [x for x in entries if x["id"] == eid][0]
        if ok:
            lines.append(f"KNOWN-FINDING: property={prop} {e['what']}")
        else:
            inconclusive.append((si, f"known finding {eid} did not reproduce: {msg}"))
    missing = []
    if not a.only:
        for i, s in enumerate(scns):
            for c in s.covers:
                if c not in res["covered"][i]:
                    missing.append(f"{s.name}:{c}")
    if new and not violations:
        code = 2
    if violations:
        code = 1
    elif inconclusive or (missing and not new):
        code = 2
    ev = {
        "property": prop,
        "tier": a.tier,
        "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": "model_checking",
        "coverage": {
            "states": int(st["decisions"] + st["choices"] + st["paths"]),
            "transitions": int(st["forks"] + st["choices"] + st["decisions"]),
            "traces_validated_against_impl": int(st["validated_ok"]),
            "samples": res["samples"][:4],
            "scenarios": [
                {"name": s.name, "bounds": s.bounds, "paths": int(res["per"][i])} for i, s in enumerate(scns)
            ],
            "paths": int(st["paths"]),
            "paths_pruned_by_assumptions": int(st["pruned"]),
            "branch_decisions": int(st["decisions"]),
            "forks": int(st["forks"]),
            "nondeterministic_choices": int(st["choices"]),
            "max_decisions_on_a_path": int(st["max_depth"]),
            "obligations": int(st["obligations"]),
            "obligations_true_syntactically": int(st["syntactic"]),
            "solver_queries": int(st["queries"]),
            "solver_seconds": round(float(st["solver_s"]), 3),
            "solver_unknown": int(st["unknown"]),
            "functions_encoded": res["functions"],
            "reachability_witnesses": {s.name: sorted(res["covered"][i]) for i, s in enumerate(scns)},
            "witnesses_missing": missing,
            "exhaustive": not inconclusive and not violations,
            "known_findings": sorted(old),
            "no_verdict": [str(m)[:500] for _, m in inconclusive][:5],
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": violations,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(
        f"{prop} {a.tier}: paths={st['paths']} pruned={st['pruned']} obligations={st['obligations']} "
        f"queries={st['queries']} solver={st['solver_s']:.1f}s validated={st['validated_ok']}/{st['validated']} "
        f"wall={time.time() - t0:.1f}s"
    )
    print("  paths per scenario: " + ", ".join(f"{s.name}={res['per'][i]}" for i, s in enumerate(scns)))
    for si, m in inconclusive[:5]:
        print(f"NO VERDICT {scns[si].name if si >= 0 else ''}: {m}")
    for m in missing:
        print(f"WITNESS NOT REACHED {m}")
    for l in lines:
        print(l, flush=True)
    sys.stdout.flush()
    os._exit(code)


if __name__ == "__main__":
    main()
