#!/opt/venv/bin/python
"""DESIGN.md from tools/DESIGN.tmpl.md, properties, scenarios, findings and seeded bugs."""
import importlib
import json
import os
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.path.insert(0, os.path.join(V, "tools"))
import props as PR  # noqa: E402
from howtext import FALSE, HOW, NA_TEXT  # noqa: E402

sec = []
for p in PR.PROPS:
    i, d = p["prop"]["id"], p["prop"]
    if i in PR.NA:
        continue
    path = os.path.join(V, "harness", i.lower() + ".py")
    if not os.path.exists(path):
        continue
    m = importlib.import_module("harness." + i.lower())
    out = [f"### {i} {d['title']}", "", d["statement"], ""]
    out += ["*How it is decided.* " + HOW.get(i, "").strip(), ""]
    out += ["*Bounds* (quick / thorough where they differ): " + p["note"] + ".", ""]
    q = {s.name: s for s in m.scenarios("quick")}
    for s in m.scenarios("thorough"):
        b = s.bounds
        if s.name in q and q[s.name].bounds != b:
            b = f"{q[s.name].bounds} / {b}"
        elif s.name not in q:
            b += " (thorough only)"
        out.append(f"- `{s.name}`: {b}")
    for a in getattr(m, "ASSUMPTIONS", []):
        out.append(f"- assumed: {a}")
    ev = os.path.join(V, "evidence", f"{i}.json")
    cost = PR.COST.get(i)
    if cost:
        out += ["", f"*Cost* of the quick check: about {cost} s on 8 cores."]
    out += ["", "*Why tests cannot.* " + d["why_tests_cant"] + ".", ""]
    sec.append("\n".join(out))
fixes, opens = [], []
for line in open(os.path.join(V, "known_findings.jsonl")):
    line = line.strip()
    if not line:
        continue
    e = json.loads(line)
    if e["status"] == "fixed":
        fixes.append(f"- {e['id']} ({e['property']}): {e['note'].split(' ', 2)[2]}")
    else:
        opens.append(f"- {e['id']} ({e['property']}, scenario `{e['scenario']}`): {e['what']}.")
rows = []
sd = os.path.join(V, "seeded")
res = json.load(open(os.path.join(V, "tools", "seeded_results.json"))) if os.path.exists(os.path.join(V, "tools", "seeded_results.json")) else {}
for s in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open(os.path.join(sd, s, "meta.json")))
    rows.append(f"| {s}: {m['what_it_breaks']} | {m['property']} | {res.get(s, '')} |")
t = open(os.path.join(V, "tools", "DESIGN.tmpl.md")).read()
na = "\n".join(f"- {x}" for x in NA_TEXT + [f"{k}: {v}" for k, v in PR.NA.items()])
for k, v in {"PROPS": "\n".join(sec), "FIXES": "\n".join(fixes), "OPEN": "\n".join(opens), "SEEDED": "\n".join(rows), "NA": na, "FALSE": "\n".join(f"- {x}" for x in FALSE)}.items():
    t = t.replace(f"@@{k}@@", v)
open(os.path.join(V, "DESIGN.md"), "w").write(t)
