#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the property texts (run by hand after editing)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "tools"))
import importlib
from rules import registry
for f in sorted(os.listdir(os.path.join(HERE, "rules"))):
    if f.startswith("r_"):
        importlib.import_module("rules." + f[:-3])
props, na = [], []
for m in ("props_s", "props_p", "props_e", "props_q", "props_m", "props_r"):
    try:
        mod = importlib.import_module(m)
    except ImportError:
        continue
    props += mod.PROPS
    na += getattr(mod, "NA", [])
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
nas = {x["property"] for x in na}
checks = []
for p in props:
    if p["id"] in nas:
        continue
    expl, ass = registry.META[p["id"]]
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 /verif/check.py --property %s --tier quick" % p["id"],
        "thorough_cmd": "python3 /verif/check.py --property %s --tier thorough" % p["id"],
        "technique": "static analysis: interprocedural value-flow and effect analysis over the AST. " + expl,
        "level": "other",
        "level_note": "sound up to the stated assumptions for the analysed functions: " + "; ".join(ass),
    })
man = {"version": 1, "setup_cmd": "python3 -c 'import ast'", "checks": checks, "not_applicable": na,
       "notes": "Checks parse /repo's working tree with the standard library only; nothing of /repo is imported or run."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
ids = [p["id"] for p in props]
print(len(props), "properties,", len(checks), "checks,", len(na), "n/a")
assert len(set(ids)) == len(ids)
for p in props:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
missing = set(registry.META) - set(ids)
if missing:
    print("rules without property text:", sorted(missing))
