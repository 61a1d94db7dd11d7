#!/usr/bin/env python3
"""Writes DESIGN.md (run by hand after gen_meta.py; tools/catch.py refreshes the table of planted changes)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import importlib
from rules import registry
for f in sorted(os.listdir(os.path.join(HERE, "rules"))):
    if f.startswith("r_"):
        importlib.import_module("rules." + f[:-3])
rd = lambda *p: open(os.path.join(HERE, *p)).read()
props = [json.loads(x) for x in rd("properties.jsonl").splitlines()]
man = json.loads(rd("MANIFEST.json"))
claimed = {c["property"] for c in man["checks"]}
na = {x["property"]: x["reason"] for x in man["not_applicable"]}
out = [rd("tools", "design_head.md").rstrip(), "", "## 3. Properties and how each is decided", ""]
for p in props:
    i = p["id"]
    out.append("### %s %s" % (i, p["title"]))
    out.append("")
    if i in na:
        out.append("*Not applicable.* " + na[i])
    else:
        expl, ass = registry.META[i]
        out.append(p["statement"])
        out.append("")
        out.append("*Analysed:* " + "; ".join("%s (%s)" % (m["where"], m["name"]) for m in p["anchors"]["mechanism"]) + ".")
        out.append("")
        out.append("*Decided by:* " + expl)
        out.append("")
        out.append("*Assumes:* " + "; ".join(ass) + ".")
    out.append("")
known = [l for l in rd("known-findings.txt").splitlines() if l and not l.startswith("#")]
out += ["## 4. Defects of the repository", "", "### 4.1 Repaired (one `fix:` commit each)", ""]
for l in known:
    if l.startswith("fixed:"):
        q = l.split(None, 3)
        out.append("- %s (`%s`): %s" % (q[1].split("=")[1], q[2], q[3]))
out += ["", "### 4.2 Recorded findings (in `known-findings.txt`, printed as KNOWN-FINDING)", ""]
for l in known:
    if l.startswith("known:"):
        a, b = l.split("|", 1)
        out.append("- %s: %s" % (a[6:].strip(), b.strip()))
out += ["", rd("tools", "design_tail.md").rstrip(), "", "## 7. Planted changes and what catches them", ""]
try:
    res = json.loads(rd("tools", "catch.json"))
except OSError:
    res = {}
out += ["Each was confirmed in a scratch copy: it builds, the 39 stable tests pass, its demonstration fails with it and passes without it.", "",
        "| change | breaks | what it does | reported construct |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.loads(rd("seeded", d, "meta.json"))
    out.append("| %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"].replace("|", "/"), res.get(d, "?")))
open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out) + "\n")
print(len(out), "lines")
