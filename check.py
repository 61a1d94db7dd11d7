#!/usr/bin/env python3
"""Runner: python3 /verif/check.py --property S01 [--tier quick|thorough]

Parses /repo's current working tree, runs the rules of one property, writes evidence/<id>.json.
exit 0: every obligation decided and holds (or listed as known finding); exit 1 + VIOLATION line: a construct breaks the
rule; exit 2: the analysis could not be carried out (anchor vanished, syntax error, internal error)."""
import argparse
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from sa.repo import Program, AnchorError  # noqa: E402
from rules import registry  # noqa: E402


def known_findings():
    out = {}
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known:"):
                f = dict(x.split("=", 1) for x in line[6:].split(" | ")[0].split() if "=" in x)
                out[(f["property"], f["key"])] = line.split(" | ", 1)[1] if " | " in line else ""
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    pid = a.property
    t0 = time.time()
    try:
        prog = Program(a.repo)
        if prog.errors:
            print("ERROR: cannot parse %s" % prog.errors)
            return 2
        ctx = registry.run(pid, prog)
    except AnchorError as e:
        print("ERROR property=%s anchor vanished: %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("ERROR property=%s internal error" % pid)
        return 2
    known = known_findings()
    bad, kf = [], []
    for o in ctx.obligations:
        if o["status"] == "violated":
            k = (pid, o["key"])
            (kf if k in known else bad).append(o)
    held = [o for o in ctx.obligations if o["status"] == "holds"]
    und = [o for o in ctx.obligations if o["status"] == "undecided"]
    if a.v:
        for o in ctx.obligations:
            print("%-9s %s  [%s] %s" % (o["status"], o["key"], o["where"], o["detail"]))
    ev = {
        "property": pid,
        "tier": a.tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": ctx.explanation,
            "obligations": len(ctx.obligations),
            "discharged": len(held),
            "undecided": len(und),
            "violated_known": len(kf),
            "violated_new": len(bad),
            "functions_analysed": len(ctx.functions),
            "functions": sorted(ctx.functions),
            "events_inspected": ctx.n_events,
            "rules": sorted({o["rule"] for o in ctx.obligations}),
            "modules_parsed": len(prog.modules),
            "obligation_list": [{k: o[k] for k in ("key", "status", "where", "detail")} for o in ctx.obligations],
        },
        "assumptions": ctx.assumptions,
        "wall_s": round(time.time() - t0, 3),
        "violations": len(bad),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True, default=str)
    for o in kf:
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, o["key"], known[(pid, o["key"])]))
    for o in und:
        print("UNDECIDED property=%s %s at %s: %s" % (pid, o["key"], o["where"], o["detail"]))
    if bad:
        rp = os.path.join(HERE, "evidence", pid + ".replay.json")
        with open(rp, "w") as f:
            json.dump({"property": pid, "replay": "python3 /verif/check.py --property %s -v" % pid, "violations": bad}, f, indent=1, default=str)
        for o in bad:
            print("  %s at %s: %s" % (o["key"], o["where"], o["detail"]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if not held:
        print("ERROR property=%s no obligation was decided" % pid)
        return 2
    print("OK property=%s obligations=%d discharged=%d undecided=%d functions=%d events=%d" %
          (pid, len(ctx.obligations), len(held), len(und), len(ctx.functions), ctx.n_events))
    return 0


if __name__ == "__main__":
    sys.exit(main())
