#!/usr/bin/env python3
"""Runs the checks against every planted change in a scratch copy and writes tools/catch.json."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
man = json.load(open(HERE + "/MANIFEST.json"))
res = {}
POOL = ThreadPoolExecutor(8)
for d in sorted(os.listdir(HERE + "/seeded")):
    p = HERE + "/seeded/" + d
    prop = json.load(open(p + "/meta.json"))["property"]
    t = tempfile.mkdtemp()
    try:
        shutil.copytree("/repo/mlmc", t + "/mlmc")
        a = subprocess.run(["git", "apply", "--unsafe-paths", "--directory=" + t, p + "/patch.diff"], cwd="/", capture_output=True, text=True)
        if a.returncode:
            a = subprocess.run(["patch", "-p1", "-s", "-i", p + "/patch.diff"], cwd=t, capture_output=True, text=True)
        hit = []
        def one(c):
            return c, subprocess.run([sys.executable, "-W", "ignore", HERE + "/check.py", "--property", c, "--repo", t], capture_output=True, text=True)
        for c, r in POOL.map(one, [prop] + [x["property"] for x in man["checks"] if x["property"] != prop]):
            if r.returncode == 1:
                key = [l.split(" at ")[0].strip() for l in r.stdout.splitlines() if " at " in l and not l.startswith(("UNDECIDED", "KNOWN", "VIOLATION"))]
                hit.append((c, key[0] if key else ""))
        if not hit or hit[0][0] != prop:
            res[d] = "**not caught**" + (" (by %s)" % ", ".join(h[0] for h in hit) if hit else "")
        else:
            res[d] = "%s %s" % hit[0] + (", also " + ", ".join(h[0] for h in hit[1:]) if hit[1:] else "")
    finally:
        shutil.rmtree(t)
    print(d, res[d], flush=True)
json.dump(res, open(HERE + "/tools/catch.json", "w"), indent=1)
