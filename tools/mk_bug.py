#!/usr/bin/env python3
"""mk_bug.py FILE: FILE defines BUGS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo)]; writes seeded/<id>/."""
import json, os, subprocess, sys, tempfile, shutil
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
for b in ns["BUGS"]:
    if only and b["id"] not in only:
        continue
    d = tempfile.mkdtemp(prefix="mk.", dir="/tmp")
    subprocess.check_call(["git", "clone", "-q", "/repo", d + "/r"])
    for f, old, new in b["edits"]:
        p = os.path.join(d, "r", f)
        s = open(p, newline="").read()
        if "\r\n" in s:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        assert s.count(old) == 1, (b["id"], f, s.count(old), old)
        open(p, "w", newline="").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", d + "/r", "diff"])
    o = "/verif/seeded/" + b["id"]
    os.makedirs(o, exist_ok=True)
    open(o + "/patch.diff", "wb").write(diff)
    open(o + "/demo.py", "w").write(b["demo"].lstrip("\n"))
    open(o + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=agg\nD=$(cd "$(dirname "$0")" && pwd)\nPYTHONPATH="$PWD" exec timeout 200 /opt/venv/bin/python -W ignore "$D/demo.py"\n')
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(o + "/meta.json", "w"), indent=1)
    shutil.rmtree(d)
    print("wrote", b["id"])
