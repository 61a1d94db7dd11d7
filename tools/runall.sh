#!/bin/bash
# runall.sh [repo] : run every claimed check, print non-zero exits, undecided counts and times
R=${1:-/repo}
cd /verif
python3 - <<'P' > /tmp/ids.txt
import json
print("\n".join(c["property"] for c in json.load(open("/verif/MANIFEST.json"))["checks"]))
P
cat /tmp/ids.txt | xargs -P 8 -I{} bash -c 's=$(date +%s); python3 check.py --property {} --repo '$R' > /tmp/out_{}.txt 2>&1; echo {} rc=$? $(( $(date +%s)-s ))s $(grep -o "undecided=[0-9]*" /tmp/out_{}.txt) $(grep -h "VIOLATION\|KNOWN" /tmp/out_{}.txt | head -3)'  | sort
