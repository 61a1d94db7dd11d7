#!/bin/bash
# usage: tools/try_bug.sh <seeded id> [tests]   verify a planted bug in a scratch copy of /repo (never touches /repo)
set -u
D=/verif/seeded/$1
W=$(mktemp -d /tmp/bug.XXXXXX)
cp -a /repo "$W/repo"
sed "s#/repo#$W/repo#g" /opt/vp/build.sh > "$W/build.sh"
run() { ( cd "$W/repo" && PYTHONPATH="$W/repo" timeout 300 bash "$W/demo/demo.sh" >"$W/out.$1" 2>&1; echo "demo $1: exit $?"; tail -n 3 "$W/out.$1" ); }
mkdir "$W/demo"; cp "$D"/* "$W/demo/"; rm -f "$W/demo/patch.diff" "$W/demo/meta.json"
run clean
git -C "$W/repo" apply "$D/patch.diff" || echo "PATCH DOES NOT APPLY"
run patched
P=$(/usr/bin/python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
python3 /verif/check.py --property "$P" --repo "$W/repo" | cut -c1-400 | tail -n 4
if [ "${2:-}" = tests ]; then
  sed "s#/repo#$W/repo#g; s#/opt/vp/reports#$W/reports#g" /opt/vp/test.sh > "$W/test.sh"
  PYTHONPATH="$W/repo" bash "$W/test.sh" "$W/out.json" >/dev/null 2>&1
  /usr/bin/python3 - "$W/out.json" <<'PY'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
def names(x): return set(x.get('passed', x.get('stable', [])) if isinstance(x,dict) else x)
print("baseline", len(names(b)), "missing:", sorted(names(b)-names(o)))
PY
fi
rm -rf "$W"
