#!/bin/bash
# tools/plant.sh DIR [--tests] [--check ID,...]: tries a planted bug (a folder with patch.diff, demo.sh,
# meta.json) in a private copy of /repo mounted over /repo; nothing of the real one changes.
set -u
D=$(realpath "$1"); shift
if [ "${PLANT_NS:-}" != 1 ]; then
   C=$(mktemp -d /tmp/plant.XXXXXX); trap 'rm -rf "$C"' EXIT
   cp -a /repo "$C/repo"
   PLANT_NS=1 PLANT_C=$C unshare -rm bash "$0" "$D" "$@"; exit $?
fi
mount --bind "$PLANT_C/repo" /repo; cd /repo
TESTS=0; CH=$(python3 -c "import json,sys;print(json.load(open(sys.argv[1]))['property'])" "$D/meta.json")
while [ $# -gt 0 ]; do case $1 in --tests) TESTS=1;; --check) CH=$2; shift;; esac; shift; done
bash /opt/vp/build.sh > "$PLANT_C/b0.log" 2>&1 || { echo "clean build failed"; exit 9; }
timeout 300 bash "$D/demo.sh" > "$PLANT_C/d0" 2>&1; echo "demo clean: $?"; tail -3 "$PLANT_C/d0"
git apply "$D/patch.diff" || { echo "does not apply"; exit 9; }
bash /opt/vp/build.sh > "$PLANT_C/b1.log" 2>&1 || { tail "$PLANT_C/b1.log"; echo "build failed"; exit 9; }
timeout 300 bash "$D/demo.sh" > "$PLANT_C/d1" 2>&1; echo "demo planted: $?"; tail -3 "$PLANT_C/d1"
if [ $TESTS = 1 ]; then
   bash /opt/vp/test.sh "$PLANT_C/o.json" > /dev/null 2>&1
   python3 - "$PLANT_C/o.json" <<'P'
import json, sys
b = json.load(open("/opt/vp/BASELINE.json")); o = json.load(open(sys.argv[1]))
names = b.get("stable") or b.get("tests") or b
if isinstance(names, dict): names = names.get("pass", names)
s = json.dumps(o)
p = set(o.get("passed", []) or [k for k, v in o.get("tests", o).items() if v in (True, "pass", "passed", "PASS")])
bad = [n for n in names if n not in p]
print("tests: %d stable, failing: %s" % (len(names), bad))
P
fi
for c in ${CH//,/ }; do (cd /verif && python3 vp.py $c --quick 2>&1 | grep -E "VIOLATION|KNOWN|ok|held|error" | head -5; echo "check $c: ${PIPESTATUS[0]}"); done
