#!/bin/bash
# plant.sh ID: validates /verif/seeded/ID in a scratch copy of /repo mounted over /repo in a private
# mount namespace: patch applies, builds, stable tests pass, demo.sh 0 without and nonzero with it.
# plant.sh ID check Cxx [tier]: runs a check against the patched copy (SIM_REPO).
set -e
ID=$1; D=$(realpath "$(dirname "$0")/../seeded/$ID")
W=$(mktemp -d /tmp/plant.XXXXXX); trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"; mkdir "$W/demo"; cp "$D"/* "$W/demo/"; rm -f "$W"/demo/*.diff "$W"/demo/meta.json
if [ "$2" = check ]; then
	git -C "$W/repo" apply "$D/patch.diff"
	cd /verif && SIM_REPO="$W/repo" python3 driver/check.py "$3" "${4:-quick}"; exit $?
fi
export W D
unshare -Urm bash -e -c '
mount --bind "$W/repo" /repo
cd /repo
bash /opt/vp/build.sh > "$W/b.log" 2>&1
bash "$W/demo/demo.sh" > "$W/d0.log" 2>&1 && echo "demo unchanged: 0 ok" || { echo "demo unchanged: FAIL"; tail -5 "$W/d0.log"; }
git apply "$D/patch.diff"
bash /opt/vp/test.sh "$W/out.json" > "$W/t.log" 2>&1
python3 - "$W/out.json" <<P
import json,sys
b=json.load(open("/opt/vp/BASELINE.json")); o=json.load(open(sys.argv[1]))
base=b["stable"]
miss=[t for t in base if t not in o["passed"]]
print("tests: missing", len(miss), miss[:5])
P
cd /repo
if bash "$W/demo/demo.sh" > "$W/d1.log" 2>&1; then echo "demo patched: 0 BAD"; else echo "demo patched: $? ok: $(tail -1 "$W/d1.log")"; fi
'
