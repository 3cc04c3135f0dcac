#!/bin/bash
# try_seed.sh DIR [CHECK...]: the patch must apply, build and pass the stable tests, the demo must tell the trees apart;
# then the named checks are run on the patched tree.  Everything is undone afterwards.
set -u
D=$(realpath "$1"); shift
cd /repo
[ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
undo() { git -C /repo checkout -q -- .; }
trap undo EXIT
bash "$D/demo.sh" >/tmp/seed.demo 2>&1; a=$?
git apply "$D/patch.diff" || { echo "does not apply"; exit 2; }
bash "$D/demo.sh" >>/tmp/seed.demo 2>&1; b=$?
echo "demo: clean=$a patched=$b: $(tail -n 1 /tmp/seed.demo)"
if [ -z "${NOTESTS:-}" ]; then
bash /opt/vp/build.sh >/tmp/build.log 2>&1 || echo "BUILD FAILED"
bash /opt/vp/test.sh /tmp/seed.json >/tmp/seed.test 2>&1
python3 - <<'P'
import json
b=json.load(open("/opt/vp/BASELINE.json"))["stable"]; o=json.load(open("/tmp/seed.json"))
bad=[t for t in b if t not in o["passed"]]
print("tests:", len(o["passed"]), "passed; stable missing:", bad[:3])
P
fi
for c in "$@"; do
    VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick /opt/venv/bin/python /verif/pbt/main.py --property $c --shrink 15 2>&1 | tail -n 3
done
