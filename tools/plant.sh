#!/bin/bash
# plant.sh ID COPY [--no-check]: turn the edits made in COPY (a cp -a of /repo) into /verif/seeded/ID/patch.diff and validate them:
# build, tests, demo on both trees, and the property's check on the copy.
ID=$1; C=$2
D=/verif/seeded/$ID
set -o pipefail
git -C "$C" diff > "$D/patch.diff"
[ -s "$D/patch.diff" ] || { echo "no change"; exit 1; }
git -C /repo apply --check "$D/patch.diff" || { echo "does not apply"; exit 1; }
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
export PYTHONHASHSEED=0 MPLBACKEND=Agg QT_QPA_PLATFORM=offscreen PYTHONDONTWRITEBYTECODE=1
( cd "$C" && PYTHONPATH=$C/src timeout 600 /opt/venv/bin/python -W ignore -m pytest -q -p no:cacheprovider -x --timeout=300 tests 2>&1 | tail -3 ) | tee /tmp/plant.$ID.log
grep -q "1151 passed" /tmp/plant.$ID.log && ! grep -q failed /tmp/plant.$ID.log || { echo "TESTS FAIL"; exit 1; }
git -C "$C" status --short | head
( cd /repo && timeout 300 bash "$D/demo.sh" > /tmp/plant.$ID.a 2>&1 ) && echo "demo clean: 0" || { echo "DEMO FAILS ON CLEAN"; tail -5 /tmp/plant.$ID.a; exit 1; }
( cd "$C" && timeout 300 bash "$D/demo.sh" > /tmp/plant.$ID.b 2>&1 ) && { echo "DEMO PASSES WITH PATCH"; exit 1; } || { echo "demo patched: nonzero"; tail -2 /tmp/plant.$ID.b; }
( cd /verif && GEM_REPO=$C timeout 900 python3-vt -W ignore -B -m gemcheck.check $P | cut -c1-400 | tail -4 )
python3 - "$D/patch.diff" <<'P'
import subprocess, sys
base = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.strip()
f = None
for l in open(sys.argv[1], newline=""):
    if l.startswith("--- a/"):
        f = subprocess.run(["git", "-C", "/repo", "show", base + ":" + l[6:].strip()], capture_output=True, text=True).stdout.splitlines()
        f = {x.strip() for x in f}
    elif l.startswith("-") and f is not None and l[1:].strip() and l[1:].strip() not in f:
        print("NOT ORIGINAL:", l.strip())
P
