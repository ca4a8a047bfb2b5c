#!/bin/bash
# tryseed.sh ID : demo on clean build (assumed built), then apply, build, demo, check; undo.  T=1 also runs the tests
ID=$1; D=/verif/seeded/$ID
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo
git diff --quiet || { echo "repo dirty"; exit 1; }
bash /opt/vp/build.sh >/dev/null 2>&1
bash $D/demo.sh >/tmp/ts.$ID.clean 2>&1; echo "demo clean: $?"
git apply $D/patch.diff || exit 1
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh 2>&1 | grep -v built
bash $D/demo.sh >/tmp/ts.$ID.bug 2>&1; echo "demo bug: $?"
if [ -n "$T" ]; then bash /opt/vp/test.sh /tmp/ts.$ID.json | tail -1; python3 - <<PY
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); p=set(json.load(open('/tmp/ts.$ID.json'))['passed'])
print('stable failing:', sorted(b-p)[:5], len(b-p))
PY
fi
cd /verif; python3 check.py $P quick | tail -3 | cut -c1-300
