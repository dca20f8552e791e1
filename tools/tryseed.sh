#!/bin/bash
# tryseed.sh <seed id> [check ids...]: stable tests, demo and checks with the bug planted
S=/verif/seeded/$1; shift
cd /repo || exit 2
git diff --quiet || { echo "/repo is not clean"; exit 2; }
(bash "$S/demo.sh" >/dev/null 2>&1) ; echo "demo clean: $?"
git apply "$S/patch.diff" || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
(bash "$S/demo.sh" 2>&1 | tail -1; exit ${PIPESTATUS[0]}); echo "demo planted: $?"
if [ -z "$NOTEST" ]; then
bash /opt/vp/build.sh 2>&1 | tail -1
bash /opt/vp/test.sh /tmp/seed_o.json > /dev/null 2>&1
python3 - <<'P'
import json
a=json.load(open('/opt/vp/BASELINE.json'))['stable'];b=json.load(open('/tmp/seed_o.json'))
p=b.get('passed') or b.get('pass') or []
print('tests lost:', [x for x in a if x not in p])
P
fi
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd /verif
for c in ${@:-$P}; do bash check.sh $c quick 2>&1 | grep -E "VIOLATION|quick:|ERROR" | cut -c1-200; done
