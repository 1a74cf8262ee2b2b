#!/bin/bash
# tools/seedcheck.sh ID [notest]: applies seeded/ID to /repo, runs build, tests, demo and the property's check, then undoes it.
# (development aid; no registered check uses it)
ID=$1; D=/verif/seeded/$ID
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo || exit 9
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 9; }
bash $D/demo.sh >/tmp/seed_demo0.log 2>&1; a=$?
git apply $D/patch.diff || { echo "$ID: patch does not apply"; exit 9; }
if [ "$2" != notest ]; then
  bash /opt/vp/test.sh /tmp/seed_t.json >/tmp/seed_t.log 2>&1
  t=$(python3 - <<'PY'
import json
b=json.load(open('/opt/vp/BASELINE.json'));t=json.load(open('/tmp/seed_t.json'))
p=set(t.get('passed',t.get('pass',[])) if isinstance(t,dict) else [])
m=[x for x in b['stable'] if x not in p]
print('tests-ok' if not m else 'TESTS-FAIL %s'%m[:4])
PY
)
else t=tests-skipped; fi
bash $D/demo.sh >/tmp/seed_demo1.log 2>&1; b=$?
cd /verif && python3 check.py $P > /tmp/seed_chk.log 2>&1; c=$?
git -C /repo checkout -- .
echo "$ID property=$P demo_clean=$a demo_bug=$b $t check_exit=$c $(grep -c 'failed obligation' /tmp/seed_chk.log) obligations; $(grep VIOLATION /tmp/seed_chk.log)"
