#!/bin/bash
# tools/fixtest.sh PATCH: the repository's tests with PATCH applied, against copies in a namespace of its own (development aid)
[ -d /tmp/fixrepo ] || cp -a /repo /tmp/fixrepo
[ -d /tmp/fixopt ] || cp -a /opt/vp /tmp/fixopt
git -C /tmp/fixrepo fetch -q /repo HEAD && git -C /tmp/fixrepo checkout -q -f FETCH_HEAD && git -C /tmp/fixrepo clean -fdq
[ -s "$1" ] && { git -C /tmp/fixrepo apply "$1" || exit 9; }
exec unshare -m bash -c 'mount --bind /tmp/fixrepo /repo; mount --bind /tmp/fixopt /opt/vp; bash /opt/vp/test.sh /tmp/fix_t.json > /tmp/fix_t.log 2>&1; python3 - <<PY
import json
b=json.load(open("/opt/vp/BASELINE.json"));t=json.load(open("/tmp/fix_t.json"))
p=set(t.get("passed",t.get("pass",[])) if isinstance(t,dict) else [])
m=[x for x in b["stable"] if x not in p]
print("tests-ok" if not m else "TESTS-FAIL %s"%m)
PY
grep "^test .*FAILED" /opt/vp/test.log | sort > /tmp/fix_failed.txt; wc -l /tmp/fix_failed.txt'
