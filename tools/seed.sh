#!/bin/bash
# seed.sh ID: confirm a planted bug in a scratch worktree (build, stable tests,
# demo passes without and fails with the patch), then run the check against it.
id=$1; d=/verif/seeded/$id
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod CGO_ENABLED=1
git -C /repo apply --check $d/patch.diff || exit 2
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo
[ -n "$(git status --porcelain)" ] && { echo "repo dirty"; exit 2; }
bash $d/demo.sh > /tmp/demo.ok 2>&1 || { echo "$id: demo fails on clean tree"; tail -30 /tmp/demo.ok; exit 2; }
git apply $d/patch.diff
trap 'git -C /repo checkout -- .' EXIT
bash /opt/vp/build.sh > /tmp/b.out 2>&1 || { echo "$id: build fails"; cat /tmp/b.out; exit 2; }
if bash $d/demo.sh > /tmp/demo.bad 2>&1; then echo "$id: demo PASSES with patch"; exit 2; fi
grep -m3 -E "zzdemo|demo_test|panic|DATA RACE" /tmp/demo.bad
bash /opt/vp/test.sh /tmp/t.json > /tmp/t.out 2>&1
python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
def names(x):
    for k in ('passed','stable','tests','pass'):
        if k in x: return set(x[k])
    return set()
miss=names(b)-names(t)
print("stable tests", len(names(b)), "missing", sorted(miss)[:5], "keys", list(b)[:6])
P
[ "$2" = nocheck ] && exit 0
cd /verif
s=$(date +%s)
./check.sh $prop quick > /tmp/c.out 2>&1; rc=$?
echo "$id: check $prop rc=$rc in $(( $(date +%s)-s ))s"; grep -m2 VIOLATION /tmp/c.out; head -c 600 /tmp/c.out
