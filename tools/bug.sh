#!/bin/bash
# usage: tools/bug.sh <seeded id> [checks...]   (default: the bug's own property)
# Evaluates one planted bug in a private copy of /repo mounted over /repo.
# With SKIP_TESTS=1 only the demo and the checks run.
id=$1; shift; S=/verif/seeded/$id; W=/tmp/bug-$id-$$
prop=$(node -p "JSON.parse(require('fs').readFileSync('$S/meta.json')).property")
checks=${*:-$prop}
cp -a /repo $W; mkdir -p $W.ev $W.demo
cp -a $S/. $W.demo/; rm -f $W.demo/*.diff $W.demo/meta.json
export W S checks id SKIP_TESTS
unshare -m bash -c '
mount --bind $W /repo; mount --bind $W.ev /verif/evidence; cd /repo; git checkout -q -- . 
(bash /opt/vp/build.sh) >$W.ev/b0.log 2>&1 || echo "BASE BUILD FAILED"
timeout 300 bash $W.demo/demo.sh >$W.ev/d0.log 2>&1; echo "$id demo on clean: $? (want 0)"
git apply $S/patch.diff || { echo "PATCH DOES NOT APPLY"; exit 1; }
(bash /opt/vp/build.sh) >$W.ev/b1.log 2>&1 || { echo "BUILD FAILED"; tail -5 $W.ev/b1.log; }
timeout 300 bash $W.demo/demo.sh >$W.ev/d1.log 2>&1; r=$?; echo "$id demo with bug: $r (want nonzero)"; tail -2 $W.ev/d1.log
if [ -z "$SKIP_TESTS" ]; then bash /opt/vp/test.sh $W.ev/t.json >$W.ev/t.log 2>&1
python3 - <<PY
import json
b=json.load(open("/opt/vp/BASELINE.json")); t=json.load(open("$W.ev/t.json"))
base=b["stable"]
p=set(t["passed"]); miss=[x for x in base if x not in p]
print("$id tests:", "all stable pass" if not miss else "BROKEN %d: %s"%(len(miss),miss[:3]))
PY
fi
cd /verif
for c in $checks; do timeout 900 node sim/check.mjs $c >$W.ev/c.log 2>&1; echo "$id check $c: exit $?  $(grep -h "^property" $W.ev/c.log | head -1 | cut -c1-230)"; grep -h "harness error" $W.ev/c.log; done
'
rm -rf "$W" "$W.ev" "$W.demo"
