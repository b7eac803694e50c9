#!/bin/bash
# seedtest.sh BUG [build|test|check ...]: tries a planted bug in a scratch copy of /repo (by default all three steps); the copy is removed.
ID=$1; shift; STEPS=${*:-build test check}
V=${VSNAP:-/verif}; S=/tmp/sw_$ID
PROP=$(python3 -c "import json;print(json.load(open('$V/seeded/$ID/meta.json'))['property'])")
rm -rf "$S"; mkdir -p $S; cp -a /repo $S/repo; cp -a /opt/vp $S/vp
grep -lE '/repo|/opt/vp' $S/vp/* 2>/dev/null | xargs sed -i "s#/repo#$S/repo#g; s#/opt/vp#$S/vp#g"
D=$S/d/$ID; mkdir -p $S/d; cp -a $V/seeded/$ID $D; rm -f $D/*.diff $D/meta.json
cd $S/repo
(bash $D/demo.sh > $S/demo0.log 2>&1; echo "$ID demo unchanged: $? (want 0)")
git apply $V/seeded/$ID/patch.diff || { echo "$ID: patch does not apply"; exit 1; }
bash $S/vp/build.sh > $S/build.log 2>&1 || { echo "$ID: build fails"; tail -5 $S/build.log | cut -c1-200; exit 1; }
(bash $D/demo.sh > $S/demo1.log 2>&1; echo "$ID demo patched: $? (want not 0): $(tail -1 $S/demo1.log | cut -c1-200)")
for s in $STEPS; do case $s in
test) bash $S/vp/test.sh $S/out.json > $S/test.log 2>&1; python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('$S/out.json'))
def ok(x):
    if isinstance(x,dict):
        for k in ('stable','passed','pass','passing'):
            if k in x: return set(x[k])
    return set(x)
print('$ID missing:', sorted(ok(b)-ok(o))[:10], len(ok(b)), len(ok(o)))
P
;;
check) for p in ${PROPS:-$PROP}; do VERIF_REPO=$S/repo VERIF_BUILD=$S/vb VERIF_SEED=1 python3 $V/tools/check.py $p > $S/check_$p.log 2>&1; echo "$ID check $p: $? $(grep -c . $S/check_$p.log) $(tail -1 $S/check_$p.log | cut -c1-150)"; head -3 $S/check_$p.log | cut -c1-300; done;;
esac; done
mkdir -p /tmp/sl/$ID; cp $S/*.log /tmp/sl/$ID/ 2>/dev/null
rm -rf "$S"
