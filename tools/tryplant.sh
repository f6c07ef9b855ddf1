#!/bin/bash
# tryplant.sh ID [nocheck]: confirms a planted bug (applies, builds, passes the stable tests, demo 0 -> nonzero) and runs its property's check on it.
# /repo must be clean and built (bash /opt/vp/build.sh).
ID=$1; S=/verif/seeded/$ID
[ -z "$(git -C /repo status --porcelain --untracked-files=no)" ] || { echo "repo dirty"; exit 1; }
PROP=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
D=$(mktemp -d /tmp/demo.XXXXXX); cp -a $S/. $D/; rm -f $D/*.diff $D/*.patch $D/meta.json
restore() { git -C /repo checkout -- . ; bash /opt/vp/build.sh >/dev/null 2>&1; rm -rf "$D"; }
bash /opt/vp/build.sh > /tmp/build.log 2>&1
(cd /repo && timeout 300 bash $D/demo.sh > /tmp/demo0.log 2>&1); d0=$?
git -C /repo apply $S/patch.diff || { echo "$ID: patch does not apply"; rm -rf "$D"; exit 1; }
bash /opt/vp/build.sh > /tmp/build.log 2>&1 || { echo "$ID: build fails"; grep -n "error" /tmp/build.log | head -5; restore; exit 1; }
(cd /repo && timeout 300 bash $D/demo.sh > /tmp/demo1.log 2>&1); d1=$?
bash /opt/vp/test.sh /tmp/o.json > /tmp/test.log 2>&1
T=$(python3 - <<'P'
import json
o=json.load(open('/tmp/o.json')); b=json.load(open('/opt/vp/BASELINE.json'))
print(len(set(b['stable'])-set(o['passed'])), list(set(b['stable'])-set(o['passed']))[:3])
P
)
rc=-; t0=$SECONDS
if [ "$2" != nocheck ]; then
  (cd /verif && VERIF_SEED=${VERIF_SEED:-1} python3 check.py $PROP > /tmp/plant-$ID.log 2>&1); rc=$?
fi
echo "$ID $PROP demo $d0 -> $d1; tests missing $T; check rc=$rc ($((SECONDS-t0)) s) $(grep -h '^violation' /tmp/plant-$ID.log 2>/dev/null | cut -c1-260)"
restore
