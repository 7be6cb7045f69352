#!/bin/bash
# tools/plant.sh ID [tests] : verify /verif/seeded/ID in a scratch copy; runs demo, optionally the test suite, and the property check
ID=$1; S=/verif/seeded/$ID; W=$(mktemp -d /tmp/plantXXXX); trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"; cd "$W/repo" || exit 1
git apply "$S/patch.diff" || { echo "$ID: patch does not apply"; exit 1; }
export PYTHONPATH="$W/repo/src" PYTHONDONTWRITEBYTECODE=1
( unset PYTHONPATH; cd /repo; bash $S/demo.sh >/tmp/demo_$ID.clean 2>&1 ); a=$?
bash $S/demo.sh >/tmp/demo_$ID.bug 2>&1; b=$?
echo "$ID demo clean=$a bug=$b"
if [ "$2" = tests ]; then
 sed "s#^R=/repo#R=$W/repo#" /opt/vp/test.sh > $W/t.sh; bash $W/t.sh /tmp/plant_$ID.json | tail -1
 python3 - <<P
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']) if 'stable' in json.load(open('/opt/vp/BASELINE.json')) else None
r=json.load(open('/tmp/plant_$ID.json'))
print(str(r)[:0], 'failed:', r.get('failed') if isinstance(r.get('failed'),list) else '')
P
fi
for P in ${CHECKS:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}; do
 ( cd /verif; unset PYTHONPATH; VF_REPO="$W/repo" VERIF_SEED=${SEED:-1} ./check $P > /tmp/plant_$ID.$P.log 2>&1; echo "$ID check $P exit $?"; grep -a "violated" /tmp/plant_$ID.$P.log | head -2| cut -c1-250 )
done
