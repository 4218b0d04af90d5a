#!/bin/bash
# try_bug.sh ID [PROPERTY...]: everything a planted bug must satisfy, and whether the checks catch it (development aid)
# COUNT=n limits scenarios; CHECKS=all runs every check
ID=$1; shift; T=${NSTMP:-/tmp}; D=/verif/seeded/$ID
P=${*:-$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")}
clean() { git -C /repo checkout -q -- .; }
trap clean EXIT
cp -r $D $T/demo_$ID
git -C /repo apply $D/patch.diff || { echo "$ID: patch does not apply"; rm -rf $T/demo_$ID; exit 1; }
bash /opt/vp/build.sh >$T/bb.log 2>&1 || echo "$ID: DOES NOT BUILD"
(cd /repo && timeout 300 bash $T/demo_$ID/demo.sh >$T/demo_$ID.out 2>&1); r=$?
if [ -z "$NOTEST" ]; then
bash /opt/vp/test.sh $T/tt.json >/dev/null 2>&1
python3 - <<PY
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('$T/tt.json'))
st=b.get('stable') or b.get('passed') or b
miss=[x for x in st if x not in t['passed']]
print("$ID: tests", "ok" if not miss else "FAIL %s"%miss[:3])
PY
fi
echo "$ID: demo with bug exits $r ($(tail -1 $T/demo_$ID.out | cut -c1-150))"
for p in $P; do
  VH_COUNT=$COUNT; [ -n "$COUNT" ] && export VH_COUNT || unset VH_COUNT
  o=$(cd /verif && ./check.sh $p quick 2>&1); c=$?
  echo "$ID: $p exits $c; $(echo "$o" | grep -a '^scenario' | head -1 | cut -c1-260)"
  echo "$o" | grep -aE '^(simulator|could)' | cut -c1-200
  echo "$o" | grep -a "^$p:" | cut -c1-200
done
clean; trap - EXIT
bash /opt/vp/build.sh >$T/bb.log 2>&1
(cd /repo && timeout 300 bash $T/demo_$ID/demo.sh >$T/demo_$ID.out 2>&1); echo "$ID: demo without bug exits $? $(tail -1 $T/demo_$ID.out | cut -c1-150)"
rm -rf $T/demo_$ID
