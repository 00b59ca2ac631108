#!/bin/bash
# seedtest.sh ID...: confirm a planted change (applies, builds, stable tests pass, demo 0/1) and run its property's quick check on it
. /opt/vp/env.sh
for s in "$@"; do
  d=/verif/seeded/$s
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  cd /repo; [ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 1; }
  bash $d/demo.sh >/tmp/seed.$s.clean 2>&1; c=$?
  git apply $d/patch.diff || { echo "$s: patch does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/seed.$s.build 2>&1; b=$?
  bash /opt/vp/test.sh /tmp/seed.$s.json >/dev/null 2>&1
  miss=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed.$s.json'))
st=b.get('stable') or b.get('passed'); ps=set(r['passed'])
print(len([t for t in st if t not in ps]))
P
)
  bash $d/demo.sh >/tmp/seed.$s.patched 2>&1; x=$?
  st=$(date +%s)
  if [ -z "$NOCHECK" ]; then bash /verif/run.sh $p quick >/tmp/seed.$s.check 2>&1; k=$?; else k=-; fi
  git checkout -q -- .
  v=$(grep -c "VIOLATION property=$p" /tmp/seed.$s.check 2>/dev/null)
  echo "$s $p demo_clean=$c build=$b tests_missing=$miss demo_patched=$x check=$k viol=$v $(( $(date +%s)-st ))s"
done
