#!/bin/bash
# development helper: which of the planted bugs (args, default all) does its property's quick check report?
cd /verif/seeded; ids="$*"; [ -z "$ids" ] && ids=$(ls)
for i in $ids; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$i/patch.diff || { echo "$i does not apply"; continue; }
  s=$(date +%s); out=$(/verif/run.sh $p quick 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$i $p rc=$rc $(( $(date +%s)-s ))s $(echo "$out" | grep -m1 VIOLATION)"
done
