#!/bin/bash
# catch.sh [ID...]: run the check of each planted bug's property with the bug applied to /repo
cd /verif
for id in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: NO APPLY"; continue; }
  for c in ${CHECKS:-$p}; do
    s=$(date +%s); timeout 900 ./check $c ${TIER:-quick} > /tmp/catch.$id.$c.log 2>&1; rc=$?
    echo "$id $c rc=$rc $(( $(date +%s) - s ))s $(grep -m1 VIOLATION /tmp/catch.$id.$c.log | cut -c1-150)"
  done
  git -C /repo checkout -q -- .
done
