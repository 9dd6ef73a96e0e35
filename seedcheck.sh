#!/bin/bash
# runs the check of each planted bug's property with the bug applied to /repo
cd "$(dirname "$0")" || exit 1
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json,sys;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d $p DOES NOT APPLY"; continue; }
  t=$(date +%s)
  VERIF_TIER=quick VERIF_SEED=1 ./check.py $p > /tmp/seedcheck.$d.log 2>&1; rc=$?
  git -C /repo checkout -- . 
  echo "$d $p rc=$rc $(( $(date +%s) - t ))s $(grep -m1 VIOLATION /tmp/seedcheck.$d.log)"
done
