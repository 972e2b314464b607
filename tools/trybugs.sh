#!/bin/bash
# trybugs.sh [ID...]: runs the check of each planted bug's property against a scratch copy (/tmp/s0) with the bug applied
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /tmp/s0 checkout -q -- . && git -C /tmp/s0 apply /verif/seeded/$d/patch.diff || { echo "$d: does not apply"; continue; }
  s=$(date +%s)
  SIM_REPO=/tmp/s0 python3 check.py $p > /tmp/try.$d.out 2>&1; rc=$?
  echo "$d $p rc=$rc $(( $(date +%s) - s ))s $(grep -m1 -o '^class=.*' /tmp/try.$d.out | cut -c1-150)"
  git -C /tmp/s0 checkout -q -- .
done
