#!/bin/bash
# catch.sh [id...]: apply each planted bug to /repo, run its property's quick check, undo; report
cd /verif
for id in ${@:-$(ls seeded)}; do
  prop=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  s=$(date +%s)
  VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./check.sh $prop quick >/tmp/catch.$id.out 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$id $prop rc=$rc $(( $(date +%s)-s ))s $(grep -a VIOLATION /tmp/catch.$id.out | head -3 | tr '\n' ' ')"
done
