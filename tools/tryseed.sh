#!/bin/bash
# tryseed.sh ID...: apply each planted bug to /repo, run the check of its property, undo.
cd /verif
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  t=$(date +%s); out=$(VERIF_SEED=1 VERIF_TIER=quick ./check.py $p 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(( $(date +%s) - t ))s $(echo "$out" | grep VIOLATION)"
done
