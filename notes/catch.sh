#!/bin/bash
# applies each planted bug given (or all), runs the quick check of its property, undoes it
cd /verif
for b in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$b/patch.diff || { echo "$b NOAPPLY"; continue; }
  out=$(VERIF_SEED=1 VERIF_TIER=quick timeout 900 bin/check $p quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$b $p rc=$rc $(echo "$out" | tail -1 | cut -c1-150)"
done
