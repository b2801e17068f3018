#!/bin/bash
# trybug.sh BUG... : apply each planted bug to /repo, run its property's quick check, undo.
for b in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$b/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$b/patch.diff || { echo "$b: does not apply"; continue; }
  o=$(cd /verif && VERIF_SEED=1 VERIF_TIER=quick ./run.sh $p 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$b $p rc=$rc $(echo "$o" | grep -a -m1 'VIOLATION')"
done
