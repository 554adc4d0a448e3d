#!/bin/bash
# runbugs.sh [ID...]: apply each planted bug to /repo, run its property's quick check, undo it, print the outcome
cd /verif
ids=("$@"); [ ${#ids[@]} = 0 ] && ids=($(ls seeded))
for id in "${ids[@]}"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: patch does not apply"; continue; }
  s=$(date +%s); out=$(python3 check.py $p 2>&1); rc=$?; e=$(date +%s)
  git -C /repo checkout -- .
  echo "$id [$p] exit=$rc $((e-s))s $(echo "$out" | grep -E '^VIOLATION|^ERROR' | head -1 | cut -c1-150)"
done
