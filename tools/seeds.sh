#!/bin/bash
# apply each seed to /repo, run its property's quick check, undo
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d APPLY"; continue; }
  s=$(date +%s)
  VERIF_SEED=1 timeout 900 python3 check.py $p quick > "${OUT:-/tmp}/seed-$d.out" 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$d $p rc=$rc $(grep -c ^VIOLATION "${OUT:-/tmp}/seed-$d.out") $(( $(date +%s)-s ))s $(tail -1 "${OUT:-/tmp}/seed-$d.out" | cut -c1-100)"
done
