#!/bin/bash
# runseeds.sh [ids]: apply each planted bug to /repo, run its property's check, undo it
cd /verif; export RUST_BACKTRACE=0
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d: does not apply"; continue; }
  s=$SECONDS; out=$(timeout 900 python3 runner/check.py $p quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$d $p rc=$rc $((SECONDS-s))s: $(echo "$out" | grep -E 'counterexample|ERROR|VIOLATION' | head -1 | cut -c1-200)"
done
