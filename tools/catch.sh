#!/bin/bash
# catch.sh ID... — apply each planted bug to /repo, run its property's check, undo it.
cd "$(dirname "$0")/.."
for i in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$i/patch.diff" || { echo "$i DOES NOT APPLY"; continue; }
  t0=$SECONDS
  out=$(python3 check.py "$p" 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$i $p rc=$rc $((SECONDS-t0))s $(echo "$out" | grep -E '^VIOLATION|obligation:' | tr '\n' ' ' | cut -c1-220)"
done
