#!/bin/bash
# trybugs.sh NAME...: applies each planted bug to /repo, runs the check of its property, undoes it
cd "$(dirname "$0")/.."
for n in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$n/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$n/patch.diff" || { echo "$n: does not apply"; continue; }
  python3 check.py $p > /tmp/trybugs.out 2>&1; rc=$?
  echo "$n: rc=$rc $(grep '^  \[' /tmp/trybugs.out | head -1 | cut -c1-200)"
  git -C /repo checkout -- .
done
