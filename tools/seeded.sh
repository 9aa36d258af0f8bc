#!/bin/bash
# tools/seeded.sh [ID...]: apply each planted bug to /repo, run its property's quick check, undo
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json,sys;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d: patch does not apply"; continue; }
  out=$(python3-vt -B check.py $p --tier quick 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$d ($p) rc=$rc $(echo "$out" | grep -c '^VIOLATION')  $(echo "$out" | grep VIOLATION | head -1 | grep -o 'no-failing.*')"
  echo "$out" | sed -n '2,6p' | cut -c1-220
done
