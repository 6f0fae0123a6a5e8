#!/bin/bash
# apply each planted bug to /repo in turn, run the check of its property, undo it
cd /verif
for d in /verif/seeded/*/; do
  n=$(basename $d); [ -n "$1" ] && [[ ! $n =~ $1 ]] && continue
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $d/patch.diff || { echo "$n does not apply"; continue; }
  s=$(date +%s)
  VERIF_SEED=1 timeout 900 python3-vt engine/check.py $p quick > /tmp/seed_$n.txt 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$n $p rc=$rc $(( $(date +%s) - s ))s $(grep -m1 VIOLATION /tmp/seed_$n.txt)"
done
