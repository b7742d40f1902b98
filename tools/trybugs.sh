#!/bin/bash
# apply each planted bug to /repo in turn, run its property's check, undo
cd /verif
for d in ${@:-seeded/*/}; do
  d=${d%/}; id=$(basename $d); d=seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply /verif/$d/patch.diff || { echo "$id: does not apply"; continue; }
  out=$(python3 tools/check.py $prop 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id $prop rc=$rc $(echo "$out" | grep -E '^VIOLATION|^observed|^failed obl|held:|Error|^\[.*note' | cut -c1-220 | tr '\n' '|')"
done
