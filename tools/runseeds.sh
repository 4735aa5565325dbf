#!/bin/bash
# apply each planted bug to /repo, run its property's check (or the given checks), undo.
cd /verif
for d in ${SEEDS:-seeded/*/}; do
  id=$(basename $d); p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: patch does not apply"; continue; }
  out=$(timeout 900 ./check.sh ${1:-$p} quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id ($p): rc=$rc $(echo "$out" | grep -c '^VIOLATION') $(echo "$out" | grep '^  \[' | head -1 | cut -c1-160)"
done
