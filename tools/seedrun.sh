#!/bin/bash
# usage: seedrun.sh ID... : applies each planted change to /repo, runs its property's quick check, undoes it
cd /verif
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id APPLY FAILED"; continue; }
  out=$(./check.sh ${CHECK:-$p} ${TIER:-quick} -noevidence 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(grep -m1 VIOLATION <<<"$out") | $(tail -1 <<<"$out")"
done
