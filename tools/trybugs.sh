#!/usr/bin/env bash
# usage: trybugs.sh [ID...]  apply each planted bug to /repo, run its property's check, undo it
cd /verif
ids="$*"; [ -z "$ids" ] && ids=$(ls seeded)
for id in $ids; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo diff --quiet || { echo "/repo dirty"; exit 1; }
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id APPLY FAILED"; continue; }
  t=$(date +%s); out=$(${VH_CHECK:-./check} "$p" 2>&1); rc=$?
  git -C /repo checkout -- .
  n=$(echo "$out" | grep -c "^VIOLATION property=$p")
  [ $rc = 1 ] && [ "$n" -gt 0 ] && v=CAUGHT || v="MISSED rc=$rc"
  echo "$id $p $v ($n) $(( $(date +%s) - t ))s"
done
