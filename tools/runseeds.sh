#!/bin/bash
# runseeds.sh [id...]: applies each planted change to /repo in turn, runs the check of its property and prints the outcome.
cd /verif/seeded || exit 2
[ $# -eq 0 ] && set -- *
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('$id/meta.json'))['property'])")
  git -C /repo apply "/verif/seeded/$id/patch.diff" || { echo "$id DOES NOT APPLY"; continue; }
  s=$(date +%s)
  o=$(bash /verif/check.sh "$p" 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(( $(date +%s) - s ))s $(grep -m1 '^VIOLATION' <<<"$o" | cut -c1-160)"
done
