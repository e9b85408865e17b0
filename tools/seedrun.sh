#!/bin/bash
log=$(mktemp); trap 'rm -f "$log"' EXIT
cd "$(dirname "$0")/.."
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply $PWD/seeded/$d/patch.diff || { echo "$d: does not apply"; continue; }
  s=$(date +%s)
  VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 python3 check.py $p > "$log" 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$d $p rc=$rc $(($(date +%s)-s))s $(grep -m1 -v '^$' "$log" | cut -c1-170)"
done
