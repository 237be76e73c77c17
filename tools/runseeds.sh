#!/bin/bash
# runs each planted bug against the check of its property; usage: runseeds.sh [id...]
cd "$(dirname "$0")/.."
ids=${*:-$(ls seeded)}
trap 'git -C /repo checkout -q -- .' EXIT
for id in $ids; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
  s=$(date +%s); out=$(./check.sh $p quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  if [ $rc = 1 ] && grep -q "VIOLATION property=$p" <<< "$out"; then echo "$id $p caught $(( $(date +%s)-s ))s: $(grep -m1 VIOLATION <<< "$out" | cut -c1-150)"; else echo "$id $p MISSED rc=$rc"; fi
done
