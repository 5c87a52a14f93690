#!/bin/bash
# Run the check of each planted bug's property against it: try_seeds.sh [ID...]
cd /verif || exit 1
[ -z "$(git -C /repo status --porcelain -uno)" ] || { echo "/repo is not clean"; exit 1; }
for s in ${*:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  git -C /repo apply "/verif/seeded/$s/patch.diff" || { echo "$s: does not apply"; continue; }
  out=$(VERIF_SEED=1 ./check.sh "$p" quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$p " <<<"$out"; then echo "$s: caught by $p"; else echo "$s: MISSED by $p (exit $rc)"; fi
  grep -B1 "^VIOLATION" <<<"$out" | head -1 | cut -c1-250
done
