#!/bin/bash
# catch.sh [ID...]: applies each planted bug to /repo, runs its property's quick check, and undoes it.
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  [ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d does not apply"; continue; }
  s=$(date +%s)
  out=$(timeout 900 ./run.sh check "${PROP:-$p}" 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$d ${PROP:-$p} rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep -c '^VIOLATION') $(echo "$out" | grep -A1 '^VIOLATION' | tail -1 | cut -c1-120)"
done
