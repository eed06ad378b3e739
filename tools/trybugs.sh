#!/bin/bash
# apply each planted bug to /repo, run its property's check, undo
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$d/meta.json'))['property'])")
  [ -z "$(git -C /repo status --short)" ] || { echo "repo dirty"; exit 1; }
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d: does not apply"; continue; }
  s=$(date +%s)
  timeout 900 ./run_check.py $p > /tmp/trybug.out 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$d: rc=$rc $(grep -m1 VIOLATION /tmp/trybug.out | cut -c1-200) [$(( $(date +%s)-s )) s] $(tail -1 /tmp/trybug.out | cut -c1-160)"
done
