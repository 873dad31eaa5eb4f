#!/bin/bash
# hunt.sh [ids]: run the check of each planted bug's property against /repo with the bug applied.
cd /verif
ids=${@:-$(ls seeded)}
for b in $ids; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$b/patch.diff || { echo "$b: does not apply"; continue; }
  s=$(date +%s)
  python3 check.py $p --tier quick > /tmp/hunt.$b.log 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$b $p rc=$rc $(( $(date +%s) - s ))s $(grep -m1 '^VIOLATION' /tmp/hunt.$b.log)"
done
