#!/bin/bash
# trybugs.sh [ID...]: run each planted bug's check against it (in /repo, undone afterwards)
cd /verif
for b in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$b/patch.diff || { echo "$b: patch does not apply"; continue; }
  s=$(date +%s)
  o=$(VERIF_SEED=1 ./check.sh $p quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$b $p exit=$rc $(( $(date +%s) - s ))s $(echo "$o" | grep -c '^  FAILED') failed; $(echo "$o" | grep 'failing input (' | cut -c1-140) $(echo "$o" | grep '^VIOLATION' | grep -o 'no-failing.*')"
done
