#!/bin/bash
# trybug.sh ID...: runs the check of each seeded bug's property against it (in /repo, undone afterwards).
cd /verif
for b in "$@"; do
  p=$(python3 -c "import json,sys;print(json.load(open('seeded/$b/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$b/patch.diff || { echo "$b: does not apply"; continue; }
  s=$(date +%s)
  VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 python3 bin/check.py $p > /tmp/try.$b.log 2>&1; rc=$?
  git -C /repo checkout -- .
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$p" /tmp/try.$b.log; then echo "$b: CAUGHT by $p ($(($(date +%s)-s)) s)"; else echo "$b: MISSED by $p rc=$rc ($(($(date +%s)-s)) s)"; fi
done
