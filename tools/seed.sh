#!/bin/bash
# seed.sh ID...: run the check of a planted bug's property with the bug applied to /repo, then undo it.
cd /verif
for i in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  git -C /repo apply seeded/$i/patch.diff 2>/dev/null || git -C /repo apply /verif/seeded/$i/patch.diff || { echo "$i: does not apply"; continue; }
  for q in $p $EXTRA; do
    out=$(./check.sh $q quick 2>&1); rc=$?
    echo "== $i $q rc=$rc"; echo "$out" | grep -v "^ok\|obligations," | head -${N:-6}; echo "$out" | tail -1
  done
  git -C /repo checkout -- .
done
