#!/bin/bash
# trybugs.sh [ids]: runs the check of each planted bug's property against /repo with the bug applied, then undoes it
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d does not apply"; continue; }
  s=$(date +%s); VERIF_SEED=1 python3-vt bin/check.py $p quick > /tmp/w/try_$d.txt 2>&1; rc=$?; e=$(date +%s)
  git -C /repo checkout -q -- .
  echo "$d $p rc=$rc $((e-s))s $(grep -c ^VIOLATION /tmp/w/try_$d.txt) $(grep -c no-failing /tmp/w/try_$d.txt) refuted-units=$(grep -c 'obligation failed' /tmp/w/try_$d.txt) $(grep '^C.. quick' /tmp/w/try_$d.txt | cut -c1-90)"
done
