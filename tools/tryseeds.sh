#!/bin/bash
# development aid: applies each given seed to /repo, runs its property's check, undoes it
cd /verif
for i in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$i/patch.diff || continue
  s=$(date +%s)
  timeout 900 python3-vt check.py $p > /tmp/seed.out 2>&1; r=$?
  git -C /repo checkout -- .
  echo "$i $p exit $r $(( $(date +%s) - s ))s: $(grep VIOLATION /tmp/seed.out | cut -c1-140 | head -2 | tr '\n' '|')"
done
