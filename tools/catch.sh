#!/bin/bash
# catch.sh BUG... : apply each planted bug to /repo, run the check of its property, undo it
cd /verif
for b in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$b/patch.diff || { echo "$b does not apply"; continue; }
  python3-vt engine/check.py $p > /tmp/catch.$b 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$b $p rc=$rc $(grep -c '^VIOLATION' /tmp/catch.$b) $(grep '^VIOLATION' /tmp/catch.$b | head -3 | sed 's/.*replay=[^ ]*evidence.replays.//' | tr '\n' ';')"
done
