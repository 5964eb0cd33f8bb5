#!/bin/bash
# catch.sh ID...: apply each planted bug to /repo, run its property's quick check, undo.
for id in "$@"; do
  S=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  git -C /repo apply $S/patch.diff || { echo "$id patch does not apply"; continue; }
  t=$(date +%s); /verif/check $p quick > /tmp/catch_$id.log 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(( $(date +%s) - t ))s  $(grep -m1 -E '^violated|CHECK-ERROR' /tmp/catch_$id.log | cut -c1-160)"
done
