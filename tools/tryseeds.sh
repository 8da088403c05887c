#!/bin/bash
# tryseeds.sh [ID...] : runs the check of each planted change's property against it (development aid)
cd /verif
for d in seeded/*/; do
  id=$(basename $d); [ $# -gt 0 ] && ! [[ " $* " == *" $id "* ]] && continue
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $PWD/$d/patch.diff || { echo "$id does not apply"; continue; }
  out=$(VERIF_SEED=${VERIF_SEED:-1} ./check.sh $p quick 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(echo "$out" | grep -c ' scenario ') $(echo "$out" | grep ' scenario ' | awk '{print $1}' | sort | uniq -c | tr '\n' ' ')"
done
