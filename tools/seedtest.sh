#!/bin/bash
# seedtest.sh [tier] IDs...: applies each planted change to a scratch copy and runs its property's check there (TOSCA_REPO)
cd /verif
for id in "$@"; do
  rm -rf /tmp/seedrun; cp -a /repo /tmp/seedrun; git -C /tmp/seedrun checkout -q -- .; git -C /tmp/seedrun apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  s=$(date +%s); TOSCA_REPO=/tmp/seedrun python3-vt check.py $p quick > /tmp/seedrun.log 2>&1; rc=$?
  echo "$id $p rc=$rc $(( $(date +%s) - s ))s $(grep -m1 counterexample /tmp/seedrun.log | cut -c1-200)"
done
rm -rf /tmp/seedrun
