#!/bin/bash
# runs the check of each planted bug's property against it in a scratch copy: hunt.sh [id...]
cd /verif
for id in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  d=$(mktemp -d /tmp/hunt_XXXX); git clone -q /repo $d/r; git -C $d/r apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  s=$(date +%s); VERIF_REPO=$d/r timeout 900 python3 run.py ${P:-$p} --tier quick > /tmp/hunt_$id.log 2>&1; rc=$?; e=$(date +%s)
  rm -rf $d
  echo "$id ${P:-$p} rc=$rc $((e-s))s $(grep -c '^VIOLATION' /tmp/hunt_$id.log) $(grep -m1 '^VIOLATION' /tmp/hunt_$id.log | cut -c1-120) $(tail -1 /tmp/hunt_$id.log)"
done
