#!/bin/bash
# catch.sh ID... : runs the check of the seed's property against it
for id in "$@"; do
 d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
 rm -rf /tmp/cw-$id; cp -a /repo /tmp/cw-$id; git -C /tmp/cw-$id apply $d/patch.diff || { echo "$id no apply"; continue; }
 s=$(date +%s); o=$(cd /verif && VERIF_REPO=/tmp/cw-$id bin/check $p 2>&1); rc=$?
 echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(echo "$o" | grep -m1 -A1 VIOLATION | tr '\n' ' ' | cut -c1-200)"
 rm -rf /tmp/cw-$id
done
