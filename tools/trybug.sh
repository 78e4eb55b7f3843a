#!/bin/bash
# trybug.sh ID [check args]: apply, run the property's check, undo
id=$1; shift
prop=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
git -C /repo apply /verif/seeded/$id/patch.diff || exit 3
cd /verif; s=$(date +%s); out=$(VERIF_SEED=${SEED:-1} VERIF_TIER=quick timeout 900 ./check ${CHK:-$prop} "$@" 2>&1); rc=$?
git -C /repo checkout -- .
echo "$id ${CHK:-$prop} rc=$rc $(( $(date +%s)-s ))s $(echo "$out" | grep -m1 VIOLATION)"
[ $rc -gt 1 ] && echo "$out" | tail -20
exit 0
