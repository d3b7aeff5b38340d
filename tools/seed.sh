#!/bin/bash
# tools/seed.sh ID [seeds...]: apply a planted bug, run its property's check, undo
id=$1; shift
prop=$(python3 -c "import json,sys;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
git -C /repo apply /verif/seeded/$id/patch.diff || exit 9
for s in ${@:-1}; do python3 /verif/check.py $prop --seed $s | tail -1; echo "$id seed $s rc=${PIPESTATUS[0]}"; done
git -C /repo checkout -- .
