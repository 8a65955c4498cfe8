#!/bin/bash
# test.sh ID... : confirm a seed and say whether its property's check catches it
cd /repo
trap 'git -C /repo checkout -q -- .' EXIT
for id in "$@"; do
 d=/verif/seeded/$id
 git checkout -q -- .
 prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
 if ! git apply "$d/patch.diff"; then echo "$id: DOES NOT APPLY"; continue; fi
 b=$(bash /tmp/bt.sh 2>&1 | tail -1)
 bash $d/demo.sh >/tmp/seedtools/demo.out 2>&1; dp=$?
 if [ -z "$NOCHECK" ]; then (cd /verif && VERIF_TIER=quick VERIF_SEED=1 timeout 900 python3 run.py $prop >/tmp/seedtools/$id.out 2>&1; echo $? >/tmp/seedtools/rc); rc=$(cat /tmp/seedtools/rc); fi
 git checkout -q -- .
 bash /opt/vp/build.sh >/dev/null 2>&1
 bash $d/demo.sh >/tmp/seedtools/demo0.out 2>&1; d0=$?
 echo "$id: tests [$b] demo clean=$d0 patched=$dp ($(tail -1 /tmp/seedtools/demo.out)) check=$rc $(grep -m1 VIOLATION /tmp/seedtools/$id.out | cut -c1-150)"
done
