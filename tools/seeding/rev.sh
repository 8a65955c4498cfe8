# rev.sh COMMIT CHECK : run check on a copy of /repo with the commit reverted
d=/tmp/rev.$1; mkdir -p $d; git -C /repo archive HEAD | tar x -C $d
if git -C /repo show $1 | (cd $d && patch -R -p1 -s -f > $d/patch.log 2>&1); then :; else echo "$1 $2 PATCH-CONFLICT"; rm -rf "$d"; exit; fi
VERIF_REPO=$d python3 /verif/run.py $2 > $d/out 2>&1; r=$?
echo "$1 $2 exit $r $(grep -m1 '  scenario' $d/out | cut -c1-150)"
rm -rf "$d"
