#!/bin/bash
# tools/seed.sh <seed dir> [check ids...]: confirm a planted bug in a scratch copy (development only)
S=$(realpath "$1"); shift
W=$(mktemp -d /tmp/seed.XXXXXX)
cp -a /repo "$W/repo"
rm -rf "$W/repo/.git/worktrees"
cd "$W/repo"
DM=$W/demo; mkdir $DM; cp -r "$S"/. $DM/; rm -f $DM/*.diff $DM/meta.json
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
sed -i "s#/repo#$W/repo#g" $DM/* 
bash $DM/demo.sh >$W/o1 2>&1; a=$?
git apply "$S/patch.diff" || echo "PATCH DOES NOT APPLY"
bash $DM/demo.sh >$W/o2 2>&1; b=$?
echo "$(basename $S): demo clean=$a patched=$b"
[ $a != 0 ] && tail -3 $W/o1
if [ -z "$NOTESTS" ]; then
HOME=/root PYTHONHASHSEED=0 MPLBACKEND=Agg timeout 900 /opt/venv/bin/python -m pytest -q -p no:cacheprovider -n 4 --randomly-seed=0 --randomly-dont-reorganize --timeout=600 --continue-on-collection-errors -o junit_family=xunit2 --junitxml=$W/main.xml -k "$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))
print(' or '.join(sorted({t.split('::')[1] for t in b['stable']})))
P
)" PyQCodes >$W/tests.log 2>&1
tail -1 $W/tests.log
/opt/venv/bin/python /opt/vp/results.py $W/out.json "junit:$W/*.xml" >/dev/null
python3 - $W/out.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
print('  stable tests broken:', [t for t in b['stable'] if t not in o['passed']])
P
fi
for c in "$@"; do
  (cd /verif && VERIF_REPO=$W/repo VERIF_EVID=$W timeout 900 ./run.sh $c > $W/c.log 2>&1; echo "  $c exit $?  $(grep -c VIOLATION $W/c.log) violations  $(grep -c UNDECIDED $W/c.log) undecided"; [ -n "$V" ] && cut -c1-300 $W/c.log)
done
rm -rf "$W"
