#!/bin/bash
# tools/plant.sh ID [full|fast|demo]: confirms a planted bug of seeded/ID in scratch copies: demo 0 clean / nonzero patched,
# stable tests (full: all files; fast: the files named in $TESTS) still pass, and which checks ($CHECKS, default the property's) catch it.
ID=$1; MODE=${2:-full}
V=${VROOT:-/verif}; R=${VF_REPO:-/repo}; D=$V/seeded/$ID
S=$(mktemp -d /tmp/plant.XXXXXX); trap 'rm -rf "$S"' EXIT
export LANG=C.UTF-8 MPLBACKEND=Agg MPLCONFIGDIR=/opt/vp/mplconfig PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
git -C $R apply --check $D/patch.diff || { echo "$ID PATCH DOES NOT APPLY"; exit 1; }
mkdir $S/repo && cd $R && cp -r $(ls -A | grep -vxE 'build|.*\.egg-info|\.git') $S/repo/
cd $S/repo && git init -q . 2>/dev/null
P=$(/usr/bin/python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
mkdir $S/demo && cp -r $D/. $S/demo/ && rm -f $S/demo/patch.diff $S/demo/meta.json
demo() { ( cd $S/repo && export HOME=$S/h$1 && mkdir -p $HOME && PYTHONPATH=$S/repo timeout 300 bash $S/demo/demo.sh > $S/demo.$1 2>&1; echo $? ); }
r0=$(demo clean)
git -C $S/repo apply $D/patch.diff
r1=$(demo patched)
echo "$ID ($P) demo clean=$r0 patched=$r1 : $(tail -n1 $S/demo.patched)"
[ "$r0" != 0 ] && tail -5 $S/demo.clean
[ $MODE = demo ] && exit
mkdir -p $S/w $S/reports $S/logs; rm -rf $S/src; mv $S/repo $S/src; rm -rf $S/src/.git
cd $S/src
if [ $MODE = full ]; then { cat /opt/vp/slow_first.txt; ls tests/test_*.py; } | awk '!s[$0]++' | grep -vxF -f /opt/vp/skip_files.txt > $S/files; else ls $TESTS > $S/files; fi
xargs -a $S/files -P ${J:-8} -n 1 bash /opt/vp/runone.sh $S > /dev/null 2>&1
/usr/bin/python3 /opt/vp/results.py $S/out.json "junit:$S/reports/*.xml" >/dev/null
/usr/bin/python3 - $S/out.json $S/files <<'PY'
import json,sys
o=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))['stable']
files={'tests.'+l.strip()[6:-3] for l in open(sys.argv[2])}
passed=set(o.get('passed',o if isinstance(o,list) else [k for k,v in o.items() if v in (True,'passed')]))
miss=[t for t in b if t.split('::')[0] in files and t not in passed]
print("stable tests: %d of %d checked, broken: %s" % (len([t for t in b if t.split('::')[0] in files]), len(b), miss))
PY
mkdir -p $S/ev
for c in ${CHECKS-$P}; do VF_REPO=$S/src VF_EVIDENCE=$S/ev VERIF_SEED=${SEED:-1} bash $V/run.sh $c quick > $S/c 2>&1; echo "check $c exit $? $(grep -m1 VIOLATION $S/c)"; done
