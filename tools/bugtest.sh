#!/bin/bash
# bugtest.sh ID [PROPERTY...|-]   tries a planted bug in throw-away overlays of /repo and /verif:
# demo without the patch, then build, stable tests, demo and the quick checks with it.
id=$1; shift
dir=/verif/seeded/$id
T=$(mktemp -d /tmp/bug.XXXXXX); mkdir -p $T/{ru,rw,vu,vw}
export T id dir VERIF_SEED=${VERIF_SEED:-1}
props="$*"; [ -z "$props" ] && props=$(python3 -c "import json;print(json.load(open('$dir/meta.json'))['property'])")
[ "$props" = - ] && props=
export props
unshare -Urm bash -c '
mount -t overlay overlay -o lowerdir=/repo,upperdir=$T/ru,workdir=$T/rw /repo || exit 9
mount -t overlay overlay -o lowerdir=/verif,upperdir=$T/vu,workdir=$T/vw /verif || exit 9
[ -d /verif/.build ] && { cp -a --reflink=auto /verif/.build $T/build; mount --bind $T/build /verif/.build || exit 9; }
cp -r $dir $T/demo; rm -f $T/demo/patch.diff
cd /repo
if [ -z "$NODEMO" ]; then bash $T/demo/demo.sh > $T/d0 2>&1; echo "$id demo clean: $?"; fi
git apply $dir/patch.diff || { echo "$id patch does not apply"; exit 8; }
find src -name "*.rs" -exec touch {} +
if [ -z "$NOTEST" ]; then
bash /opt/vp/build.sh > $T/b 2>&1 || { echo "$id does not build"; tail -20 $T/b; exit 8; }
bash /opt/vp/test.sh $T/t.json > $T/t 2>&1
python3 - $T/t.json <<X
import json,sys
b=json.load(open("/opt/vp/BASELINE.json"))["stable"]; r=json.load(open(sys.argv[1]))
p=set(r.get("passed",r.get("pass",[])))
bad=[x for x in b if x not in p]
print("$id stable tests:", "ok" if not bad else bad)
X
fi
if [ -z "$NODEMO" ]; then
cd /repo; bash $T/demo/demo.sh > $T/d1 2>&1; echo "$id demo patched: $? $(tail -3 $T/d1 | tr "\n" " " | cut -c1-300)"; fi
cd /verif; for p in $props; do python3 tools/check.py $p quick > $T/c 2>&1; echo "$id check $p: $? $(grep -m2 finding: $T/c | tr "\n" " "| cut -c1-300)  $(grep -c . $T/c) $(tail -1 $T/c)"; done
'
grep -q . $T/d0 2>/dev/null && tail -2 $T/d0
rm -rf "$T" 2>/dev/null || true
