#!/bin/bash
# usage: trybug.sh ID [notest]: confirm a planted bug in a scratch copy of
# /repo, outside /repo and /verif, and run the check of its property on it.
# Never touches /repo.
id=$1
d=/verif/seeded/$id
T=/tmp/mut/$id
rm -rf "/tmp/mut/${id:?}"
mkdir -p $T
git -C /repo archive HEAD | tar -x -C $T
cd $T && git init -q . && git apply $d/patch.diff || { echo "$id: DOES NOT APPLY"; exit 1; }
sed "s#/repo#$T#g" /opt/vp/build.sh > $T/.build.sh
sed "s#/repo#$T#g" /opt/vp/test.sh > $T/.test.sh
bash $T/.build.sh >/dev/null 2>&1 || { echo "$id: BUILD FAILS"; exit 1; }
D=$(mktemp -d)
cp $d/* $D/; rm -f $D/patch.diff $D/meta.json
(cd /repo && timeout 300 bash $D/demo.sh >/tmp/mut/$id.demo0 2>&1); a=$?
(cd $T && timeout 300 bash $D/demo.sh >/tmp/mut/$id.demo1 2>&1); b=$?
rm -rf "$D"
t=skipped
if [ "$2" != notest ]; then
    bash $T/.test.sh $T/.out.json >/tmp/mut/$id.test 2>&1
    t=$(python3 - $T/.out.json <<'P'
import json, sys
base = json.load(open('/opt/vp/BASELINE.json'))['stable']
try:
    d = json.load(open(sys.argv[1]))
except Exception as e:
    print('no results', e); sys.exit()
p = set(d.get('passed', d.get('pass', [])))
print('ok' if set(base) <= p else 'FAILS: %s' % sorted(set(base) - p)[:5])
P
)
fi
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
SDEPY_ROOT=$T /verif/run.sh check $prop quick >/tmp/mut/$id.check 2>&1; c=$?
echo "$id: demo base=$a patched=$b tests=$t check($prop)=$c $(grep -m1 '^case' /tmp/mut/$id.check | cut -c1-150)"
rm -rf "/tmp/mut/${id:?}"
