#!/bin/bash
# tools/seed.sh ID [--notest]: confirms seeded/ID in a scratch copy of /repo and runs its property's check there.
id=$1; here=$(cd "$(dirname "$0")/.." && pwd)
d=$here/seeded/$id; s=/tmp/seed.$id.$$
cp -a /repo $s || exit 2
trap 'rm -rf "$s" "$s.d"' EXIT
mkdir $s.d && cp $d/* $s.d/ && rm -f $s.d/*.diff $s.d/meta.json
cd $s
bash $s.d/demo.sh >$s.d/o1 2>&1 || { echo "$id: demo fails on clean tree"; tail -5 $s.d/o1; exit 1; }
git apply $d/patch.diff || { echo "$id: patch does not apply"; exit 1; }
sed "s#/repo#$s#g" /opt/vp/build.sh > $s.d/build.sh
sed "s#/repo#$s#g; s#/opt/vp/build.sh#$s.d/build.sh#g" /opt/vp/test.sh > $s.d/test.sh
if [ "$2" != "--notest" ]; then
  bash $s.d/test.sh $s.d/o.json >$s.d/tlog 2>&1
  python3 - $s.d/o.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
m=set(b['stable'])-set(o['passed'])
print('tests:', len(o['passed']), 'missing:', sorted(m)[:5])
P
else bash $s.d/build.sh >$s.d/tlog 2>&1 || { echo build fails; tail $s.d/tlog; }
fi
bash $s.d/demo.sh >$s.d/o2 2>&1 && echo "$id: DEMO PASSES WITH PATCH" || { echo "$id: demo fails with patch (good):"; tail -1 $s.d/o2; }
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd $here
HATCHET_REPO=$s ./run.sh $p quick > $s.d/c 2>&1; rc=$?
echo "$id: check $p rc=$rc $(grep -c VIOLATION $s.d/c) violation lines"; grep VIOLATION $s.d/c | head -2
