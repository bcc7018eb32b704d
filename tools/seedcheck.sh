#!/bin/bash
# seedcheck.sh ID [PROPERTY...]: try the planted bug seeded/ID in copies of /repo and /verif:
# demo on the clean tree, build, stable tests, demo with the bug, then the checks named.
# (a development tool: no registered check uses it)
V=$(cd "$(dirname "$0")/.." && pwd)
id=$1; shift
W=$(mktemp -d /tmp/seed-$id-XXXX)
cp -a /repo $W/repo; mkdir $W/verif; cp -a $V/. $W/verif/
export W id V
export TESTS=${TESTS-1}
unshare -Urm bash -s -- "$@" <<'IN'
mount --bind $W/repo /repo || exit 9
mount --bind $W/verif /verif || exit 9
mkdir $W/demo; cp -r $V/seeded/$id/. $W/demo/; rm -f $W/demo/*.diff $W/demo/meta.json
cd /repo
if [ "$TESTS" = 1 ]; then
bash /opt/vp/build.sh >$W/b0 2>&1 || { echo "$id: clean build failed"; exit 9; }
timeout 300 bash $W/demo/demo.sh >$W/d0 2>&1 && echo "$id: demo clean ok" || { echo "$id: DEMO FAILS ON CLEAN"; tail -5 $W/d0; exit 9; }
fi
git apply $V/seeded/$id/patch.diff || { echo "$id: patch does not apply"; exit 9; }
if [ "$TESTS" = 1 ]; then
bash /opt/vp/test.sh $W/r.json >$W/t.log 2>&1
python3 - <<P
import json
s=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); r=json.load(open('$W/r.json')); p=set(r['passed'])
m=s-p
print('$id: stable tests', 'all pass' if not m else 'FAIL %s'%sorted(m)[:5])
P
timeout 300 bash $W/demo/demo.sh >$W/d1 2>&1 && echo "$id: DEMO DOES NOT SEE IT" || echo "$id: demo fails with the bug ($(tail -1 $W/d1 | cut -c1-150))"
fi
cd /verif
for p in "$@"; do
  timeout 900 python3 bin/check.py $p --tier quick >$W/c.$p 2>&1; rc=$?
  echo "$id: check $p rc=$rc $(grep -c VIOLATION $W/c.$p) violations; $(tail -1 $W/c.$p | cut -c1-160)"
  [ -n "$SHOW" ] && grep VIOLATION $W/c.$p | head -1 | sed 's/.*replay=//' | xargs cut -c1-1500
done
IN
rm -rf "$W"
