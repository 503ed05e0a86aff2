#!/bin/bash
# plant.sh ID: confirm the planted change seeded/ID in a scratch copy of /repo, mounted over /repo in a
# private mount namespace: it must apply, build and pass the stable tests, and its demonstration must
# succeed on the unchanged tree and fail with the change.
ID=$1
H=$(cd "$(dirname "$0")/.." && pwd)
D=$H/seeded/$ID
W=$(mktemp -d /tmp/plantXXXXXXXX)
mkdir -p $W/repo $W/build $W/demo
cp -a ${SRC:-/repo}/. $W/repo/
cp -a /opt/vp-build/. $W/build/
cp -a $D/. $W/demo/; find $W/demo \( -name '*.diff' -o -name meta.json \) -delete
run() { unshare -Urm bash -c "mount --bind $W/repo /repo && mount --bind $W/build /opt/vp-build && cd /repo && $1"; }
run "timeout 300 bash $W/demo/demo.sh" > $W/clean.log 2>&1; clean=$?
git -C $W/repo apply $D/patch.diff || { echo "$ID: DOES NOT APPLY"; find $W -delete; exit 1; }
run "bash /opt/vp/build.sh" > $W/build.log 2>&1; build=$?
run "timeout 300 bash $W/demo/demo.sh" > $W/bad.log 2>&1; bad=$?
tests=skipped
if [ -z "$NOTESTS" ]; then
  run "bash /opt/vp/test.sh $W/build/out.json" > $W/test.log 2>&1
  tests=$(python3 - $W/build/out.json <<'P'
import json, sys
b = json.load(open('/opt/vp/BASELINE.json'))['stable']
try:
    o = set(json.load(open(sys.argv[1]))['passed'])
    print('ok' if set(b) <= o else 'FAIL ' + ' '.join(sorted(set(b) - o)))
except Exception as e:
    print('FAIL', e)
P
)
fi
echo "$ID: clean=$clean build=$build patched=$bad tests=$tests"
[ $clean != 0 ] && tail -5 $W/clean.log
tail -2 $W/bad.log | cut -c1-200
find $W -delete
