#!/bin/bash
# catch.sh ID [CHECKS]: run the checks (default: the one of its property) against the planted change, in a scratch copy.
ID=$1
H=$(cd "$(dirname "$0")/.." && pwd)
D=$H/seeded/$ID
C=${2:-$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")}
W=$(mktemp -d /tmp/catchXXXXXXXX)
cp -a ${SRC:-/repo}/. $W/
git -C $W apply $D/patch.diff || exit 1
out=""
for c in $C; do
  (cd $H && VERIF_REPO=$W VERIF_SEED=${SEED:-1} VERIF_TIER=quick timeout 900 /opt/venv/bin/python check.py $c --tier ${TIER:-quick}) > $W/log 2>&1
  rc=$?
  n=$(grep -c "^VIOLATION property=$c " $W/log)
  out="$out $c:$rc:$n"
  [ -n "$VERBOSE" ] && grep -A2 "^VIOLATION" $W/log | head -6 | cut -c1-250
done
echo "$ID:$out"
find $W -delete
