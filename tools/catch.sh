#!/bin/bash
# catch.sh [-s SECONDS] ID... : applies each planted bug to a scratch clone of /repo and runs the check of its property there
V=$(cd "$(dirname "$0")/.." && pwd); S=15
[ "$1" = "-s" ] && { S=$2; shift 2; }
for id in "$@"; do
  W=$(mktemp -d /tmp/catch.XXXXXX); git clone -q ${SRC:-/repo} $W/repo; cp -a $V/check.py $V/sim $V/known_findings.txt $W/ 2>/dev/null
  git -C $W/repo apply $V/seeded/$id/patch.diff || { echo "$id: does not apply"; rm -rf "$W"; continue; }
  P=$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
  for p in ${PROPS:-$P}; do
    VERIF_REPO=$W/repo python3 $W/check.py $p --seconds $S > $W/out.txt 2>&1; rc=$?
    echo "$id: $p rc=$rc $(grep -m1 -B100 VIOLATION $W/out.txt | head -1 | cut -c1-150)"
  done
  rm -rf "$W"
done
