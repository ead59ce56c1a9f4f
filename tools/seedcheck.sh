#!/bin/bash
# seedcheck.sh ID... : confirms planted bugs in a scratch copy of /repo: the patch applies, touches original lines,
# builds, passes the stable tests, and demo.sh exits 0 without and nonzero with it.
V=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  S=$V/seeded/$id; W=$(mktemp -d /tmp/seedchk.XXXXXX)
  cp -a /repo/. $W/
  D=$(mktemp -d /tmp/seeddemo.XXXXXX); cp -a $S/. $D/; rm -f $D/*.diff $D/*.patch $D/meta.json
  (cd $W && bash $D/demo.sh >$W/.demo0 2>&1); r0=$?
  if ! git -C $W apply $S/patch.diff; then echo "$id: patch does not apply"; rm -rf "$W" "$D"; continue; fi
  (cd $W && bash $D/demo.sh >$W/.demo1 2>&1); r1=$?
  echo "$id: demo clean=$r0 patched=$r1 | $(tail -1 $W/.demo0 | cut -c1-120) | $(tail -1 $W/.demo1 | cut -c1-160)"
  # the stable tests are built in /repo itself (the build names /repo): apply, test, undo
  if [ "$NOTEST" = "" ]; then
    git -C /repo apply $S/patch.diff && bash /opt/vp/build.sh >/tmp/seedbuild.log 2>&1; b=$?
    bash /opt/vp/test.sh /tmp/seedtest.json >/dev/null 2>&1
    git -C /repo checkout -- .
    python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/seedtest.json'))
print("$id: build rc $b, stable tests not passing:", [x for x in b['stable'] if x not in t['passed']])
P
  fi
  rm -rf "$W" "$D"
done
