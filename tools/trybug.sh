#!/bin/bash
# trybug.sh <id> <property ...> : apply a planted bug to /repo, run demo and checks, take it out again
id="$1"; shift
d="/verif/seeded/$id"
cd /repo || exit 2
git diff --quiet || { echo "/repo is not clean"; exit 2; }
( bash "$d/demo.sh" >/tmp/demo.out 2>&1 ); echo "demo clean: $?"
git apply "$d/patch.diff" || exit 2
( bash "$d/demo.sh" >/tmp/demo.out 2>&1 ); echo "demo bugged: $?"; tail -3 /tmp/demo.out
for p in "$@"; do
  ( cd /verif && VERIF_SHRINK_S=5 ./run.sh "$p" quick > /tmp/bug.out 2>&1 ); echo "check $p: $?"; grep -m1 "violation in run" /tmp/bug.out
done
if [ -n "$TESTS" ]; then bash /opt/vp/test.sh /tmp/t.json >/dev/null 2>&1; python3 -c "
import json;d=json.load(open('/tmp/t.json'));print('tests',len(d['passed']),d['failed'])"; fi
git checkout -- .
