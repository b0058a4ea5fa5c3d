#!/bin/bash
# bash tools/seedtry.sh <seed id>...: confirm each planted bug: it applies,
# builds, passes the stable tests, its demo passes without and fails with it;
# then run the quick check of its property against it. /repo is restored.
here=$(cd "$(dirname "$0")/.." && pwd)
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
. /opt/vp/env.sh
for id in "$@"; do
  d=$here/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  t=$(mktemp -d /tmp/seedXXXXXX); cp -r "$d/." $t/; rm -f $t/patch.diff $t/meta.json
  r=""
  if [ -z "$NODEMO" ]; then
    (cd /repo && timeout 300 bash $t/demo.sh >$t/clean.out 2>&1) && r="$r clean:ok" || { r="$r clean:FAIL"; tail -5 $t/clean.out; }
  fi
  git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  if [ -z "$NODEMO" ]; then
    go build ./ecore/... >$t/b.out 2>&1 && r="$r build:ok" || { r="$r build:FAIL"; head -5 $t/b.out; }
    x=$(timeout 300 python3 $here/tools/basetest.py 2>&1 | tail -3 | cut -c1-200); r="$r tests:[$x]"
    (cd /repo && timeout 300 bash $t/demo.sh >$t/bad.out 2>&1) && { r="$r demo:NOTCAUGHT"; } || r="$r demo:fails"
    grep -E "^\s+\S+_test.go:|panic:" $t/bad.out | head -2
  fi
  if [ -z "$NOCHECK" ]; then
    timeout 900 bash $here/run.sh $prop quick >$t/check.out 2>&1; rc=$?
    r="$r check $prop: rc=$rc $(grep -c ^VIOLATION $t/check.out)"
    grep -A1 ^VIOLATION $t/check.out | head -2 | cut -c1-200
  fi
  git checkout -q -- .
  echo "== $id $r"
  rm -rf "$t"
done
