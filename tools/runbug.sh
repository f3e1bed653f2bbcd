#!/bin/bash
# runbug.sh ID...: runs the check of each planted bug's property against a scratch copy with the bug
. /opt/vp/env.sh
V="$(cd "$(dirname "$0")/.." && pwd)"; GV=${GV:-$V/bin/gv}
for id in "$@"; do
  d=$(mktemp -d /tmp/runbug.XXXXXX); cp -a /repo $d/repo
  printf 'go 1.22.2\n\nuse (\n\t./repo\n\t./repo/bencode\n)\n' > $d/go.work
  patch=$V/seeded/$id/patch.diff; [ -f "$patch" ] || patch=$id
  git -C $d/repo apply $patch || echo "$id: patch does not apply"
  prop=${PROP:-$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' $V/seeded/$id/meta.json)}
  cp -a $V $d/verif; s=$(date +%s)
  (cd $d/verif && GOWORK=$d/go.work timeout 900 $GV -verif $d/verif -repo $d/repo -tier quick check $prop) > $d/out 2>&1; rc=$?
  echo "$id ($prop): rc=$rc $(($(date +%s)-s))s $(grep -m1 VIOLATION $d/out | cut -c1-160)"
  [ $rc = 1 ] || tail -5 $d/out
  [ -n "$SHOW" ] && { grep -v "^KNOWN" $d/out | cut -c1-220 | head -20; for f in $(grep -m1 -o 'replay=[^ ]*' $d/out | cut -d= -f2); do head -40 $f | cut -c1-250; done; }
  rm -rf "$d"
done
