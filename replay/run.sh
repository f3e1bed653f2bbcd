#!/bin/bash
# replay/run.sh ID [CANDIDATES]: runs the drivers of property ID on the real code (overlay, nothing is written to the repository)
here="$(cd "$(dirname "$0")" && pwd)"
id="$1"
work="$GOWORK"
. /opt/vp/env.sh
[ -n "$VERIF_REPO" ] && [ "$VERIF_REPO" != /repo ] && export GOWORK="$work"
repo="${VERIF_REPO:-/repo}"
tmp="$(mktemp -d /tmp/replay.XXXXXX)"
trap 'rm -rf "$tmp"' EXIT
export TMPDIR="$tmp" VERIF_CANDIDATES="$2" GOFLAGS=-mod=mod
unset GOFLAGS
pkgs=""
{
  echo '{"Replace": {'
  sep=""
  for f in "$here/$id"/*_test.go; do
    p="$(sed -n 's|^// pkg: ||p' "$f" | head -1)"
    echo "$sep\"$repo/$p/zz_verif_${id}_$(basename "$f")\": \"$f\""
    sep=","
    pkgs="$pkgs $p"
    for c in $(sed -n 's|^// with: ||p' "$f" | head -1); do # helpers shared by drivers
      echo "$sep\"$repo/$p/zz_verif_common_${c}_test.go\": \"$here/common/${c}_test.go\""
    done
  done
  echo '}}'
} > "$tmp/overlay.json"
rc=0
for p in $(echo $pkgs | tr ' ' '\n' | sort -u); do
  (cd "$repo" && timeout -k 5 ${VERIF_REPLAY_SECS:-200} go test -vet=off -count=1 -timeout 180s -overlay "$tmp/overlay.json" -run "^TestVerif${id}" "./$p") > "$tmp/out" 2>&1 || rc=1
  # a panic or a deadlock of the real code is a failing input too, if the driver said what it was doing
  if grep -q "FAILING-INPUT" "$tmp/out"; then
    grep -m 5 -A 12 "FAILING-INPUT" "$tmp/out"
  elif grep -q "^panic:\|^fatal error:" "$tmp/out" && grep -q "TRYING" "$tmp/out"; then
    echo "FAILING-INPUT (crash or hang): $(grep TRYING "$tmp/out" | tail -1)"
    grep -m 1 -A 15 "^panic:\|^fatal error:" "$tmp/out"
  else
    tail -30 "$tmp/out"
  fi
done
exit $rc
