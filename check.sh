#!/bin/bash
# check.sh ID TIER: discharge every obligation of property ID against /repo's working tree
cd "$(dirname "$0")"
. /opt/vp/env.sh
[ -x bin/gv ] && [ -z "$(find gv -name '*.go' -newer bin/gv -not -path '*/vendor/*' | head -1)" ] || bash setup.sh || exit 4
exec bin/gv -verif "$PWD" -tier "${2:-quick}" check "$1"
