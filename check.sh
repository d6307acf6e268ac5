#!/bin/bash
# check.sh PROPERTY [TIER] run the check of one property (VERIF_TIER, VERIF_SEED)
# check.sh --replay FILE   execute a saved plan
# check.sh --build         only build
# Exit: 0 held, 1 violation (with a VIOLATION line), anything else: no answer.
set -u
V="$(cd "$(dirname "$0")" && pwd)"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off GOWORK=off CGO_ENABLED=0
export GV_VERIF="$V"
REPO="${GV_REPO:-/repo}"
B="$V/.build/$$"
mkdir -p "$B" || exit 3
trap '/bin/rm -rf "$B"' EXIT
MODFILE="$B/go.mod"
sed "s#=> /repo#=> $REPO#" "$V/harness/go.mod" > "$MODFILE" && cp "$V/harness/go.sum" "$B/go.sum" || exit 3
# see harness/perturb/overlay.py for what is changed in the runtime, and why
python3 "$V/harness/perturb/overlay.py" "$(go env GOROOT)" "$B" || exit 3
if ! (cd "$V/harness" && go test -c -overlay "$B/overlay.json" -modfile="$MODFILE" -o "$B/gv.test" . ) > "$B/build.log" 2>&1; then
	echo "build of the harness against $REPO failed:"; tail -40 "$B/build.log"; exit 3
fi
case "${1:-}" in
--build) [ -n "${2:-}" ] && cp "$B/gv.test" "$2"; exit 0 ;;
--replay) GV_MODE=replay GV_REPLAY="$2" "$B/gv.test" -test.run='^TestReplay$' -test.timeout=0; exit $? ;;
"") echo "usage: check.sh PROPERTY"; exit 2 ;;
*) [ -n "${2:-}" ] && export VERIF_TIER="$2"; GV_MODE=drive GV_PROP="$1" "$B/gv.test" -test.run='^TestDrive$' -test.timeout=0; exit $? ;;
esac
