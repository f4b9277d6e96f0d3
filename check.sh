#!/bin/bash
# check.sh ID [TIER]: rebuilds the harness with /repo's working tree and runs one check.
set -u
cd "$(dirname "$0")"
VERIF_DIR=$(pwd); export VERIF_DIR
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${VERIF_GOCACHE:-/root/.cache/go-build}
ID=$1
export VERIF_TIER=${2:-${VERIF_TIER:-quick}} VERIF_SEED=${VERIF_SEED:-1}
BIN=$(mktemp -d /tmp/verif-bin-XXXXXX) || exit 2
trap 'rm -rf "$BIN"' EXIT
export VERIF_BIN=$BIN
cd harness
RACE=
built=
case $ID in
C25) RACE=-race;;
C30)
  # The command line itself
  SRC=$(go list -m -f '{{.Dir}}' helena) &&
  (cd "$SRC" && GOFLAGS=-mod=readonly go build -o "$BIN/helena" .) 2>"$BIN/err" ||
  { cat "$BIN/err" >&2; echo "the command line does not build" >&2; exit 2; }
  export VERIF_HELENA=$BIN/helena
  ;;
C26)
  # Build with recycled objects watched, when the code allows it
  SRC=$(go list -m -f '{{.Dir}}' helena) &&
  ../tools/pooloverlay.sh "$SRC" "$BIN/overlay" &&
  go build -tags verifpool -overlay "$BIN/overlay/overlay.json" -o "$BIN/harness" . 2>"$BIN/err" && built=1
  [ -n "$built" ] || { echo "recycled objects are not watched:"; head -5 "$BIN/err"; } >&2
  ;;
esac
if [ -z "$built" ] && ! go build $RACE -o "$BIN/harness" . 2>"$BIN/err"; then
  cat "$BIN/err" >&2
  echo "harness does not build" >&2
  exit 2
fi
"$BIN/harness" -id "$ID" -tier "$VERIF_TIER" -seed "$VERIF_SEED" -verif "$VERIF_DIR"
exit $?
