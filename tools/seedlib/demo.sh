#!/bin/bash
# Runs the sessions of cases.txt with the code of the current directory (/repo)
# and compares what they do with expected.txt.
HERE=$(cd "$(dirname "$0")" && pwd)
ROOT=$(pwd)
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
D=$(mktemp -d) || exit 3
trap 'rm -rf "$D"' EXIT
echo "{\"Replace\":{\"$ROOT/src/zz_demo/main.go\":\"$HERE/demo.go\"}}" > "$D/overlay.json"
cd "$ROOT/src" && go build -overlay "$D/overlay.json" -o "$D/demo" ./zz_demo || exit 3
mkdir "$D/w" && cd "$D/w" || exit 3
ulimit -v 8000000
timeout 60 "$D/demo" "$HERE/cases.txt" > "$D/out" 2>&1
diff "$HERE/expected.txt" "$D/out"
