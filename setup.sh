#!/bin/bash
# Warms the Go build cache (optional: every check builds what it needs).
cd "$(dirname "$0")/harness" || exit 1
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${VERIF_GOCACHE:-/root/.cache/go-build}
D=$(mktemp -d /tmp/verif-setup-XXXXXX) || exit 1
go build -o "$D/h" . ; rc=$?
rm -rf "$D"
exit $rc
