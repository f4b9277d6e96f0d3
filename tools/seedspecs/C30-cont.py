id='C30-continuation'; prop='C30'
needs='an interactive line ending with a backslash'
breaks='lines joined by a continuation are glued together'
edits=[('cli/cli.go','''			if _, ok := err.(recoverableError); ok {
				rl.SetPrompt("... ")
				cmd += "\\n"
				continue''','''			if err, ok := err.(recoverableError); ok {
				rl.SetPrompt("... ")
				if err.message != "continuation" {
					cmd += "\\n"
				}
				continue''')]
demo_sh='''#!/bin/bash
# Runs an interactive session of the command line built from the current directory (/repo)
HERE=$(cd "$(dirname "$0")" && pwd)
ROOT=$(pwd)
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
D=$(mktemp -d) || exit 3
trap 'rm -rf "$D"' EXIT
cd "$ROOT/src" && go build -o "$D/helena" . || exit 3
mkdir "$D/w" && cd "$D/w" || exit 3
printf '%s\\n' 'list (a \\' 'b)' 'idem x\\' 'y' 'list {c' 'd}' | timeout 60 "$D/helena" 2>&1 | grep -o '[^>. ].* # .*' > "$D/out"
diff "$HERE/expected.txt" "$D/out"
'''
cases=''
