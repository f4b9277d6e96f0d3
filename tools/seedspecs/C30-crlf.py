id='C30-crlf'; prop='C30'
needs='a command entered on several lines whose continuation lines start with spaces or tabs inside a string or block'
breaks='leading blanks of continuation lines are lost'
edits=[('cli/cli.go','''		cmd += line
''','''		cmd += strings.TrimLeft(line, " \\t")
'''),('cli/cli.go','''	"os"
''','''	"os"
	"strings"
''')]
cases=''
demo_sh=r'''#!/bin/bash
# Runs an interactive session of the command line built from the current directory (/repo)
HERE=$(cd "$(dirname "$0")" && pwd)
ROOT=$(pwd)
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
D=$(mktemp -d) || exit 3
trap 'rm -rf "$D"' EXIT
cd "$ROOT/src" && go build -o "$D/helena" . || exit 3
mkdir "$D/w" && cd "$D/w" || exit 3
printf '%s\n' 'string "a' '   b" length' 'list {a' '  b}' | timeout 60 "$D/helena" 2>&1 | grep -o '[^>. ].* # .*' > "$D/out"
diff "$HERE/expected.txt" "$D/out"
'''
