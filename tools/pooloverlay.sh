#!/bin/bash
# pooloverlay.sh SRC OUT: writes in OUT a build overlay where the sync.Pool of the Go files of SRC are watched
SRC=$1 OUT=$2
mkdir -p "$OUT"
HERE=$(cd "$(dirname "$0")/.." && pwd)
cp "$HERE/harness/verifpool_src/pool.go.txt" "$OUT/verifpool.go" || exit 1
{
  echo '{"Replace": {'
  n=0
  while IFS= read -r f; do
    n=$((n+1))
    sed -e 's/\bsync\.Pool\b/verifpool.Pool/g' -e '0,/^package [A-Za-z0-9_]*/s//&; import "helena\/verifpool"/' "$f" >"$OUT/f$n.go"
    printf '\nvar _ sync.Mutex\n' >>"$OUT/f$n.go"
    echo "\"$f\": \"$OUT/f$n.go\","
  done < <(grep -rlw --include='*.go' 'sync\.Pool' "$SRC" | grep -v '_test\.go$')
  echo "\"$SRC/verifpool/pool.go\": \"$OUT/verifpool.go\""
  echo '}}'
} >"$OUT/overlay.json"
