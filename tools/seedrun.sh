#!/bin/bash
# seedrun.sh SEED [ID...]: runs checks (default: the seed's property) with a planted bug, in a scratch worktree.
V=$(cd "$(dirname "$0")/.." && pwd)
S=$V/seeded/$1; shift
IDS=${*:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
. /opt/vp/env.sh
W=$(mktemp -d /tmp/seedrun-XXXXXX); rmdir $W
git -C /repo worktree add -q --detach $W HEAD || exit 3
trap 'git -C /repo worktree remove --force $W; rm -rf $W.v; git -C /repo worktree prune' EXIT
git -C $W apply $S/patch.diff || exit 3
mkdir -p $W.v/evidence; cp -r $V/harness $V/tools $V/check.sh $V/known-findings.txt $W.v/
sed -i "s#/repo/src#$W/src#" $W.v/harness/go.mod
export VERIF_REPO=$W
for i in $IDS; do
  s=$(date +%s); out=$(cd $W.v && bash check.sh $i ${TIER:-quick} 2>&1); rc=$?
  echo "$(basename $S) $i rc=$rc $(( $(date +%s)-s ))s $(echo "$out" | grep -m1 VIOLATION)"
  [ -n "$VERBOSE" ] && echo "$out" | tail -40
done
