#!/bin/bash
# For each planted bug (or those named): apply it to a scratch copy of /repo and run its property's quick check there.
# usage: tools/catch.sh [-a] [id...]     -a: run all checks, not only the one of the bug's property
all=; [ "$1" = -a ] && { all=1; shift; }
w=$(mktemp -d /tmp/catch.XXXXXX) || exit 1
trap 'rm -rf "$w"' EXIT
cp -a /repo "$w/repo"; mkdir "$w/verif"
(cd /verif && tar c --exclude=./.git --exclude=./evidence --exclude=./out --exclude=./.build --exclude=./seeded .) | tar x -C "$w/verif"
export VERIF_REPO=$w/repo
ids=("$@"); [ ${#ids[@]} = 0 ] && ids=($(ls /verif/seeded))
for id in "${ids[@]}"; do
  d=/verif/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C "$w/repo" checkout -q -- . ; git -C "$w/repo" apply "$d/patch.diff" || { echo "$id: patch does not apply"; continue; }
  ps=$p; [ -n "$all" ] && ps=$(seq -f C%02g 1 20)
  for q in $ps; do
    o=$("$w/verif/check.sh" $q quick 2>&1); rc=$?
    if [ $rc = 1 ] && echo "$o" | grep -q "^VIOLATION property=$q "; then r=CAUGHT; elif [ $rc = 0 ]; then r=missed; else r="BROKEN rc=$rc"; fi
    echo "$id $q $r $(echo "$o" | grep -m1 'breaks the\|held\|broken' | cut -c1-110)"
  done
done
