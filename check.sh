#!/bin/bash
# check.sh PROP [quick|thorough]: rebuild from /repo's working tree, then explore. Exit 0 held, 1 violation, 2 trouble.
V=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$V
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
mode=plain
[ "$prop" = C15 ] && mode=race
"$V/build.sh" $mode || exit 2
exec "$V/.build/sim-$mode" check "$prop" "$tier"
