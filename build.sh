#!/bin/bash
# build.sh [race]: builds the simulation binary from /repo's current working tree into /verif/.build.
# Exit 2 on any trouble.
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off GOCACHE=${GOCACHE:-/root/.cache/go-build}
V=$(cd "$(dirname "$0")" && pwd)
REPO=${VERIF_REPO:-/repo}
mode=${1:-plain}
B=$V/.build
mkdir -p "$B/$mode" || exit 2
(cd "$V/instr" && GOFLAGS=-buildvcs=false go build -o "$B/instr" .) || { echo "build: instr failed" >&2; exit 2; }
args=()
[ "$mode" = race ] && args=(-race)
(cd "$REPO" && "$B/instr" -repo "$REPO" -rt "$V/simrt" -out "$B/$mode" "${args[@]}") || { echo "build: instrumentation failed" >&2; exit 2; }
(cd "$REPO" && go build -overlay "$B/$mode/overlay.json" -o "$B/sim-$mode" ./verifsim/harness) || { echo "build: compile failed" >&2; exit 2; }
