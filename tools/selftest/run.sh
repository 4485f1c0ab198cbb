#!/bin/bash
# Self-test of the instrumenter and runtime: a Go file with most of the language and library runs natively and, as part
# of PING, inside the simulation under drawn schedules; the text it produces must be the same. Scratch only.
set -e
V=$(cd "$(dirname "$0")/../.." && pwd)
T=$(mktemp -d /tmp/selftest.XXXXXX); trap 'rm -rf "$T"' EXIT
mkdir -p "$T/n/selftest" "$T/verif"; cp "$V/tools/selftest/selftest.go.txt" "$T/n/selftest/s.go"
(cd "$T/n" && printf 'module gRedis\n\ngo 1.20\n' > go.mod && printf 'package main\nimport ("gRedis/selftest";"fmt")\nfunc main(){fmt.Print(selftest.Run())}\n' > main.go && go run . > "$T/want" && cmp "$T/want" "$V/tools/selftest/want")
cp -a /repo "$T/repo"; mkdir "$T/repo/selftest"; cp "$V/tools/selftest/selftest.go.txt" "$T/repo/selftest/s.go"
(cd "$V" && tar c --exclude=./.git --exclude=./evidence --exclude=./out --exclude=./.build --exclude=./seeded . | tar x -C "$T/verif")
python3 - "$T" <<'P'
import sys, json
t = sys.argv[1]; p = t + '/repo/memdb/keys.go'; s = open(p).read(); w = open(t + '/want').read()
h = 'func pingKeys(db *MemDb, cmd [][]byte) resp.RedisData {'
s = s.replace(h, 'const wantSelf = ' + json.dumps(w, ensure_ascii=False) + '\n\n' + h + '\n\tif r := selftest.Run(); r != wantSelf {\n\t\tpanic("SELFTEST " + r)\n\t}', 1).replace('import (', 'import (\n\t"gRedis/selftest"', 1)
open(p, 'w').write(s)
P
for m in plain race; do
  VERIF_REPO=$T/repo "$T/verif/build.sh" $m
  VERIF_DIR=$T/verif VERIF_NOMIN=1 VERIF_RUNS=3000 "$T/verif/.build/sim-$m" check $([ $m = race ] && echo C15 || echo C09) quick
done
