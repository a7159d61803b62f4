#!/bin/bash
# plant.sh ID: confirms seeded/ID in a scratch copy of /repo: builds, demo passes without and fails with the patch, tests pass.
set -u
V=$(cd "$(dirname "$0")/.." && pwd); S="$V/seeded/$1"; W=$(mktemp -d /tmp/plant.XXXXXX)
. /opt/vp/env.sh 2>/dev/null
cp -a /repo "$W/repo"; cp -r "$S" "$W/demo"; rm -f "$W/demo/patch.diff" "$W/demo/meta.json"
cd "$W/repo"; git checkout -q -- . 
timeout 300 bash "$W/demo/demo.sh" >"$W/o1" 2>&1; a=$?
git apply "$S/patch.diff" || { echo "$1: PATCH DOES NOT APPLY"; rm -rf "$W"; exit 1; }
go build ./... || { echo "$1: DOES NOT BUILD"; rm -rf "$W"; exit 1; }
timeout 300 bash "$W/demo/demo.sh" >"$W/o2" 2>&1; b=$?
go test -vet=off -count=1 ./... >"$W/o3" 2>&1; t=$?
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
mkdir -p "$W/v"; cp "$V/known-findings.txt" "$W/v/"
JLIB_REPO="$W/repo" JLIB_VERIF="$W/v" "$V/bin/jlibcheck" "$P" >"$W/o4" 2>&1; c=$?
echo "$1: clean=$a patched=$b tests=$t check($P)=$c"
[ $a = 0 ] || tail -5 "$W/o1"; [ $b != 0 ] || tail -5 "$W/o2"; [ $t = 0 ] || grep -E 'FAIL|panic' "$W/o3" | head; [ $c = 1 ] || tail -3 "$W/o4"
rm -rf "$W"
