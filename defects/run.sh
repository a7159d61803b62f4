#!/bin/bash
# Runs the defect demonstrations against $1 (default /repo) through an overlay.
repo=${1:-/repo}; d=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh 2>/dev/null
ov=$(mktemp); trap 'rm -f $ov' EXIT
cat > $ov <<J
{"Replace":{"$repo/zz_defect_test.go":"$d/root_test.go","$repo/schema/zz_defect_test.go":"$d/schema_test.go","$repo/http/zz_defect_test.go":"$d/http_test.go"}}
J
cd $repo && go test -vet=off -count=1 -timeout 120s -overlay $ov -run "${2:-TestDefect}" ${3:-./...}
