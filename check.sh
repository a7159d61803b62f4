#!/bin/bash
# check.sh PROPERTY: builds the checker and decides one property on /repo's current source.
set -u
V=$(cd "$(dirname "$0")" && pwd)
export JLIB_VERIF="$V"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
mkdir -p "$V/bin"
(cd "$V/checker" && go build -o "$V/bin/jlibcheck.$$" . && mv -f "$V/bin/jlibcheck.$$" "$V/bin/jlibcheck") || { echo "cannot build the checker"; exit 2; }
exec "$V/bin/jlibcheck" "$@"
