#!/bin/bash
# run.sh setup        builds the checker from /verif/tool
# run.sh ID [TIER]    decides property ID on /repo's current source
V="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod
export DOQ_VERIF="$V"
BIN="$V/bin/doqcheck"
mkdir -p "$V/bin" "$V/evidence"
# built when missing or older than its source
if [ ! -x "$BIN" ] || [ -n "$(find "$V/tool" -newer "$BIN" -type f -print -quit)" ]; then
    T="$(mktemp "$V/bin/build.XXXXXX")"
    if ! (cd "$V/tool" && GOFLAGS=-mod=readonly go build -o "$T" .) ; then
        rm -f "$T"; echo "the checker does not build"; exit 3
    fi
    chmod +x "$T"; mv -f "$T" "$BIN"
fi
[ "$1" = setup ] && exit 0
[ -n "$2" ] && export VERIF_TIER="$2"
exec "$BIN" check "$1"
