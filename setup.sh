#!/bin/bash
# Builds the checker once, which shows that everything it needs is there (every check builds it again from /repo's tree).
DIR=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
WORK=$(mktemp -d /tmp/mc.XXXXXXXX) || exit 2
trap 'rm -rf "$WORK"' EXIT
cp "$DIR/mc/go.mod" "$DIR/mc/go.sum" "$WORK/" || exit 2
cd "$DIR/mc" && go build -modfile="$WORK/go.mod" -o "$WORK/check" ./cmd/check && "$WORK/check"
