#!/bin/bash
# check.sh <property id>: builds the checker against /repo's current working tree and runs the check of one property.
ID=${1:?usage: check.sh ID}
DIR=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GONOSUMDB=* GONOSUMCHECK=1 MC_VERIF=$DIR
WORK=$(mktemp -d /tmp/mc.XXXXXXXX) || exit 2
trap 'rm -rf "$WORK"' EXIT
export MC_WORK=$WORK
cp "$DIR/mc/go.mod" "$DIR/mc/go.sum" "$WORK/" || exit 2
cd "$DIR/mc" || exit 2
go build -modfile="$WORK/go.mod" -o "$WORK/check" ./cmd/check || { echo "the checker does not build against /repo"; exit 2; }
"$WORK/check" "$ID"
