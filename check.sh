#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]   Builds the analyser and decides one property of /repo's current tree.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off CGO_ENABLED=0
mkdir -p "$here/build" "$here/evidence"
(cd "$here/engine" && go build -o "$here/build/vcl" ./cmd/vcl) || { echo "the analyser does not build"; exit 2; }
unset GOFLAGS
exec "$here/build/vcl" -verif "$here" -tier "${2:-${VERIF_TIER:-quick}}" "$1"
