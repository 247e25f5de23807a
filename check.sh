#!/bin/bash
# usage: check.sh PROPERTY TIER -- builds the engine from source and decides one property on /repo's current tree.
here=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
bin=$(mktemp -d /tmp/tscheck-bin.XXXXXX) || exit 2
trap 'rm -rf "$bin"' EXIT
(cd "$here/engine" && go build -o "$bin/tscheck" ./cmd/tscheck) || exit 2
[ "$1" = build ] && exit 0
"$bin/tscheck" -prop "$1" -tier "${2:-quick}" -verif "$here" -repo "${REPO:-/repo}"
