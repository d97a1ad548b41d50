#!/bin/bash
# check.sh <PROPERTY> [quick|thorough]: builds the engine and decides the property on /repo's current tree.
set -u
unset VERIF_REPO
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/go/bin:$PATH
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOSUMDB=off
dir=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$dir
bin=$(mktemp -d /tmp/vengine.XXXXXX) || exit 2
trap 'rm -rf "$bin"' EXIT
(cd "$dir/engine" && go build -o "$bin/vengine" .) || { echo "engine does not build" >&2; exit 2; }
"$bin/vengine" check "$@"
