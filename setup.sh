#!/bin/bash
# Builds the engine once, to show that it builds offline; every check builds it again.
set -eu
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/go/bin:$PATH
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOSUMDB=off
cd "$(dirname "$0")/engine"
bin=$(mktemp -d /tmp/vengine.XXXXXX)
trap 'rm -rf "$bin"' EXIT
go build -o "$bin/vengine" .
z3-new --version
