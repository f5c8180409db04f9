#!/bin/sh
# checks the toolchain and that the framework compiles; every check rebuilds what it needs itself
set -e
cd "$(dirname "$0")"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS= CGO_ENABLED=0
mkdir -p evidence
T=$(mktemp -d)
(cd tools/rewriter && go build -o "$T/rewriter" .)
rm -rf "$T"
echo ready
