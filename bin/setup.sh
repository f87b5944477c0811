#!/bin/bash
# Nothing is kept between runs: this only proves that everything builds offline.
set -e
cd "$(dirname "$0")/.."
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off HOME=${HOME:-/root}
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
cp -r harness "$d/src"; (cd "$d/src" && go build -o "$d/drv" .)
java -version >/dev/null 2>&1
echo ready
