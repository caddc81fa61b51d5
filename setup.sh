#!/bin/bash
# Warms the build cache: builds the harness (plain and race-instrumented) and
# the binaries from /repo. Every check rebuilds from /repo's current tree.
root=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH="/usr/local/bin:/usr/bin:/bin:$PATH"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod CGO_ENABLED=1
out=$(mktemp -d) && trap 'rm -rf "$out"' EXIT
cd "$root/harness" && go build -tags verif -o "$out/h" ./cmd/harness || exit 1
go build -race -tags verif -o "$out/hr" ./cmd/harness || exit 1
cd /repo && go build -tags verif -o "$out/" ./cmd/soju ./cmd/sojuctl ./cmd/sojudb || exit 1
