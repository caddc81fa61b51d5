#!/bin/bash
# Runs the demonstration test against the tree in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH="/usr/local/bin:/usr/bin:/bin:$PATH"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod CGO_ENABLED=1
repo=$(pwd)
dir=$(mktemp -d) || exit 2
trap 'rm -rf "$dir"' EXIT
pkg=.
[ -f "$here/pkg" ] && pkg=$(cat "$here/pkg")
{
	echo '{"Replace": {'
	sep=
	for f in "$here"/*_test.go; do
		printf '%s"%s": "%s"' "$sep" "$repo/$pkg/zzdemo_$(basename "$f")" "$f"
		sep=,
	done
	echo '}}'
} > "$dir/overlay.json"
go test -overlay "$dir/overlay.json" -vet=off -count=1 -timeout 250s $([ -f "$here/goflags" ] && cat "$here/goflags") -run 'TestDemo' ./$pkg
