#!/bin/bash
# Builds and runs the demonstration in demo.go against the library in the
# current directory. Exit 0: the property holds for the shown case.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export HOME="${HOME:-/root}" PATH="$PATH:/usr/local/go/bin" GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off
export GOMODCACHE="${GOMODCACHE:-/root/go/pkg/mod}" GOCACHE="${GOCACHE:-/root/.cache/go-build}"
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
cp "$here/demo.go" "$tmp/main.go" && cp "$repo/go.sum" "$tmp/go.sum" || exit 2
cat > "$tmp/go.mod" <<M
module demo

go 1.23

require github.com/cloudprivacylabs/lpg/v2 v2.0.0
require github.com/emirpasic/gods v1.18.1 // indirect
replace github.com/cloudprivacylabs/lpg/v2 => $repo
M
cd "$tmp" && CGO_ENABLED=1 timeout 200 go run $([ -f "$here/race" ] && echo -race) .
