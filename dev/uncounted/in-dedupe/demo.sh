#!/bin/bash
# Exits 0 if the property holds on the demonstrated use, nonzero otherwise. Run in the repository.
set -u
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
w="$(mktemp -d)"; trap 'rm -rf "$w"' EXIT
cp "$here/demo.go.txt" "$w/main.go"
printf 'module demo\n\ngo 1.21\n\nrequire github.com/amarin/query v0.0.0\n\nreplace github.com/amarin/query => %s\n' "$repo" >"$w/go.mod"
cd "$w" && GOFLAGS=-mod=mod GOPROXY=off GOWORK=off go build -buildvcs=false  -o demo . && ./demo
