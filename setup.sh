#!/bin/bash
# setup.sh: builds the framework once, to fill Go's build cache. Every check builds again from /repo's working tree.
set -eu
VERIF="$(cd "$(dirname "$0")" && pwd)"
export GOFLAGS=-mod=readonly GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off GO111MODULE=on
WORK="$(mktemp -d /tmp/pbt.XXXXXX)"
trap 'rm -rf "$WORK"' EXIT
cd "$VERIF/pbt"
go build -buildvcs=false -o "$WORK/pbt" .
CGO_ENABLED=1 go build -buildvcs=false -race -o "$WORK/pbtrace" .
"$WORK/pbt" list >/dev/null
