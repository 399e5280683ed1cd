#!/bin/bash
# replay.sh <replay file>: runs one saved case against /repo. Exit 1 if the property is broken on it.
set -u
VERIF="$(cd "$(dirname "$0")" && pwd)"
export GOFLAGS=-mod=readonly GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off GO111MODULE=on
WORK="$(mktemp -d /tmp/pbt.XXXXXX)" || exit 2
trap 'rm -rf "$WORK"' EXIT
RACE=""
if grep -q '"property": "C19"' "$1"; then RACE="-race"; export CGO_ENABLED=1; fi
(cd "$VERIF/pbt" && go build -buildvcs=false $RACE -o "$WORK/pbt" .) || exit 2
"$WORK/pbt" replay "$1"
rc=$?
[ $rc -eq 66 ] && { echo "VIOLATION property=C19 replay=$1"; rc=1; }
exit $rc
