#!/bin/bash
# check.sh <property> quick|thorough [extra arguments of pbt run]
# Exit 0: held. Exit 1 with a VIOLATION line: broken. Exit 2: the check itself failed.
set -u
VERIF="$(cd "$(dirname "$0")" && pwd)"
ID="$1"; TIER="$2"; shift 2
SEED="${VERIF_SEED:-1}"
case "$SEED" in ''|*[!0-9-]*) SEED=1;; esac
export GOFLAGS=-mod=readonly GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off GO111MODULE=on
WORK="$(mktemp -d /tmp/pbt.XXXXXX)" || exit 2
trap 'rm -rf "$WORK"' EXIT
RACE=""
if [ "$ID" = C19 ]; then RACE="-race"; export CGO_ENABLED=1; fi
if ! (cd "$VERIF/pbt" && go build -buildvcs=false $RACE -o "$WORK/pbt" .) >"$WORK/build.log" 2>&1; then
  echo "the check does not build against /repo:" >&2; tail -n 30 "$WORK/build.log" >&2; exit 2
fi
FUZZ=()
if [ "$TIER" = thorough ] && [ -x "$VERIF/fuzz.sh" ]; then
  "$VERIF/fuzz.sh" "$ID" "$WORK" >&2 || true
  [ -f "$WORK/fuzzfail.json" ] && FUZZ+=(-fuzzfail "$WORK/fuzzfail.json")
  [ -f "$WORK/fuzzexecs" ] && FUZZ+=(-fuzzexecs "$(cat "$WORK/fuzzexecs")")
fi
timeout -k 10 ${CHECK_TIMEOUT:-$([ "$TIER" = thorough ] && echo 7200 || echo 850)} \
  "$WORK/pbt" run -prop "$ID" -tier "$TIER" -seed "$SEED" -verif "$VERIF" -work "$WORK" "${FUZZ[@]}" "$@"
rc=$?
[ $rc -eq 0 ] || [ $rc -eq 1 ] || rc=2
exit $rc
