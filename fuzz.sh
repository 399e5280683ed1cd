#!/bin/bash
# fuzz.sh <property> <work directory>: coverage-guided search with the same generators and oracles, thorough tier only.
# Leaves fuzzexecs (number of executions) and, on a failure, fuzzfail.json.
set -u
ID="$1"; WORK="$2"
VERIF="$(cd "$(dirname "$0")" && pwd)"
[ "$ID" = C19 ] && exit 0
mkdir -p "$WORK/fuzz" && cd "$VERIF/pbt" || exit 0
go test -buildvcs=false -c -fuzz=FuzzPart -o "$WORK/fuzz/pbt.test" . || exit 0
cd "$WORK/fuzz" || exit 0
PBT_PROP="$ID" PBT_FUZZFAIL="$WORK/fuzzfail.json" GOGC=400 timeout -k 10 300 \
  ./pbt.test -test.run='^$' -test.fuzz=FuzzPart -test.fuzztime=${FUZZ_SECONDS:-60}s -test.fuzzminimizetime=5s -test.parallel=8 \
  -test.fuzzcachedir="$WORK/fuzz/cache" >"$WORK/fuzz/log" 2>&1
grep -o 'execs: [0-9]*' "$WORK/fuzz/log" | tail -1 | cut -d' ' -f2 >"$WORK/fuzzexecs"
tail -3 "$WORK/fuzz/log"
[ -s "$WORK/fuzzexecs" ] || echo 0 >"$WORK/fuzzexecs"
exit 0
