#!/bin/bash
# try.sh <repo copy> <tier> <extra args or ''> <property>...: runs checks against a copy of the repository (development only).
set -u
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
R="$1"; TIER="$2"; EX="$3"; shift 3
W=$(mktemp -d /tmp/try.XXXXXX)
V="$(cd "$(dirname "$0")/.." && pwd)"
mkdir "$W/v"; cp -a "$V/pbt" "$W/v/"; cp "$V/known-findings.txt" "$W/v/"
sed -i "s#=> /repo#=> $R#" "$W/v/pbt/go.mod"
(cd "$W/v/pbt" && go build -buildvcs=false -o "$W/pbt" . ) || { rm -rf "$W"; exit 2; }
for p in "$@"; do
  B="$W/pbt"
  if [ "$p" = C19 ]; then (cd "$W/v/pbt" && CGO_ENABLED=1 go build -buildvcs=false -race -o "$W/pbtr" .) || exit 2; B="$W/pbtr"; fi
  out=$("$B" run -prop $p -tier $TIER -seed ${VERIF_SEED:-1} -verif "$W/v" -work "$W" $EX 2>&1); rc=$?
  echo "== $p rc=$rc"; [ $rc -ne 0 ] && [ -z "${QUIET:-}" ] && echo "$out" | cut -c1-600 | tail -4
done
rm -rf "$W"
