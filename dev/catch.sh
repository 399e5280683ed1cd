#!/bin/bash
# catch.sh <seeded id> [property...]: which checks catch a planted bug (default: its own property).
set -u
ID="$1"; shift
W=$(mktemp -d /tmp/catch.XXXXXX); trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"; (cd "$W/repo" && git apply /verif/seeded/$ID/patch.diff) || { echo "$ID: patch does not apply"; exit 1; }
[ $# -gt 0 ] || set -- $(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")
echo "$ID: $(QUIET=${QUIET-1} bash /verif/dev/try.sh "$W/repo" ${TIER:-quick} "${EX:-}" "$@" | tr '\n' ' ')"
