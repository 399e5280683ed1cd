#!/bin/bash
# plant.sh <id> <property> <edit.py> <demo.go> <needs> <what>: confirms a planted bug in a scratch copy and keeps it under seeded/ (development only).
# edit.py is run in the copy. DEMOFLAGS: extra flags of go run.
set -u
E=$(realpath "$3"); G=$(realpath "$4"); set -- "$1" "$2" "$E" "$G" "$5" "$6"
ID="$1"; PROP="$2"; EDIT="$3"; DEMO="$4"; NEEDS="$5"; WHAT="$6"
W=$(mktemp -d /tmp/plant.XXXXXX); trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"; cd "$W/repo"
python3 "$EDIT" || { echo "$ID: EDIT FAILED"; exit 1; }
gofmt -l . | grep -q . && { echo "$ID: not formatted: $(gofmt -l .)"; gofmt -d . | head -20; }
git diff > "$W/patch.diff"
[ -s "$W/patch.diff" ] || { echo "$ID: EMPTY"; exit 1; }
go vet . >/dev/null 2>"$W/vet" || { head -5 "$W/vet"; }
if ! go test ./... >"$W/test.log" 2>&1; then echo "$ID: TESTS FAIL"; grep -E "^\s*--- FAIL|cannot|undefined|expected:|actual" "$W/test.log" | head -8; exit 1; fi
mkdir "$W/d"
cp "$DEMO" "$W/d/demo.go.txt"
cat > "$W/d/demo.sh" <<EOS
#!/bin/bash
# Exits 0 if the property holds on the demonstrated use, nonzero otherwise. Run in the repository.
set -u
here="\$(cd "\$(dirname "\$0")" && pwd)"; repo="\$PWD"
w="\$(mktemp -d)"; trap 'rm -rf "\$w"' EXIT
cp "\$here/demo.go.txt" "\$w/main.go"
printf 'module demo\n\ngo 1.21\n\nrequire github.com/amarin/query v0.0.0\n\nreplace github.com/amarin/query => %s\n' "\$repo" >"\$w/go.mod"
cd "\$w" && GOFLAGS=-mod=mod GOPROXY=off GOWORK=off go build -buildvcs=false ${DEMOFLAGS:-} -o demo . && ./demo
EOS
( cd /repo && bash "$W/d/demo.sh" >"$W/clean.log" 2>&1 ) || { echo "$ID: DEMO FAILS ON CLEAN"; head -5 "$W/clean.log"; exit 1; }
if ( cd "$W/repo" && bash "$W/d/demo.sh" >"$W/bad.log" 2>&1 ); then echo "$ID: DEMO PASSES WITH PATCH"; exit 1; fi
D=/verif/seeded/$ID; mkdir -p "$D"; cp "$W/patch.diff" "$W/d/demo.sh" "$W/d/demo.go.txt" "$D/"
python3 - "$D" "$PROP" "$NEEDS" "$WHAT" <<'EOP'
import json,sys
d,p,n,w=sys.argv[1:]
json.dump({"property":p,"needs":n,"what_it_breaks":w},open(d+"/meta.json","w"),indent=1)
EOP
echo "$ID: kept ($(head -2 "$W/bad.log" | tr '\n' ' '))"
