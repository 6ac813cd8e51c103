#!/bin/bash
# mkseed.sh ID PROPERTY NEEDS BREAKS: makes /verif/seeded/ID of the changes in
# the scratch copy /tmp/sw and of the demonstration /tmp/demo_test.go, and
# undoes the changes.
here=$(cd "$(dirname "$0")/.." && pwd)
d=$here/seeded/$1; mkdir -p "$d"
(cd /tmp/sw && gofmt -l . | grep -v "^internal/f1600x4" >&2; git diff) > "$d/patch.diff"
(cd /tmp/sw && git checkout -q -- .)
[ -e /tmp/demo_test.go ] && mv /tmp/demo_test.go "$d/demo_test.go.txt"
cat > "$d/demo.sh" <<'D'
#!/bin/bash
# Run with the repository as the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
export PATH=$PATH:/usr/local/go/bin
t=$(mktemp -d) || exit 1
trap 'rm -rf "$t"' EXIT
echo "{\"Replace\":{\"$repo/seeded_demo_test.go\":\"$here/demo_test.go.txt\"}}" >"$t/overlay.json"
TMPDIR=$t go test -vet=off -overlay "$t/overlay.json" -run '^TestSeededDemo$' -count=1 -timeout 200s .
D
python3 - "$d" "$2" "$3" "$4" <<'P'
import json,sys
d,p,n,b=sys.argv[1:]
json.dump({"property":p,"needs":n,"what_it_breaks":b},open(d+"/meta.json","w"),indent=1)
P
cat "$d/patch.diff"
