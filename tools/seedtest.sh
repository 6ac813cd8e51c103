#!/bin/bash
# seedtest.sh ID [check]: confirms a planted bug (applies, builds, passes the
# tests, demonstration) in a scratch copy; with "check", also runs its
# property's check on the copy.
here=$(cd "$(dirname "$0")/.." && pwd)
id=$1; s=$here/seeded/$id
t=$(mktemp -d /tmp/seed.XXXXXX); trap 'rm -rf "$t"' EXIT
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
cp -a /repo "$t/repo"; cd "$t/repo" || exit 1
git checkout -q -- . 
bash "$s/demo.sh" >"$t/log" 2>&1 && echo "$id demo clean: ok" || { echo "$id demo clean: FAILS"; tail -20 "$t/log"; }
git apply "$s/patch.diff" || { echo "$id does not apply"; exit 1; }
go build ./... || { echo "$id does not build"; exit 1; }
if [ "${2:-}" != nocheck ]; then
go test -json -vet=off -count=1 ./... >"$t/json" 2>/dev/null
python3 - "$t/json" "$id" <<'P'
import json,sys
ok=set()
for l in open(sys.argv[1]):
    try: d=json.loads(l)
    except: continue
    if d.get('Test') and d['Action']=='pass': ok.add(d['Package']+'/'+d['Test'])
st=json.load(open('/opt/vp/BASELINE.json'))['stable']
bad=[x for x in st if x not in ok]
print(sys.argv[2],'tests:', 'all %d pass'%len(st) if not bad else 'FAIL '+str(bad))
P
fi
timeout 300 bash "$s/demo.sh" >"$t/log" 2>&1 && echo "$id demo patched: PASSES (bad)" || { echo "$id demo patched: fails as it should"; tail -${TAIL:-6} "$t/log"; }
if [ -n "${2:-}" ]; then
  p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  cd "$here"
  for c in ${3:-$p}; do
  REPO="$t/repo" timeout 900 ./check.sh $c >"$t/clog" 2>&1; rc=$?
  echo "$id check $c: rc=$rc $(grep -c VIOLATION "$t/clog") violation line(s)"; grep -v "^goroutine\|^\s" "$t/clog" | cut -c1-300 | head -${TAIL:-6}; tail -1 "$t/clog"
  done
fi
