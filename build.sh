#!/bin/bash
# build.sh DIR BUILD...   builds the harness for /repo's working tree in DIR.
# BUILD is plain (uninstrumented), inst (instrumented) or race (instrumented,
# with the race detector) or
# mock (instrumented, with controllable hash functions).
# Exit codes: 0 all built; 2 /repo does not build; 3 only plain could be built.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=${REPO:-/repo}
dir=$1; shift
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local CGO_ENABLED=1
export GOCACHE=${GOCACHE:-/root/.cache/go-build}
mkdir -p "$dir/inst" "$dir/plain"
rm -f "$dir/inst/overlay.json"
cp "$repo/go.mod" "$dir/go.mod" && cp "$repo/go.sum" "$dir/go.sum" || exit 2
mf=$dir/go.mod
# the generator
(cd "$here/vgen" && GOFLAGS= go build -buildvcs=false -o "$dir/vgen.bin" .) || exit 2
gobuild() { # overlay output flags...
  local ov=$1 o=$2; shift 2
  (cd "$repo" && go build -buildvcs=false "$@" -modfile="$mf" -overlay "$ov" -o "$o" ./internal/verif/hx)
}
rc=0
for b in "$@"; do
  case $b in
  plain)
    "$dir/vgen.bin" -repo "$repo" -src "$here/src" -out "$dir/plain" -inst=false -modfile "$mf" &&
      gobuild "$dir/plain/overlay.json" "$dir/hx.plain" || exit 2
    ;;
  mock)
    mkdir -p "$dir/mock"
    "$dir/vgen.bin" -repo "$repo" -src "$here/src" -out "$dir/mock" -mock -ticks=false -modfile "$mf" &&
      gobuild "$dir/mock/overlay.json" "$dir/hx.mock" || rc=3
    ;;
  inst|race)
    if [ ! -e "$dir/inst/overlay.json" ]; then
      "$dir/vgen.bin" -repo "$repo" -src "$here/src" -out "$dir/inst" -modfile "$mf" || { rc=3; continue; }
    fi
    if [ $b = race ]; then
      gobuild "$dir/inst/overlay.json" "$dir/hx.race" -race || rc=3
    else
      gobuild "$dir/inst/overlay.json" "$dir/hx.inst" || rc=3
    fi
    ;;
  esac
done
exit $rc
