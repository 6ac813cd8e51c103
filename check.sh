#!/bin/bash
# check.sh ID [--replay FILE]   checks property ID on /repo's working tree.
# VERIF_TIER (quick or thorough) and VERIF_SEED are taken from the environment.
# Exit codes: 0 the property held on everything explored; 1 it is violated;
# 2 the check could not be run.
set -u
here=$(cd "$(dirname "$0")" && pwd)
id=${1:?usage: check.sh ID [--replay FILE]}; shift
tier=${VERIF_TIER:-quick}
[ "${1:-}" = "--thorough" ] && { tier=thorough; shift; }
if [ -e /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
work=$(mktemp -d /tmp/xmssmt-verif.XXXXXX) || exit 2
trap 'chmod -R u+rwX "$work" 2>/dev/null; rm -rf "$work"' EXIT
builds=$(grep "^$id " "$here/builds.txt" | cut -d' ' -f2-)
[ -n "$builds" ] || { echo "unknown check $id"; exit 2; }
mkdir "$work/b" "$work/w"
"$here/build.sh" "$work/b" $builds >"$work/build.log" 2>&1
rc=$?
note=()
case $rc in
0) ;;
3) note=(-note "the instrumented build failed, so only the uninstrumented part was run: $(tail -c 300 "$work/build.log" | tr '\n' ' ')") ;;
*) cat "$work/build.log"; echo "check $id: cannot build"; exit 2 ;;
esac
args=(-work "$work/w" -tier "$tier" -seed "${VERIF_SEED:-1}")
for b in plain inst race mock; do
  [ -x "$work/b/hx.$b" ] && args+=("-$b" "$work/b/hx.$b")
done
if [ "${1:-}" = "--replay" ]; then
  "$work/b/hx.plain" "${args[@]}" -replay "$2"
  exit $?
fi
mkdir -p "$here/evidence" "$here/replay"
"$work/b/hx.plain" "${args[@]}" -check "$id" -evidence "$here/evidence/$id.json" \
  -replays "$here/replay" -known "$here/known-findings.txt" ${note[@]+"${note[@]}"}
exit $?
