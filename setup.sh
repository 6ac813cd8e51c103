#!/bin/bash
# Builds everything once, which warms the build cache.
here=$(cd "$(dirname "$0")" && pwd)
if [ -e /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
d=$(mktemp -d /tmp/xmssmt-setup.XXXXXX) || exit 1
trap 'rm -rf "$d"' EXIT
"$here/build.sh" "$d" plain inst race mock
