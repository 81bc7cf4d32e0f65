#!/bin/bash
# Warm the build cache: compile the tool and one controlled copy. Checks do not depend on it.
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
export MC_VERIF=$here
d=$(mktemp -d /tmp/mcsetup.XXXXXX) || exit 1
trap 'rm -rf "$d"' EXIT
(cd "$here/mc/tool" && go build -o "$d/mctool" .) && "$d/mctool" build "$d/b" && echo ok
