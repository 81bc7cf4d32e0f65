#!/bin/bash
# run.sh PROP [quick|thorough]   explore one property of /repo's working tree
# run.sh replay FILE             run one recorded execution again
. /opt/vp/env.sh
export GOFLAGS=-mod=mod
here=$(cd "$(dirname "$0")" && pwd)
export MC_VERIF=$here
bin=$(mktemp -d /tmp/mctool.XXXXXX) || exit 2
trap 'rm -rf "$bin"' EXIT
(cd "$here/mc/tool" && go build -o "$bin/mctool" .) || exit 2
if [ "$1" = replay ]; then
    "$bin/mctool" replay "$2"
else
    "$bin/mctool" check "$1" "${2:-${VERIF_TIER:-quick}}"
fi
