#!/bin/bash
# unfix.sh [commit...]: take each fix back in a scratch copy of /repo and run the check of its property; it has to fail again.
# Fixes that later ones build on cannot be taken back alone (conflict) and are skipped.
. /opt/vp/env.sh
V=$(cd "$(dirname "$0")/../.." && pwd); W=$(mktemp -d /tmp/unfix.XXXXXX); export MC_VERIF=$V MC_SECONDS=${MC_SECONDS:-60}
(cd $V/mc/tool && go build -o $W/mctool .) || exit 2
git clone -q /repo $W/r
sed -n 's/^fixed: property=\(P[0-9]*\) \([0-9a-f]*\) .*/\1 \2/p' $V/known_findings.txt | while read p c; do
  [ $# -gt 0 ] && ! [[ " $* " = *" $c "* ]] && continue
  git -C $W/r reset -q --hard; git -C $W/r clean -qfd
  if ! git -C $W/r revert -n $c >/dev/null 2>&1; then git -C $W/r revert --abort 2>/dev/null; git -C $W/r reset -q --hard; echo "$p $c conflict"; continue; fi
  (cd $W/r && go build ./ ./btypes/... ./datalink/... ./encoding/... ./helpers/... ./network/... ./tsm/... ./utsm/...) >/dev/null 2>&1 || { echo "$p $c does not build"; continue; }
  MC_REPO=$W/r MC_OUT=$W/ev $W/mctool check $p quick > $W/log 2>&1; r=$?
  echo "$p $c exit $r $(grep -m1 -A1 VIOLATION $W/log | tail -1 | cut -c1-120)"
done
case $W in /tmp/unfix.??????) rm -rf -- "$W";; esac
