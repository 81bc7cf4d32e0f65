#!/bin/bash
# Development helper.
#   seed.sh new ID         scratch copy of /repo in /tmp/seed/ID to edit
#   seed.sh keep ID        diff of the scratch copy -> seeded/ID/patch.diff, then verify
#   seed.sh verify ID      patch applies, builds, stable tests pass, demo passes without and fails with it
#   seed.sh run ID [PROP]  run the check of the property against the patched copy
. /opt/vp/env.sh
S=/verif/seeded/$2 W=/tmp/seed/$2
fresh() { mkdir -p /tmp/seed; [ -d "$W" ] && rm -r -- "$W"; git -C /repo worktree prune; cp -a /repo "$W"; git -C "$W" checkout -q -- .; }
case $1 in
new) fresh; echo "$W" ;;
keep) mkdir -p "$S"; git -C "$W" diff > "$S/patch.diff"; exec "$0" verify "$2" ;;
verify)
  fresh; cd "$W" || exit 2
  timeout 300 bash "$S/demo.sh" >/tmp/seed/$2.clean 2>&1; c=$?
  git apply "$S/patch.diff" || { echo "$2 does not apply"; exit 1; }
  go build ./ ./btypes/... ./datalink/... ./encoding/... ./helpers/... ./network/... ./tsm/... ./utsm/... >/tmp/seed/$2.build 2>&1 || { echo "$2 does not build"; cat /tmp/seed/$2.build; exit 1; }
  timeout 300 bash "$S/demo.sh" >/tmp/seed/$2.bug 2>&1; b=$?
  t=$(cd "$W" && bash /verif/mc/dev/stabletests.sh "$W")
  echo "$2 demo clean=$c bug=$b tests: $t"
  [ $c = 0 ] && [ $b != 0 ] && [ "$t" = ok ] ;;
run)
  fresh; cd "$W"; git apply "$S/patch.diff" || exit 2
  P=${3:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
  cd /verif/mc/tool && go build -o /tmp/mctool.$2 . || exit 2
  mkdir -p /tmp/seed/out-$2; MC_OUT=/tmp/seed/out-$2 MC_REPO=$W MC_SECONDS=${MC_SECONDS:-100} /tmp/mctool.$2 check $P ${TIER:-quick} >/tmp/seed/$2.run 2>&1; r=$?
  rm -f -- /tmp/mctool.$2
  echo "$2 $P exit=$r $(grep -m1 '^VIOLATION' /tmp/seed/$2.run) $(grep -m1 'violation' /tmp/seed/$2.run | cut -c1-200)" ;;
esac
