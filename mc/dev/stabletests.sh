#!/bin/bash
# stable tests in a copy of the repository: prints ok or the failing ones
. /opt/vp/env.sh
cd "$1" || exit 2
M=github.com/NubeDev/bacnet
log=$(mktemp)
go test -json -vet=off -count=1 -timeout 5m $(packages $M/cmd $M/cmd/cmd $M $M/network) > "$log" 2>/dev/null
python3 - "$log" <<'P'
import json,sys
base=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
ok=set()
for l in open(sys.argv[1]):
    try: e=json.loads(l)
    except Exception: continue
    if e.get('Action')=='pass' and e.get('Test'): ok.add(e['Package']+'/'+e['Test'])
miss=sorted(base-ok)
print('ok' if not miss else 'FAIL '+' '.join(miss[:5]))
P
rm -f -- "$log"
