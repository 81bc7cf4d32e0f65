"""Development helper: writes seeded/<id>/ from edits against /repo and a Go demo."""
import json, os, subprocess, sys
DEMO = '''#!/bin/bash
# exit 0: the property holds; nonzero: it does not. Runs in the repository.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf -- "$T"' EXIT
printf '{"Replace":{"%s":"%s"}}' "$PWD/@PKG@/zz_demo_test.go" "$D/demo_test.go.txt" > "$T/o.json"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
go test -vet=off -count=1 -timeout 200s @FLAGS@ -overlay "$T/o.json" -run 'TestZZDemo' ./@PKG@
'''
def seed(id, prop, needs, breaks, edits, pkg, demo, flags='', verify=True):
    if len(sys.argv) > 1 and id not in sys.argv[1:]:
        return
    d = '/verif/seeded/' + id
    w = subprocess.check_output(['/verif/mc/dev/seed.sh', 'new', id], text=True).strip()
    for f, old, new in edits:
        p = os.path.join(w, f); s = open(p).read()
        if s.count(old) != 1:
            print(id, 'edit matches', s.count(old), 'times in', f, repr(old[:60])); return
        open(p, 'w').write(s.replace(old, new))
    os.makedirs(d, exist_ok=True)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    open(d + '/demo.sh', 'w').write(DEMO.replace('@PKG@', pkg).replace('@FLAGS@', flags)); os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo_test.go.txt', 'w').write(demo.lstrip())
    subprocess.call(['/verif/mc/dev/seed.sh', 'keep', id])
