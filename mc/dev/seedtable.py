"""Development helper: the table of planted bugs in DESIGN.md."""
import json, glob, os, re
rows = ['| planted bug | caught by | needs |', '|---|---|---|']
for d in sorted(glob.glob('/verif/seeded/*/')):
    m = json.load(open(d + 'meta.json'))
    rows.append(f"| {os.path.basename(d[:-1])} | {m['property']} | {m['needs']} |")
s = open('/verif/DESIGN.md').read()
s = re.sub(r'(<!-- seeds[^\n]*-->\n).*?(<!-- end -->)', lambda m: m[1] + '\n'.join(rows) + '\n' + m[2], s, flags=re.S)
open('/verif/DESIGN.md', 'w').write(s)
