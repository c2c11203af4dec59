"""Puts the table of planted bugs into DESIGN.md."""
import glob
import json
import os
import re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| change | property | what it needs | what it breaks |', '|---|---|---|---|']
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d))
    rows.append('| `%s` | %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), m['property'], m['needs'], m['what_it_breaks']))
p = V + '/DESIGN.md'
s = open(p).read()
new = '<!-- table -->\n' + '\n'.join(rows) + '\n<!-- end -->'
s = s.replace('SEEDED-TABLE', new) if 'SEEDED-TABLE' in s else re.sub(r'<!-- table -->.*?<!-- end -->', lambda _: new, s, flags=re.S)
open(p, 'w').write(s)
