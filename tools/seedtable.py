#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md (between the markers)."""
import json, os, re
d = '/verif/seeded'
rows = ['| planted bug | caught by | needs | breaks |', '|---|---|---|---|']
for i in sorted(os.listdir(d)):
    m = json.load(open(f'{d}/{i}/meta.json'))
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
p = '/verif/DESIGN.md'
s = open(p).read()
t = '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- end of seeds -->'
if '@SEEDS@' in s:
    s = s.replace('@SEEDS@', t)
else:
    s = re.sub(r'<!-- seeds -->.*<!-- end of seeds -->', lambda _: t, s, flags=re.S)
open(p, 'w').write(s)
