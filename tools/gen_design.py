#!/usr/bin/env python3
"""Write the table of planted bugs into DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os
import re

rows = ['| id | needs | breaks | caught by |', '|---|---|---|---|']
for p in sorted(glob.glob('seeded/*/meta.json')):
    m = json.load(open(p))
    rows.append(f"| {os.path.basename(os.path.dirname(p))} | {m['needs']} | "
                f"{m['what_it_breaks']} | {m.get('caught', m['property'])} |")
s = open('DESIGN.md').read()
t = '<!-- planted -->\n' + '\n'.join(rows) + '\n<!-- /planted -->'
if '@@PLANTED@@' in s:
    s = s.replace('@@PLANTED@@', t)
else:
    s = re.sub(r'<!-- planted -->.*<!-- /planted -->', lambda _: t, s, flags=re.S)
open('DESIGN.md', 'w').write(s)
