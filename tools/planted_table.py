"""rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import glob
import json
import os
import re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = {}
for d in sorted(glob.glob(f'{VERIF}/seeded/*/meta.json')):
    with open(d) as f:
        m = json.load(f)
    by.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(d)).split('_', 1)[1], ' '.join(m['needs'].split())))
table = '| caught by | planted change (`seeded/<id>`) and what it needs |\n|---|---|\n'
for p in sorted(by):
    table += f'| {p} | ' + '; '.join(f'**{n}** {t}' for n, t in by[p]) + ' |\n'
with open(f'{VERIF}/DESIGN.md') as f:
    s = f.read()
s = re.sub(r'\| caught by \|.*?\n\n', lambda m: table + '\n', s, flags=re.S)
s = re.sub(r'\n\d+ changes under `seeded/`', f'\n{sum(map(len, by.values()))} changes under `seeded/`', s)
with open(f'{VERIF}/DESIGN.md', 'w') as f:
    f.write(s)
