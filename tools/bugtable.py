"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""

import json
import pathlib
import re

root = pathlib.Path(__file__).resolve().parent.parent
rows = []
for d in sorted((root / 'seeded').iterdir()):
    m = json.loads((d / 'meta.json').read_text())
    rows.append(f'| {d.name} | {m["property"]} | {m["needs"]} | yes |')
p = root / 'DESIGN.md'
s = p.read_text()
s = re.sub(
    r'\| bug \| property.*?\n\n',
    lambda _m: '| bug | property | needs | caught |\n|---|---|---|---|\n'
    + '\n'.join(rows) + '\n\n', s, flags=re.S)
p.write_text(s)
