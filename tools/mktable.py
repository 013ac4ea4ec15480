"""Rewrites the table of planted bugs in DESIGN.md (development tool)."""
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = '| planted bug | property | needs | caught by |\n|---|---|---|---|\n'

rows = ''
for name in sorted(os.listdir(f'{ROOT}/seeded')):
    meta = json.load(open(f'{ROOT}/seeded/{name}/meta.json'))
    needs = meta['needs'].replace('|', '/')
    rows += f'| {name} | {meta["property"]} | {needs} | {meta["property"]} |\n'

text = open(f'{ROOT}/DESIGN.md').read()
start = text.index(HEAD)
end = re.compile(r'\n(?!\|)').search(text, start).end()
open(f'{ROOT}/DESIGN.md', 'w').write(text[:start] + HEAD + rows + text[end:])
