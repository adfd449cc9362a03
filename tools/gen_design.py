#!/usr/bin/env python3
"""DESIGN.md from tools/design.md, known-findings.json, seeded/*/meta.json and tools/catches.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(f'{V}/tools/design.md').read()
fixes = '\n'.join('- ' + f['what'][len('fixed: '):] for f in json.load(open(f'{V}/known-findings.json')) if 'fixed' in f)
try: c = json.load(open(f'{V}/tools/catches.json'))
except FileNotFoundError: c = {}
rows = ['| change | property | needs | caught by |', '| --- | --- | --- | --- |']
for i in sorted(os.listdir(f'{V}/seeded')) if os.path.isdir(f'{V}/seeded') else []:
    m = json.load(open(f'{V}/seeded/{i}/meta.json'))
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {', '.join(c.get(i, [])) or 'none'} |")
open(f'{V}/DESIGN.md', 'w').write(t.replace('{{fixes}}', fixes).replace('{{catches}}', '\n'.join(rows)).replace('{{missed}}', ''))
