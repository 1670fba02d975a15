#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import json, os, re
V = '/verif'
rows = ''.join('| %s | %s |\n' % (d, json.load(open(f'{V}/seeded/{d}/meta.json'))['needs']) for d in sorted(os.listdir(V + '/seeded')))
s = open(V + '/DESIGN.md').read()
s = re.sub(r'(\| change \| what it needs \|\n\|---\|---\|\n)(\| c\d\d-.*\n)+', lambda m: m.group(1) + rows, s)
open(V + '/DESIGN.md', 'w').write(s)
