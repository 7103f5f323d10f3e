#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl, tools/notes.json and the property tags of the specifications"""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
notes = json.load(open(V + '/tools/notes.json'))
have = {}
for f in glob.glob(V + '/spec/*/*.go') + glob.glob(V + '/spec/*/*/*.go'):
    for l in open(f):
        m = re.match(r'//@ property (.*)', l)
        if m:
            for p in m.group(1).split():
                have[p.split('/')[0]] = have.get(p.split('/')[0], 0) + 1
checks, na = [], []
for p in props:
    i = p['id']
    if i in notes['not_applicable']:
        na.append({'property': i, 'reason': notes['not_applicable'][i]})
        continue
    if i not in have:
        na.append({'property': i, 'reason': 'no contract of this property has been built yet'})
        continue
    n = notes['level_note'].get(i, '')
    checks.append({'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i,
                   'technique': 'contract-based deductive verification of the Go source (govc: relational proof of each function against its specification function, z3/cvc5)',
                   'level': 'proof',
                   'level_note': (n + ' ' if n else '') + notes['common']})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks: /repo carries no instrumentation; specifications enter through a file overlay. See DESIGN.md.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
