#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json (a development aid)."""
import json, re
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
src = open('/verif/engine/props.go').read()
have = set(re.findall(r'^\t"(C\d+)":', src, re.M))
tech = {}
exec(open('/verif/tools/techniques.py').read(), tech)
checks, na = [], []
for p in props:
    i = p['id']
    if i in tech['NA']:
        na.append({'property': i, 'reason': tech['NA'][i]})
    elif i not in have:
        na.append({'property': i, 'reason': 'no check built yet'})
    else:
        checks.append({'property': i, 'quick_cmd': './check.sh %s quick' % i, 'thorough_cmd': './check.sh %s thorough' % i,
            'technique': tech['T'].get(i, tech['SESSION']), 'level': 'other', 'level_note': tech['NOTE'].get(i, tech['DEFNOTE'])})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
    'notes': 'No hooks in /repo. Known findings and repairs: known-findings.txt. Method: DESIGN.md.'}, open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
