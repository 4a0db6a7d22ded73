#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and the checks present."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS
try:
    from notes import NOTES
except ImportError:
    NOTES = {}

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        f.write(json.dumps(p) + '\n')

checks, na = [], []
for p in PROPS:
    i = p['id']
    if os.path.exists(os.path.join(ROOT, 'checks', i.lower() + '.py')):
        checks.append({
            'property': i,
            'quick_cmd': './run.sh %s quick' % i,
            'thorough_cmd': './run.sh %s thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': 'property-based testing (hypothesis + bounded-exhaustive generators): ' + NOTES.get(i, {}).get('technique', 'generated inputs against an explicit oracle'),
            'level': 'exploration',
            'level_note': NOTES.get(i, {}).get('level_note', 'Holds on every generated case; cases are bounded in size. Trusts the independent oracle in /verif/checks and the generator preconditions described in DESIGN.md.'),
        })
    else:
        na.append({'property': i, 'reason': 'no check built yet'})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'All checks: ./run.sh <ID> <tier>; ./run.sh <ID> replay <file> re-runs a saved minimal reproduction without the generator library.'}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(PROPS), 'properties', len(checks), 'checks')
