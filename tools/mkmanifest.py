#!/usr/bin/env python3
"""Writes MANIFEST.json from the check classes."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
import checks

props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = {
    'version': 1,
    'setup_cmd': 'python3 run.py setup',
    'checks': [],
    'not_applicable': [],
    'notes': 'Every check builds its harness from /repo\'s working tree into /verif/build (content-hash cache) and runs it under '
             'sanitizers with its own monitors. No hooks in /repo are needed.',
}
for p in props:
    c = checks.CHECKS.get(p)
    if c is None:
        continue
    m['checks'].append({
        'property': p,
        'quick_cmd': 'python3 run.py ' + p,
        'thorough_cmd': 'python3 run.py ' + p,
        'technique': c.technique,
        'level': c.level,
        'level_note': c.level_note,
    })
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
missing = [p for p in props if p not in checks.CHECKS]
print('checks:', len(m['checks']), 'without a check:', missing)
