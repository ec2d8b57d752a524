#!/usr/bin/env python3
"""Write MANIFEST.json from the contract modules present (contracts/cNN.py together with replay/hNN.py)."""
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(ROOT, 'properties.jsonl')) if x.strip()]
NOTES = json.load(open(os.path.join(ROOT, 'tools', 'notes.json')))
checks, na = [], []
for p in props:
    i = p['id']
    n = i.lower()
    if os.path.exists('%s/contracts/%s.py' % (ROOT, n)) and os.path.exists('%s/replay/h%s.py' % (ROOT, i[1:])):
        d = NOTES.get(i, {})
        checks.append(dict(property=i, quick_cmd='./check ' + i, thorough_cmd='VERIF_TIER=thorough ./check ' + i,
                           evidence_file='evidence/%s.json' % i,
                           technique=d.get('technique', NOTES['technique']), level=d.get('level', 'proof'),
                           level_note=d.get('note', '') + ' ' + NOTES['common'] if d.get('note') else NOTES['common']))
    else:
        na.append(dict(property=i, reason='check not built yet (work in progress)'))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
               notes='No hooks: the contracts live in /verif/contracts and are checked against the source of /repo as it is.'),
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', [x['property'] for x in na])
