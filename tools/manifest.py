#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
TRUST = ('Trusts TLC, the driver that records the public interface, and the integer projection of the recorded values. '
         'Exhaustive within the stated model bounds; the code is bound to the model by replayed and recorded runs, so code '
         'behaviour outside the explored inputs is not covered.')
NOTES = {}
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists('%s/checks/%s.py' % (V, i)):
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i,
                       'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                       'technique': 'TLA+ specification model checked by TLC; TLC behaviours replayed in the code and recorded runs validated as traces',
                       'level': 'model_checking', 'level_note': NOTES.get(i, '') + TRUST})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
