#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from props import PROPS, NA
TECH = 'trace-partitioned abstract interpretation of MIR'
with open(V + '/properties.jsonl', 'w') as f:
    for p in PROPS + NA:
        q = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
             'quantifier': {'over': p['over'], 'text': p['forall']},
             'why_tests_cant': p['why'],
             'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}
        f.write(json.dumps(q) + '\n')
checks = []
for p in PROPS:
    if not os.path.exists('%s/sa/rules/%s.py' % (V, p['id'].lower())):
        continue
    checks.append({'property': p['id'], 'quick_cmd': './check %s' % p['id'], 'thorough_cmd': './check %s' % p['id'],
                   'evidence_file': 'evidence/%s.json' % p['id'],
                   'technique': p.get('tech', TECH), 'level': p.get('level', 'proof'),
                   'level_note': p['note']})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks,
           'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in NA],
           'notes': 'All checks are static: they interpret the type-checked MIR of /repo abstractly; nothing of /repo is executed.'},
          open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(PROPS), 'properties', len(checks), 'checks', len(NA), 'not applicable')
