#!/usr/bin/env python3
"""Writes MANIFEST.json from check.py's ENGINES table."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
src = open(os.path.join(V, 'check.py')).read()
ids = sorted(set(re.findall(r"'(C\d\d)': \(", src)))
NOTE = json.load(open(os.path.join(V, 'tools', 'level_notes.json')))
allids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': './check.py --setup',
     'checks': [{'property': i, 'quick_cmd': './check.py --property %s --tier quick' % i,
                 'thorough_cmd': './check.py --property %s --tier thorough' % i,
                 'evidence_file': 'evidence/%s.json' % i,
                 'technique': 'TLA+ specification checked with TLC; ' + NOTE[i][0],
                 'level': 'model_checking', 'level_note': NOTE[i][1]} for i in ids],
     'not_applicable': [{'property': i, 'reason': 'machinery still being built'} for i in allids if i not in ids],
     'notes': 'No hooks in /repo: the checks drive the public API with a simulated network and clock.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(ids), 'checks')
