#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json (run: python3 tools/mkmanifest.py).

A property is claimed when harness/<id>.py exists; LEVEL holds the notes.
"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NOTES = json.load(open(os.path.join(V, 'tools', 'levels.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'harness', i.lower() + '.py')):
        n = NOTES[i]
        checks.append({
            'property': i,
            'quick_cmd': 'bash check.sh %s quick' % i,
            'thorough_cmd': 'bash check.sh %s thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': n['technique'], 'level': n['level'],
            'level_note': n['note']})
    else:
        na.append({'property': i, 'reason': 'no check has been built for it yet'})
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh',
           'hooks': {'guard': 'none', 'enable': 'no hooks are needed: every property is observed at public functions and files', 'source_commits': []},
           'checks': checks, 'not_applicable': na,
           'notes': 'See DESIGN.md. Known findings and repaired defects: known-findings.txt'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'unclaimed')
