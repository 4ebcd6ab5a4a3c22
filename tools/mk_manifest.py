#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table of techniques below."""
import json, os, subprocess
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(D, 'tools', 'checks.json')))
props = [json.loads(l) for l in open(os.path.join(D, 'properties.jsonl')) if l.strip()]
checks = []
for p in props:
    n = NOTES[p['id']]
    checks.append({
        'property': p['id'],
        'quick_cmd': f"bash run.sh {p['id']} quick",
        'thorough_cmd': f"bash run.sh {p['id']} thorough",
        'technique': n['technique'],
        'level': n.get('level', 'exploration'),
        'level_note': n['note'],
    })
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': NOTES.get('_not_applicable', []),
     'notes': 'No hooks: the checks use the public APIs of the crates of /repo. /repo carries "fix:" commits only (see known_findings.txt).'}
json.dump(m, open(os.path.join(D, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(D, 'MANIFEST.json'), 'a').write('\n')
