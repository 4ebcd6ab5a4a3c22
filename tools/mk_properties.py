#!/usr/bin/env python3
"""Writes properties.jsonl (and checks.json's table) from the list below."""
import json, os
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, quant, why, files, mech, technique, note, level='exploration'):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), technique=technique, note=note, level=level))

exec(open(os.path.join(D, 'tools', 'properties.py')).read())

checks = {}
with open(os.path.join(D, 'properties.jsonl'), 'w') as f:
    for p in P:
        checks[p['id']] = dict(technique=p.pop('technique'), note=p.pop('note'), level=p.pop('level'))
        f.write(json.dumps(p) + '\n')
checks['_not_applicable'] = NA
json.dump(checks, open(os.path.join(D, 'tools', 'checks.json'), 'w'), indent=1)
