#!/bin/bash
# Regenerates properties.jsonl and MANIFEST.json and checks them against the schemas.
cd "$(dirname "${BASH_SOURCE[0]}")/.." && python3 tools/mk_properties.py && python3 tools/mk_manifest.py && python3-vt - <<'P'
import json,jsonschema
jsonschema.validate(json.load(open('MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('properties.jsonl'): jsonschema.validate(json.loads(l),sch)
print('ok')
P
