#!/bin/sh
cd /verif && python3 tools/mkprops.py && python3 tools/mkmanifest.py && PYTHONPATH=. /opt/venv/bin/python -B tools/mkdesign.py && python3-vt - <<'P'
import json,jsonschema
S=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('properties.jsonl'): jsonschema.validate(json.loads(l),S)
jsonschema.validate(json.load(open('MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
print('valid')
P
