#!/bin/bash
# schema-validate properties.jsonl, MANIFEST.json and the evidence files
cd "$(dirname "$0")/.."
python3-vt - <<'P'
import json, jsonschema, glob
L = lambda p: json.load(open(p))
s = L('/root/.vp/PROPERTIES.schema.json')
for l in open('properties.jsonl'):
    jsonschema.validate(json.loads(l), s)
m = L('MANIFEST.json')
jsonschema.validate(m, L('/root/.vp/MANIFEST.schema.json'))
e = L('/root/.vp/EVIDENCE.schema.json')
for c in m['checks']:
    try: jsonschema.validate(L(c['evidence_file']), e)
    except FileNotFoundError: print('no evidence', c['property'])
print('valid', len(m['checks']))
P
