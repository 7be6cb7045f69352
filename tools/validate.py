"""Validates the generated files against the schemas (dev aid)."""
import json,jsonschema
S=json.load(open('/root/.vp/PROPERTIES.schema.json'))
M=json.load(open('/root/.vp/MANIFEST.schema.json'))
jsonschema.validate(json.load(open('/verif/MANIFEST.json')),M)
for l in open('/verif/properties.jsonl'):
    p=json.loads(l); jsonschema.validate(p,S); print(p['id'],p['statement'].count('. ')+1,len(p['title']), end='; ')
