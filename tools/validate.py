"""checks properties.jsonl, MANIFEST.json and the evidence files against the schemas"""
import glob, json, sys
sys.path.insert(0, '/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import jsonschema
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('/verif/properties.jsonl'):
    jsonschema.validate(json.loads(l), s)
jsonschema.validate(json.load(open('/verif/MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))
s = json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in sorted(glob.glob('/verif/evidence/*.json')):
    jsonschema.validate(json.load(open(f)), s)
print("valid")
