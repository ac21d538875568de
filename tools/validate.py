import json,jsonschema,glob
V='/verif'
jsonschema.validate(json.load(open(V+'/MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
ps=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open(V+'/properties.jsonl'): jsonschema.validate(json.loads(l),ps)
es=json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in glob.glob(V+'/evidence/*.json'): jsonschema.validate(json.load(open(f)),es)
print('schemas ok')
