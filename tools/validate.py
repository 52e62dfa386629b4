"""python3-vt tools/validate.py: validates properties, manifest and evidence against the schemas."""
import json,jsonschema,re,glob,os
L=lambda p: json.load(open(p))
sch=L('/root/.vp/PROPERTIES.schema.json'); ids=[]
for l in open('/verif/properties.jsonl'):
    p=json.loads(l); jsonschema.validate(p,sch); ids.append(p['id'])
    n=len(re.findall(r'[.](?:\s|$)',p['statement'])); assert n<=3,(p['id'],n)
print(len(ids),'properties')
if os.path.exists('/verif/MANIFEST.json'):
    m=L('/verif/MANIFEST.json'); jsonschema.validate(m,L('/root/.vp/MANIFEST.schema.json'))
    got=[c['property'] for c in m['checks']]+[n['property'] for n in m.get('not_applicable',[])]
    assert sorted(got)==sorted(ids),set(ids)^set(got)
    print('manifest ok')
for f in glob.glob('/verif/evidence/*.json'):
    jsonschema.validate(L(f),L('/root/.vp/EVIDENCE.schema.json'))
print('evidence ok')
