#!/usr/bin/env python3
# Regenerates MANIFEST.json.
import json,subprocess
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
NOTES=json.load(open('/verif/tools/notes.json'))
checks=[];na=[]
for p in props:
    n=NOTES[p['id']]
    if 'na' in n:
        na.append(dict(property=p['id'],reason=n['na'])); continue
    checks.append(dict(property=p['id'],quick_cmd=f"./check {p['id']}",thorough_cmd=f"VERIF_TIER=thorough ./check {p['id']}",
        evidence_file=f"evidence/{p['id']}.json",technique=n['technique'],level='proof',level_note=n['note']))
m=dict(version=1,setup_cmd="./check --build",checks=checks,not_applicable=na)
s=json.load(open('/root/.vp/MANIFEST.schema.json'))
import jsonschema; jsonschema.validate(m,s)
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write("\n")
print(len(checks),'checks',len(na),'not applicable')
