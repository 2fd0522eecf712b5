import json,jsonschema
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
T=json.load(open('/verif/tools/techniques.json'))
NA={}
checks=[]
for p in props:
    i=p['id']
    if i in NA: continue
    t,n=T[i]
    checks.append({"property":i,"quick_cmd":f"bash check.sh {i} quick","thorough_cmd":f"bash check.sh {i} thorough","technique":t,"level":"exploration","level_note":n})
m={"version":1,"setup_cmd":"bash check.sh setup","checks":checks,"not_applicable":[{"property":k,"reason":v} for k,v in NA.items()],
 "notes":"One harness crate (harness/) with a path dependency on /repo, rebuilt from the working tree by check.sh; no hooks in /repo. known_findings.txt lists the findings and repairs, regress/ the minimal cases of repaired defects."}
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); print(len(checks))
