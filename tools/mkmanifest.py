import json, os
V='/verif'
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
notes=json.load(open(V+'/tools/checks.json'))
checks=[];na=[]
for p in props:
    i=p['id']
    if i in notes and os.path.exists(f'{V}/checks/{i}.py'):
        n=notes[i]
        checks.append({"property":i,"quick_cmd":f"./run.sh {i} quick","thorough_cmd":f"./run.sh {i} thorough","evidence_file":f"evidence/{i}.json","technique":n["technique"],"level":n.get("level","model_checking"),"level_note":n["note"]})
    else:
        na.append({"property":i,"reason":notes.get('na',{}).get(i,"check not built yet")})
m={"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":na,
 "notes":"TLA+ specifications in spec/, checked with TLC; run.sh <id> <tier> builds /repo's working tree in a scratch copy, runs the code, and lets TLC judge what was recorded."}
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1)
import jsonschema
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(checks),len(na))
