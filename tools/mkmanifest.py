#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from the list of built checks."""
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
T={}
exec(open(V+'/tools/checks.py').read(),T)
checks=[];na=[]
for p in props:
    i=p['id']
    if i in T['CHECKS']:
        tech,note=T['CHECKS'][i]
        checks.append({"property":i,"quick_cmd":f"bash check.sh {i} quick","thorough_cmd":f"bash check.sh {i} thorough",
          "evidence_file":f"evidence/{i}.json","technique":tech,"level":"exploration","level_note":note})
    else:
        na.append({"property":i,"reason":T['NA'].get(i,"check under construction")})
m={"version":1,"setup_cmd":"bash setup.sh","checks":checks,"not_applicable":na,
 "notes":"Runtime monitoring: every check rebuilds /verif/harness with /repo's working tree and watches real executions."}
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1); open(V+'/MANIFEST.json','a').write('\n')
print(len(checks),'checks')
