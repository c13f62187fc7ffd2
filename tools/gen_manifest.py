#!/usr/bin/env python3
import json,os
here=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
props=[json.loads(l) for l in open(here+"/properties.jsonl")]
notes=json.load(open(here+"/tools/levels.json"))
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in notes:
        t,n=notes[i]
        checks.append(dict(property=i,quick_cmd=f"bash checks/run.sh {i}",thorough_cmd=f"env VERIF_TIER=thorough bash checks/run.sh {i}",technique=t,level="exploration",level_note=n))
    else: na.append(dict(property=i,reason="check not built yet"))
m=dict(version=1,setup_cmd="make -s -j8 lib",checks=checks,not_applicable=na)
json.dump(m,open(here+"/MANIFEST.json","w"),indent=1)
print(len(checks),len(na))
