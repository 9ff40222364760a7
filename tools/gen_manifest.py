#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of claimed checks below."""
import json, os
here=os.path.dirname(os.path.abspath(__file__)); root=os.path.join(here,"..")
props=[json.loads(l) for l in open(os.path.join(root,"properties.jsonl"))]
T={}
exec(open(os.path.join(here,"claims.py")).read())
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in T:
        tech,note=T[i]
        checks.append({"property":i,"quick_cmd":"VERIF_TIER=quick ./check.sh %s"%i,"thorough_cmd":"VERIF_TIER=thorough ./check.sh %s"%i,
          "technique":tech,"level":"model_checking","level_note":note})
    else:
        na.append({"property":i,"reason":NA.get(i,"no check built yet")})
m={"version":1,"setup_cmd":"./setup.sh","hooks":{"guard":"verif (build tag; no hook is in the tree)","enable":"not needed: the checks drive the exported API","source_commits":[]},
 "checks":checks,"not_applicable":na}
json.dump(m,open(os.path.join(root,"MANIFEST.json"),"w"),indent=1); print(len(checks),"checks",len(na),"not claimed")
