#!/usr/bin/env python3
# Regenerates /verif/MANIFEST.json from the list below.
import json,os
here=os.path.dirname(os.path.abspath(__file__))
BE="bounded-exhaustive enumeration of inputs on the real code, compared case by case with a plain reference model"
ES="explicit-state exploration of operation histories on the real code against a plain reference model"
CS="stateless model checking of the real code: controlled scheduler over instrumented source, deviation-bounded DFS over all schedules"
C={}
def claim(id,technique,level,note): C[id]=(technique,level,note)
exec(open(os.path.join(here,"claims.py")).read())
props=[json.loads(l) for l in open(os.path.join(here,"..","properties.jsonl"))]
checks=[];na=[]
for p in props:
    if p["id"] in C:
        t,l,n=C[p["id"]]
        checks.append(dict(property=p["id"],quick_cmd="./check.sh "+p["id"],thorough_cmd="VERIF_TIER=thorough ./check.sh "+p["id"],
            evidence_file="evidence/%s.json"%p["id"],technique=t,level=l,level_note=n))
    else: na.append(dict(property=p["id"],reason=NA.get(p["id"],"check still being built")))
m=dict(version=1,setup_cmd="./setup.sh",hooks=dict(guard="none",enable="no hooks are committed to /repo: the schedule-exploring checks rewrite a scratch copy of /repo's current sources at build time (mc/cmd/instr)",source_commits=[]),
  checks=checks,not_applicable=na,notes="See DESIGN.md. Every check builds from /repo's working tree; findings and repairs are listed in known_findings.txt.")
json.dump(m,open(os.path.join(here,"..","MANIFEST.json"),"w"),indent=1)
print(len(checks),"claimed",len(na),"not")
