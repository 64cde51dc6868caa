#!/usr/bin/env python3
"""Writes MANIFEST.json from props.json and properties.jsonl."""
import json,os
here=os.path.dirname(os.path.abspath(__file__))
props=[json.loads(l) for l in open(here+'/properties.jsonl') if l.strip()]
cfg=json.load(open(here+'/props.json'))
checks=[];na=[]
for p in props:
    c=cfg.get(p['id'])
    if c and not c.get('na'):
        checks.append({"property":p['id'],"quick_cmd":"./check.sh "+p['id'],"thorough_cmd":"./check.sh "+p['id'],
          "evidence_file":"evidence/%s.json"%p['id'],
          "technique":c.get("technique","contract-based deductive verification of the Go SSA (govc), SMT portfolio; executable contracts replay counterexamples"),
          "level":c.get("level","proof"),"level_note":c.get("note","see DESIGN.md")})
    else:
        na.append({"property":p['id'],"reason":(c or {}).get('na',"not claimed yet: its check is still being built")})
m={"version":1,"setup_cmd":"./build.sh","checks":checks,"not_applicable":na,
   "notes":"No hooks in /repo: contracts live in /verif/contracts and are type-checked into the packages on every run. See DESIGN.md."}
json.dump(m,open(here+'/MANIFEST.json','w'),indent=1)
