#!/usr/bin/env python3
"""Writes MANIFEST.json: CLAIMED lists the properties with a check; the others are listed as not applicable."""
import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
exec(open('/verif/tools/claims.py').read())
checks=[]; na=[]
for p in props:
    i=p['id']
    if i in CLAIMED:
        checks.append({"property":i,"quick_cmd":"./check.sh quick "+i,"thorough_cmd":"./check.sh thorough "+i,
          "technique":"contract-based deductive verification: contracts, loop invariants and ghost state on the Go source (go/ssa), verification conditions discharged by z3/cvc5"+CLAIMED[i].get("tech",""),
          "level":CLAIMED[i].get("level","proof"),"level_note":CLAIMED[i]["note"]})
    else:
        na.append({"property":i,"reason":NA.get(i,"no contract-based check has been completed for this property yet")})
m={"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":na,
   "notes":"govc (in /verif/govc) is a deductive verifier for Go written for this task; specifications in /verif/specs are overlaid on the current /repo source as extra files of its packages, the code of /repo is verified as it is. See DESIGN.md."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
