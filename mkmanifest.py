#!/usr/bin/env python3
# writes MANIFEST.json
import json
tech="contract-based deductive verification: contracts on the real Go functions (go/ssa of /repo's current source), verification conditions by gover, discharged by z3 and cvc5"
note={}
exec(open('/verif/claims.py').read())
ids=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
m={"version":1,"setup_cmd":"bash /verif/setup.sh","checks":[],"not_applicable":[]}
for i in ids:
    if i in claims:
        m["checks"].append({"property":i,"quick_cmd":"bash /verif/check.sh %s quick"%i,"thorough_cmd":"bash /verif/check.sh %s thorough"%i,"technique":tech,"level":"proof","level_note":claims[i]})
    else:
        m["not_applicable"].append({"property":i,"reason":na[i]})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
