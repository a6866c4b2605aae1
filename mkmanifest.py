#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json
T="abstract interpretation of the type-checked SSA form (flow- and context-sensitive dataflow with typestate rules; fixpoints at loops)"
LOCK="lockset analysis on top of abstract interpretation of the SSA form"
claims={}
def c(id, note, tech=T): claims[id]=(tech,note)
exec(open('/verif/claims.py').read())
m={"version":1,"setup_cmd":"bash /verif/setup.sh","checks":[],"not_applicable":[]}
for id in sorted(claims):
    tech,note=claims[id]
    m["checks"].append({"property":id,"quick_cmd":f"bash /verif/check.sh {id} quick","thorough_cmd":f"bash /verif/check.sh {id} thorough","evidence_file":f"evidence/{id}.json","technique":tech,"level":"other","level_note":note})
props=[json.loads(l)["id"] for l in open('/verif/properties.jsonl')]
for p in props:
    if p in claims: continue
    m["not_applicable"].append({"property":p,"reason":na.get(p,"not built yet")})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
open('/verif/MANIFEST.json','a').write("\n")
