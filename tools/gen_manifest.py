#!/usr/bin/env python3
# Writes MANIFEST.json from properties.jsonl, claims.json (the claimed ids and their level notes) and na.json.
import json
P=[json.loads(l) for l in open('/verif/properties.jsonl')]
C=json.load(open('/verif/tools/claims.json'))
N=json.load(open('/verif/tools/na.json'))
out={"version":1,"setup_cmd":"bash setup.sh",
 "hooks":{"guard":"verif","enable":"no hooks are needed: contracts live in /verif/contracts and are checked against the unmodified source of /repo","source_commits":[]},
 "checks":[],"not_applicable":[]}
for p in P:
    i=p["id"]
    if i in C:
        out["checks"].append({"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough",
          "evidence_file":f"evidence/{i}.json",
          "technique":"contract-based deductive verification: contracts on the real Go functions, verification conditions generated from go/ssa of the current tree, discharged by z3 (thorough: also cvc5)",
          "level":"proof","level_note":C[i]})
    else:
        out["not_applicable"].append({"property":i,"reason":N.get(i,"not under contract yet")})
json.dump(out,open('/verif/MANIFEST.json','w'),indent=1,ensure_ascii=False)
open('/verif/MANIFEST.json','a').write("\n")
print(len(out["checks"]),"claimed",len(out["not_applicable"]),"not")
