import json,sys
sys.path.insert(0,'/verif/driver'); sys.path.insert(0,'/verif')
from table import CHECKS
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
checks=[];na=[]
for p in props:
    i=p['id']
    if i in CHECKS:
        c=CHECKS[i]
        checks.append({"property":i,"quick_cmd":"python3 check.py %s --tier quick"%i,"thorough_cmd":"python3 check.py %s --tier thorough"%i,
          "evidence_file":"evidence/%s.json"%i,"technique":c.get("technique","runtime monitoring: reference oracle over executions of the real code under generated workloads"),
          "level":"exploration","level_note":c.get("note","Held on every execution observed in the run; no guarantee beyond the explored inputs. Trusts the reference evaluation in /verif/harness.")})
    else: na.append({"property":i,"reason":"check not built yet"})
m={"version":1,"setup_cmd":"python3 setup.py","checks":checks,"not_applicable":na,
 "notes":"No hooks in /repo: every monitor observes the public API and the model's own dump. Fix commits are listed in KNOWN_FINDINGS.txt."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); print(len(checks),len(na))
