#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, notes.json and the rules that exist."""
import json, subprocess, os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
have=set(subprocess.check_output([V+'/bin/doqcheck','list'],text=True).split())
notes=json.load(open(V+'/scripts/notes.json'))
checks,na=[],[]
for l in open(V+'/properties.jsonl'):
    p=json.loads(l)['id']
    n=notes.get(p,{})
    if p in have and 'na' not in n:
        checks.append({"property":p,"quick_cmd":f"./run.sh {p}","thorough_cmd":f"./run.sh {p} thorough",
          "technique":n.get('technique',notes['default']['technique']),"level":"other",
          "level_note":n.get('level_note','')+' '+notes['default']['level_note']})
    else:
        na.append({"property":p,"reason":n.get('na','the rule for it is not built yet')})
m={"version":1,"setup_cmd":"./run.sh setup","checks":checks,"not_applicable":na,
 "notes":"One checker (tool/) loads /repo's current source, type-checks it, builds SSA and decides each property by rules; nothing of /repo is executed. run.sh rebuilds the checker when needed."}
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1)
print(len(checks),'claimed',len(na),'not')
