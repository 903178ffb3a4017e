import json, os, glob
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
done={os.path.basename(p)[:-3].upper() for p in glob.glob('/verif/harness/checks/c*.py')}
notes=json.load(open('/verif/tools/notes.json'))
checks=[];na=[]
for p in props:
    i=p['id']
    if i in done:
        t,n=notes[i]
        checks.append(dict(property=i,quick_cmd="./run %s --tier quick"%i,thorough_cmd="./run %s --tier thorough"%i,
          technique=t,level="model_checking",level_note=n))
    else:
        na.append(dict(property=i,reason="check not built yet"))
m=dict(version=1,setup_cmd="./setup.sh",checks=checks,not_applicable=na,
 notes="TLA+ specifications in specs/, checked with TLC, bound to the code by replaying what TLC emits and by validating recorded traces. No hooks in /repo.")
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
