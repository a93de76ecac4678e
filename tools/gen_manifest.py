#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from properties.jsonl and the harness files present.
import json,os,glob,re
root=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
props=[json.loads(l) for l in open(os.path.join(root,"properties.jsonl"))]
na=json.load(open(os.path.join(root,"tools","not_applicable.json")))
notes=json.load(open(os.path.join(root,"tools","level_notes.json")))
have={}
for f in glob.glob(os.path.join(root,"harness","*","**","*.go"),recursive=True):
    b=os.path.basename(f)
    m=re.match(r"([A-Z]\d\d)[_.]",b)
    if m: have.setdefault(m.group(1),[]).append(os.path.relpath(f,root))
checks=[];nas=[]
for p in props:
    i=p["id"]
    if i in na: nas.append({"property":i,"reason":na[i]}); continue
    if i not in have: nas.append({"property":i,"reason":"no harness built yet"}); continue
    checks.append({"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough",
      "technique":"bounded symbolic execution of the real Go code (go/ssa) with SMT (z3), counterexamples replayed natively",
      "level":"model_checking","level_note":notes.get(i,"Holds for every input within the bounds recorded in the evidence file (all paths explored, every assertion decided by z3); nothing is claimed beyond them.")})
json.dump({"version":1,"setup_cmd":"./check.sh setup","checks":checks,"not_applicable":nas,
 "notes":"One engine (engine/), one set of harnesses per property (harness/). See DESIGN.md."},open(os.path.join(root,"MANIFEST.json"),"w"),indent=1)
print(len(checks),"checks",len(nas),"n/a")
