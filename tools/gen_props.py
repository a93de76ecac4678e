#!/usr/bin/env python3
# Writes /verif/properties.jsonl (one property per line).
import json,os
P=[]
def p(id,title,statement,over,q,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":mech}
    if state: a["state"]=state
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"props_data.py")).read())
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P),"properties")
