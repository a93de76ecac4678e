#!/usr/bin/env python3
# Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json.
import json,glob,os,re
root=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
rows=["| change | caught by | needs |","|---|---|---|"]
for f in sorted(glob.glob(os.path.join(root,"seeded","*","meta.json"))):
    m=json.load(open(f)); rows.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {m['needs']} |")
p=os.path.join(root,"DESIGN.md"); d=open(p).read()
d=re.sub(r"<!-- seeded -->.*<!-- /seeded -->",lambda _:"<!-- seeded -->\n"+"\n".join(rows)+"\n<!-- /seeded -->",d,flags=re.S)
open(p,"w").write(d)
