#!/usr/bin/env python3
# usage: plant.py FILE.py [id...]   FILE.py defines BUGS = [dict(id, prop, edits=[(file, old, new)], needs, breaks, demo=go source, pkg=None)]
# Makes /verif/seeded/<id>/ for each, after confirming it in a scratch copy, and runs the property's quick check on the copy.
import sys,os,subprocess,json,shutil,tempfile
src=sys.argv[1]; only=sys.argv[2:]
ns={}; exec(open(src).read(),ns)
DEMO='''#!/bin/bash
# exit 0: the property holds for the demonstrated case
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.23.12/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod HOME=/root TZ=UTC
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
'''
MAIN=DEMO+'''cat >"$t/o.json" <<EOF
{"Replace":{"$PWD/zz_demo/main.go":"$here/demo.go"EXTRA}}
EOF
go build -overlay "$t/o.json" -o "$t/demo" ./zz_demo || exit 3
export DEMO_REPO="$PWD"
cd "$t" && exec_out=$("$t/demo" 2>&1); rc=$?
echo "$exec_out"
exit $rc
'''
TEST=DEMO+'''printf '{"Replace":{"%s/PKG/zz_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$here" >"$t/o.json"
go test -overlay "$t/o.json" -vet=off -count=1 -run '^TestZZDemo$' ./PKG
'''
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
for b in ns["BUGS"]:
    if only and b["id"] not in only: continue
    d="/verif/seeded/"+b["id"]; s="/tmp/w/s_"+b["id"]
    shutil.rmtree(s,ignore_errors=True); sh(f"cp -a /repo {s}"); sh(f"git -C {s} checkout -q -- .")
    ok=True
    for f,o,n in b["edits"]:
        p=f"{s}/{f}"; t=open(p).read()
        if t.count(o)!=1: print(b["id"],"edit matches",t.count(o),"times:",f,o[:60]); ok=False; break
        # the replaced lines are the original repository's
        open(p,"w").write(t.replace(o,n))
    if not ok: shutil.rmtree(s); continue
    sh(f"gofmt -w "+" ".join(f"{s}/{f}" for f,_,_ in b["edits"]))
    diff=sh(f"git -C {s} diff").stdout
    os.makedirs(d,exist_ok=True)
    for x in os.listdir(d): os.remove(d+"/"+x)
    open(d+"/patch.diff","w").write(diff)
    if b.get("pkg"):
        open(d+"/demo_test.go","w").write(b["demo"]); open(d+"/demo.sh","w").write(TEST.replace("PKG",b["pkg"]))
    else:
        open(d+"/demo.go","w").write(b["demo"]); 
        ex="".join(',"$PWD/%s":"$here/%s"'%(p,os.path.basename(p)+".txt") for p in b.get("files",{}))
        for p,c in b.get("files",{}).items(): open(d+"/"+os.path.basename(p)+".txt","w").write(c)
        open(d+"/demo.sh","w").write(MAIN.replace("EXTRA",ex))
    os.chmod(d+"/demo.sh",0o755)
    json.dump({"property":b["prop"],"needs":b["needs"],"what_it_breaks":b["breaks"]},open(d+"/meta.json","w"),indent=1)
    r0=sh(f"bash {d}/demo.sh",cwd="/repo"); r1=sh(f"bash {d}/demo.sh",cwd=s)
    rep=[f"demo {r0.returncode}/{r1.returncode}"]
    if r0.returncode!=0 or r1.returncode==0: print(r0.stdout[-500:],r0.stderr[-800:],"\n---\n",r1.stdout[-500:],r1.stderr[-500:])
    sh(f"mkdir -p /tmp/w/tt; sed 's#cd /repo#cd {s}#' /opt/vp/env.sh >{s}.env; sed 's#/opt/vp/env.sh#{s}.env#' /opt/vp/test.sh >{s}.test")
    r=sh(f"cd {s} && bash {s}.test {s}.json")
    base=json.load(open('/opt/vp/BASELINE.json'))['stable']
    try: ps=set(json.load(open(s+".json"))['passed']); miss=[x for x in base if x not in ps]
    except Exception as e: miss=[str(e)]
    rep.append(f"tests missing {len(miss)} {miss[:3]}")
    r=sh(f"/verif/check.sh {b['prop']} quick -repo {s}",cwd="/verif",timeout=900)
    v=[l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    rep.append(f"check rc={r.returncode} {'CAUGHT' if v and r.returncode==1 else 'MISSED'} {'' if v else r.stdout[-300:]}")
    print(b["id"],b["prop"]," | ".join(rep),flush=True)
    shutil.rmtree(s); sh(f"rm -f {s}.env {s}.test {s}.json")
