#!/usr/bin/env python3
"""mkseed.py [ID...]: writes seeded/<ID>/ from tools/seeds/*.py (SEEDS lists of dicts)."""
import sys,os,json,subprocess,shutil,glob,tempfile
V=os.path.abspath(os.path.join(os.path.dirname(__file__),".."))
S=[]
for f in sorted(glob.glob(V+"/tools/seeds/*.py")):
    ns={}; exec(open(f).read(),ns); S+=ns["SEEDS"]
DEMO='''#!/bin/bash
# exit 0 when the behaviour is right, nonzero when it is broken
d=$(cd "$(dirname "$0")" && pwd); r=$PWD
. /opt/vp/env.sh 2>/dev/null
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
cat > "$t/ov.json" <<J
{"Replace":{"$r/%(dir)szz_demo_test.go":"$d/demo_test.go"}}
J
go test -vet=off -count=1 -timeout 200s -overlay "$t/ov.json" -run '^TestDemo' ./%(dir)s
'''
for s in S:
    if len(sys.argv)>1 and s["id"] not in sys.argv[1:]: continue
    d=V+"/seeded/"+s["id"]; os.makedirs(d,exist_ok=True)
    t=tempfile.mkdtemp(prefix="mkseed.")
    subprocess.check_call(["git","-c","advice.detachedHead=false","clone","-q","/repo",t+"/r"])
    for (f,a,b) in s["edits"]:
        p=t+"/r/"+f; x=open(p).read()
        if x.count(a)!=1: print(s["id"],"MATCHES",x.count(a),repr(a[:60])); 
        open(p,"w").write(x.replace(a,b,1))
        subprocess.call(["gofmt","-l",p])
    diff=subprocess.check_output(["git","diff"],cwd=t+"/r",text=True)
    open(d+"/patch.diff","w").write(diff)
    dr=s["dir"].strip("/"); dr=dr+"/" if dr else ""
    open(d+"/demo.sh","w").write(DEMO%dict(dir=dr)); os.chmod(d+"/demo.sh",0o755)
    open(d+"/demo_test.go","w").write(s["demo"].lstrip("\n"))
    json.dump(dict(property=s["property"],needs=s["needs"],what_it_breaks=s["breaks"]),open(d+"/meta.json","w"),indent=1)
    shutil.rmtree(t)
    print("wrote",s["id"])
