#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from tools/design.md (text), the rules of the checks and the planted bugs."""
import json,os,subprocess,glob
V=os.path.abspath(os.path.join(os.path.dirname(__file__),".."))
props=[json.loads(l) for l in open(V+"/properties.jsonl")]
reg=dict(l.rstrip("\n").split("\t",1) for l in subprocess.check_output([V+"/check.sh","-list"],text=True).splitlines())
na={x["property"]:x["reason"] for x in json.load(open(V+"/MANIFEST.json"))["not_applicable"]}
seeds={}
for d in sorted(glob.glob(V+"/seeded/*/meta.json")):
    m=json.load(open(d)); seeds.setdefault(m["property"],[]).append((os.path.basename(os.path.dirname(d)),m["needs"]))
NOTES={}
exec(open(V+"/tools/designnotes.py").read())
GROUP={"M":"Messages and value conversion (package jlib)","S":"Schemas (package jlibschema)","A":"Actors and servers (package jlibhttp)","U":"Authorisation and configuration","K":"Clients","X":"Commands and the FIFO example"}
out=[open(V+"/tools/design.md").read().rstrip("\n"),"","## Per property","",
"Each entry: the rule the check applies, why it reaches what the tests cannot, what it takes for granted (bounds), and the planted bugs it catches.",""]
g=None
for p in props:
    i=p["id"]
    if i in na: continue
    if i[0]!=g:
        g=i[0]; out+=["### "+GROUP[g],""]
    out.append("**%s %s.** *Rule:* %s. *Beyond tests:* %s *Bounds:* %s"%(i,p["title"],reg[i],p["why_tests_cant"],NOTES.get(i,"none beyond the general ones.")))
    if i in seeds: out.append("*Planted:* "+"; ".join("`%s` (%s)"%s for s in seeds[i])+".")
    out.append("")
out+=["### Not applicable",""]
for p in props:
    if p["id"] in na: out.append("- **%s %s**: %s."%(p["id"],p["title"],na[p["id"]]))
out+=["","## Defects found","","Repaired in /repo (`fix:` commits) and recorded, each demonstrated by a test in `defects/` (run with `defects/run.sh`) before it was repaired; the check named reports it again if it returns:",""]
for l in open(V+"/known-findings.txt"):
    if l.startswith("fixed:"):
        _,p,c,w=l.rstrip("\n").split(" ",3); out.append("- %s (%s): %s"%(p[9:],c,w))
out+=["","Recorded, not repaired (they lie in `examples/` and `cli/benchmark/`, which commits may not change); the checks print them as KNOWN-FINDING and report anything else:",""]
for l in open(V+"/known-findings.txt"):
    if l.startswith("finding:"):
        _,p,k,w=l.rstrip("\n").split(" ",3); out.append("- %s (`%s`): %s"%(p[9:],k[4:],w))
open(V+"/DESIGN.md","w").write("\n".join(out)+"\n")
