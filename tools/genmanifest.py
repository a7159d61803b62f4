#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: every registered check is claimed, the rest not applicable."""
import json, os, subprocess
V=os.path.abspath(os.path.join(os.path.dirname(__file__),".."))
props=[json.loads(l) for l in open(V+"/properties.jsonl")]
reg=dict(l.rstrip("\n").split("\t",1) for l in subprocess.check_output([V+"/check.sh","-list"],text=True).splitlines())
TECH={"M":"path-sensitive abstract interpretation of go/ssa: symbolic-term dataflow with decision-table obligations",
"S":"path-sensitive abstract interpretation of go/ssa: symbolic-term dataflow with loop summaries and decision-table obligations",
"A":"path-sensitive event-order (typestate) analysis over go/ssa with symbolic-term facts",
"U":"path-sensitive abstract interpretation of go/ssa: guarded-flow (must-fact) obligations",
"K":"path-sensitive event-order and lockset analysis over go/ssa",
"X":"path-sensitive event-order and lockset analysis over go/ssa of the commands and examples"}
SPECIAL={"M11":"regular-language equality on the regexps found in the source"}
NA={"N01":"needs the value-level semantics of encoding/json over every JSON value; the structural halves are decided by M02, M03 and M06, the round trip itself is no static fact in reach",
"N02":"quantifies over wall-clock time and scheduling; no static argument here bounds when a timer goroutine runs",
"N03":"ordering and loss over unbounded histories across goroutines and the network; the parts visible in the source (one writer, queue order) are decided by A12, A13 and K09",
"N04":"the code has no configured bound on goroutines or memory per connection to check against; whether consumption stays bounded is a run-time quantity"}
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in reg:
        checks.append(dict(property=i,quick_cmd="./check.sh "+i,thorough_cmd="./check.sh "+i,
          technique=SPECIAL.get(i,TECH[i[0]]),level="other",
          level_note="Static analysis of the current source, all paths with loops summarised: "+reg[i]+". Assumes go/ssa represents the program and library functions behave as modelled in checker/calls.go; data races and values computed inside libraries are outside the analysis unless the rule says so."))
    else:
        na.append(dict(property=i,reason=NA.get(i,"no check built yet")))
m=dict(version=1,setup_cmd="./check.sh -list > /dev/null",checks=checks,not_applicable=na,
 notes="One checker (checker/, Go, go/packages + go/ssa from the offline module cache) decides every property from /repo's current source; check.sh rebuilds it and runs one property.")
json.dump(m,open(V+"/MANIFEST.json","w"),indent=1); open(V+"/MANIFEST.json","a").write("\n")
print(len(checks),"claimed",len(na),"not applicable")
