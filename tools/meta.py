#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and groups.txt from the property tables beside this file."""
import json,os,sys,glob
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from props_base import *
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GROUP={}
for m in ["props_mesh","props_gas","props_bc","props_spatial","props_ode","props_mpi","props_output","props_parse","props_omp"]:
    if os.path.exists(os.path.join(V,"tools",m+".py")): __import__(m)
for l in open(os.path.join(V,"groups.txt")):
    f=l.split()
    if f: GROUP[f[0]]=f[1]
with open(os.path.join(V,"properties.jsonl"),"w") as f:
    for p in PROPS: f.write(json.dumps(p)+"\n")
checks=[]
for p in PROPS:
    i=p["id"]
    if i in NA: continue
    assert i in GROUP,i
    checks.append(dict(property=i,quick_cmd="./check.sh %s"%i,thorough_cmd="VERIF_TIER=thorough ./check.sh %s"%i,
        technique=TECH[i],level="exploration",level_note=NOTE[i]))
man=dict(version=1,setup_cmd="./setup.sh",checks=checks,not_applicable=[dict(property=k,reason=v) for k,v in NA.items()],
    notes="All checks are property-based tests over generated inputs (engine in harness/engine.cpp). Known findings: known_findings.txt. No hooks in /repo are needed.")
json.dump(man,open(os.path.join(V,"MANIFEST.json"),"w"),indent=1)
print(len(PROPS),"properties",len(checks),"checks")
