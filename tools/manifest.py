#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harness functions present."""
import json,re,glob,os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src=''.join(open(f).read() for f in glob.glob(root+'/harness/*.go'))
have=set(re.findall(r'^func (?:KF)?(C\d\d)_\w+\(\)',src,re.M))
notes={}
np=root+'/tools/notes.json'
if os.path.exists(np): notes=json.load(open(np))
checks=[];na=[]
for l in open(root+'/properties.jsonl'):
    p=json.loads(l)
    i=p['id']
    if i in have:
        checks.append({"property":i,"quick_cmd":f"./check.sh {i} quick"+(" -budget 240" if i in ("C22","C15") else ""),"thorough_cmd":f"./check.sh {i} thorough",
          "technique":"symbolic execution of the Go SSA of /repo with an SMT solver (z3) deciding every assertion; counterexamples replayed natively",
          "level":"model_checking",
          "level_note":notes.get(i,"Bounded: every path of the harness within the stated sizes is executed symbolically and each assertion is an SMT query.")+" Trusted: the SSA interpreter, its models of reflect/unsafe/strconv/sync, z3; sampled paths are cross-checked natively on every run."})
    else:
        na.append({"property":i,"reason":notes.get(i,"no check built yet")})
json.dump({"version":1,"setup_cmd":"./check.sh build","checks":checks,"not_applicable":na,
 "notes":"See DESIGN.md. No hooks in /repo are needed."},open(root+'/MANIFEST.json','w'),indent=1)
