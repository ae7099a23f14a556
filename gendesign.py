#!/usr/bin/env python3
"""Fills the tables of DESIGN.md from properties.jsonl, claims.py, known-findings.txt and seeded/ (run by hand)."""
import json,glob,re,os
src=open("/verif/DESIGN.md").read()
cl={}
for m in re.finditer(r'c\("(C\d\d)", "([\w,]+)", "(.*?)"\)',open("/verif/claims.py").read()): cl[m.group(1)]=(m.group(2),m.group(3))
hs=open("/verif/HARNESSES.md").read()
def put(name,text):
    global src
    a=f"<!-- {name} -->"; b=f"<!-- end {name} -->"
    new=a+"\n"+text+"\n"+b
    if a in src: src=src[:src.index(a)]+new+src[src.index(b)+len(b):]
    else: src=src.replace("\n"+name+"\n","\n"+new+"\n",1)
t=["| property | harnesses | bounds |","|---|---|---|"]
for l in open("/verif/properties.jsonl"):
    p=json.loads(l); i=p["id"]; n=len(re.findall(r"`%s_"%i,hs))
    t.append(f"| {i} {p['title']} | {n} in {', '.join('harness/'+x for x in cl[i][0].split(','))} | {cl[i][1].replace('Bounds: ','')} |")
put("PROPTABLE","\n".join(t))
t=["| property | commit | what failed |","|---|---|---|"]
for l in open("/verif/known-findings.txt"):
    m=re.match(r"fixed: property=(\S+) (\S+) (.*)",l)
    if m: t.append("| %s | %s | %s |"%m.groups())
put("FIXTABLE","\n".join(t))
t=["| bug | caught by | needs | breaks |","|---|---|---|---|"]
for f in sorted(glob.glob("/verif/seeded/*/meta.json")):
    m=json.load(open(f)); t.append(f"| {f.split('/')[3]} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
put("SEEDTABLE","\n".join(t))
open("/verif/DESIGN.md","w").write(src)
