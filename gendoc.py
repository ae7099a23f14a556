#!/usr/bin/env python3
"""Writes HARNESSES.md: every harness with its comment, which states what it decides and within what bounds."""
import re,glob,json
props={}
for l in open("/verif/properties.jsonl"):
    p=json.loads(l); props[p["id"]]=p["title"]
out=["# Harnesses","","Generated by gendoc.py from the comments in harness/.  Bounds are those of the quick tier unless a thorough",
"one is given; `nd.Choose`, `nd.Byte` and the like in the source are the symbolic variables.",""]
h={}
for f in sorted(glob.glob("/verif/harness/h[dwt]/*.go")):
    s=open(f).read()
    for m in re.finditer(r"((?://.*\n)+)func (C\d\d)_(\w+)\(\)",s):
        c=" ".join(x.lstrip("/").strip() for x in m.group(1).strip().split("\n"))
        h.setdefault(m.group(2),[]).append((m.group(3),f[len("/verif/"):],c))
for p in sorted(props):
    out.append(f"## {p} {props[p]}"); out.append("")
    for n,f,c in h.get(p,[]):
        c=re.sub(r"^%s_%s:? ?"%(p,n),"",c)
        out.append(f"- `{p}_{n}` ({f}): {c}")
    out.append("")
open("/verif/HARNESSES.md","w").write("\n".join(out))
n=sum(len(v) for v in h.values()); print(n,"harnesses")
