#!/usr/bin/env python3
"""Prints the choices of a replay file."""
import json,sys
for f in sys.argv[1:]:
    d=json.load(open(f)); print(d["harness"],d["assert"]); print(" ".join("%s=%s"%(v["label"],v["v"][0] if v["v"] and len(v["v"])==1 else v["v"]) for v in d["values"] or []))
