#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, sys
T = "symbolic execution of the real code's SSA with z3 (own executor), counterexamples replayed natively"
NOTE = ("Every path of the harnesses within their stated bounds is executed symbolically and every assertion is discharged by z3; "
        "nothing is claimed outside the bounds (see DESIGN.md and the evidence file). ")
checks = {}
def c(pid, pkg, note): checks[pid] = (pkg, note)
exec(open('/verif/claims.py').read())
props = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": [{"property": p, "quick_cmd": f"bash check.sh {p} {checks[p][0]} quick", "thorough_cmd": f"bash check.sh {p} {checks[p][0]} thorough",
                 "technique": T, "level": "model_checking", "level_note": NOTE + checks[p][1]} for p in props if p in checks],
     "not_applicable": [{"property": p, "reason": NA[p]} for p in props if p not in checks],
     "notes": "Engine: /verif/engine (Go symbolic executor over go/ssa, z3). Harnesses: /verif/harness. No hooks in /repo: the harnesses use the public API."}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1); open('/verif/MANIFEST.json','a').write('\n')
