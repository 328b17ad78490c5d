#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.json (technique and notes are kept there, beside the budgets)."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = json.load(open(os.path.join(here, "checks.json")))
P = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
NA = {}
checks, na = [], []
for p in P:
    i = p["id"]
    if i in NA:
        na.append(dict(property=i, reason=NA[i]))
    elif i in C:
        c = C[i]
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"python3 check.py {i} --thorough",
                           technique=c["technique"], level=c.get("level", "exploration"), level_note=c["note"]))
    else:
        na.append(dict(property=i, reason="Not claimed yet: the monitored suite for this property is not finished."))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
         notes="One driver (check.py) builds one suite binary per property from /repo's working tree under AddressSanitizer, Miri and, where useful, ThreadSanitizer, and judges the executions. No hooks in /repo were needed: everything is observed through public items, the `test` feature the crate already has, and user-supplied allocators, elements and wakers.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
