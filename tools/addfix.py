#!/usr/bin/env python3
"""addfix.py PROPERTY COMMIT: records a repaired defect in known_findings.json"""
import json, subprocess, sys
p, c = sys.argv[1:3]
h = subprocess.run(["git", "-C", "/repo", "log", "-1", "--format=%h %s", c], capture_output=True, text=True).stdout.strip()
h, s = h.split(" ", 1)
k = json.load(open("/verif/known_findings.json"))
k["fixed"].append(f"fixed: property={p} {h} before this commit: see its message ({s.removeprefix('fix: ')})")
json.dump(k, open("/verif/known_findings.json", "w"), indent=1)
print(k["fixed"][-1])
