#!/usr/bin/env python3
"""tools/recfix.py PROPERTY COMMIT...: records fix commits in known/findings.json"""
import json, os, subprocess, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known", "findings.json")
d = json.load(open(p))
for c in sys.argv[2:]:
    h, t = subprocess.check_output(["git", "-C", "/repo", "log", "-1", "--format=%h %s", c], text=True).strip().split(" ", 1)
    d["fixed"].append("fixed: property=%s %s %s" % (sys.argv[1], h, t.replace("fix: ", "")))
json.dump(d, open(p, "w"), indent=1)
