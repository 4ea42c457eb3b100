#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/gen.py"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, CHECKS, NA = [], [], []


def prop(id, title, statement, over, text, why, files, mechanism, observe, check=None, na=None):
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
              "quantifier": {"over": over, "text": " ".join(text.split())},
              "why_tests_cant": " ".join(why.split()),
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                          "observe_at": observe, "hook_needed": None}})
    assert (check is None) != (na is None), id
    if check:
        tech, level, note = check
        CHECKS.append({"property": id, "quick_cmd": "python3 check.py " + id,
                       "thorough_cmd": "python3 check.py %s --thorough" % id,
                       "evidence_file": "evidence/%s.json" % id, "technique": tech, "level": level,
                       "level_note": " ".join(note.split())})
    else:
        NA.append({"property": id, "reason": " ".join(na.split())})


exec(open(os.path.join(V, "tools", "props_data.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": CHECKS, "not_applicable": NA},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in P:
        jsonschema.validate(p, s)
    jsonschema.validate(json.load(open(os.path.join(V, "MANIFEST.json"))), json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError:
    pass
print(len(P), "properties,", len(CHECKS), "claimed")
