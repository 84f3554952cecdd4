#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/props.py and the list of
claimed checks in checks/claims.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path[:0] = [here, os.path.join(root, "checks")]
from props import P
import claims

with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]]))
        assert len(p["title"]) <= 80, p["title"]
        if p["state"]:
            d["anchors"]["state"] = p["state"]
        f.write(json.dumps(d) + "\n")
checks = []
na = []
for p in P:
    if p["id"] in claims.CLAIMED:
        checks.append(dict(property=p["id"], quick_cmd="python3 run.py %s quick" % p["id"],
                           thorough_cmd="python3 run.py %s thorough" % p["id"],
                           evidence_file="evidence/%s.json" % p["id"],
                           technique=p["technique"], level="other",
                           level_note=claims.CLAIMED[p["id"]]))
    else:
        na.append(dict(property=p["id"], reason=p["na"] or claims.NOT_YET.get(p["id"], "no check built yet")))
m = dict(version=1, setup_cmd="python3 setup.py", checks=checks, not_applicable=na,
         notes="Static analysis only; see DESIGN.md. No hooks are needed in /repo.")
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
