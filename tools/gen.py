#!/usr/bin/env python3
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(here)
sys.path.insert(0, here)
from props import P
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        d = dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))
        if p["state"]:
            d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in p["state"]]
        if p["observe"]:
            d["anchors"]["observe_at"] = list(p["observe"])
        d["anchors"]["hook_needed"] = None
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
checks, na = [], []
for p in P:
    if p["na"]:
        na.append(dict(property=p["id"], reason=p["na"]))
        continue
    checks.append(dict(property=p["id"], quick_cmd="./check.py %s" % p["id"], thorough_cmd="./check.py %s --tier thorough" % p["id"], technique=p["technique"], level=p["level"], level_note=p["level_note"]))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the checks instrument a copy of the sources at build time through a go build overlay (tools/rewriter). Commits in /repo are fix: commits only.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks,", len(na), "not applicable")
