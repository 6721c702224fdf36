#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tool/meta.py (the one place where both are maintained)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import meta
for i, t, st, ov, why, fl in meta.NA:
    meta.PROPS.append(dict(id=i, title=t, statement=st, over=ov, quant="all inputs", tests="A test samples a handful of inputs.", files=fl,
                           mech=[("implementation", fl[0])], na="Static analysis cannot decide this: " + why + "."))
ROOT = os.path.dirname(HERE)
checks, na = [], []
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in meta.PROPS:
        q = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["tests"],
             "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}
        if p.get("state"):
            q["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q) + "\n")
        if p.get("na"):
            na.append({"property": p["id"], "reason": p["na"]})
        else:
            checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
                           "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                           "technique": p["technique"], "level": "other", "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
