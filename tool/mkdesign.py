#!/usr/bin/env python3
"""Composes DESIGN.md from tool/design_head.md, meta.py, the rules' explanations, the planted bugs and KNOWN_FINDINGS."""
import glob, json, os, re, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import meta
out = [open(os.path.join(HERE, "design_head.md")).read().rstrip(), "", "## 2. Properties", ""]
seeds = {}
for p in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    m = json.load(open(p))
    seeds.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(p)), m))
notes = {l.split(":", 1)[0]: l.split(":", 1)[1].strip() for l in open(os.path.join(HERE, "seed_notes.txt")) if ":" in l}
kf = [l.strip() for l in open(os.path.join(ROOT, "KNOWN_FINDINGS")) if re.match("(known|fixed): ", l)]
for p in meta.PROPS:
    s = open(os.path.join(ROOT, "rules", p["id"].lower() + ".py")).read()
    e = re.search(r'EXPLANATION = """(.*?)"""', s, re.S).group(1)
    fl = re.search(r"floors = (\{.*?\})", s, re.S)
    out += ["### %s %s" % (p["id"], p["title"]), "", p["statement"], "",
            "*Why tests cannot settle it:* " + p["tests"], "",
            "*Decided by* %s over %s (`rules/%s.py`)." % (p["technique"], p["quant"], p["id"].lower()), "", e.strip(), "",
            "*Limits:* " + p["note"], ""]
    if fl:
        out += ["*Floors (minimum obligations):* `%s`" % re.sub(r"\s+", " ", fl.group(1)), ""]
    for k in kf:
        m = re.match(r"(known|fixed): property=(\S+) (?:key=)?(\S+) (.*)", k)
        if m and m.group(2) == p["id"]:
            out.append("* %s %s: %s" % ({"fixed": "defect repaired in", "known": "known finding"}[m.group(1)], m.group(3), m.group(4)))
    for i, m in seeds.get(p["id"], []):
        out.append("* planted bug `%s` - %s; %s. %s" % (i, m["what_it_breaks"], "needs " + m["needs"], notes.get(i, "Caught by %s." % p["id"])))
    out.append("")
out += ["## 3. Not applicable", ""]
for i, t, st, ov, why, fl in meta.NA:
    out.append("* **%s %s** - %s" % (i, t, why))
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out) + "\n")
