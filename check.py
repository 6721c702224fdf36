#!/usr/bin/env python3
"""Runs one static check:  check.py <property-id> [--tier quick|thorough] [--no-known]
exit 0: the rule holds on every obligation found in /repo's current source (listed known findings are printed);
exit 1: VIOLATION line(s); exit 2: the analysis could not give a verdict."""
import importlib, json, os, re, sys, time, traceback
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sa"))
sys.path.insert(0, os.path.join(HERE, "rules"))
import facts
import engine
from engine import Budget, UNDECIDED


def known(pid):
    res = {}
    p = os.path.join(HERE, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid:
                res[m.group(2)] = m.group(3)
    return res


def main():
    a = sys.argv[1:]
    pid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    try:
        engine.THOROUGH = tier == "thorough"
        mod = importlib.import_module(pid.lower())
        db = facts.load(mod.GLOBS)
        res = mod.run(db, tier)
        if UNDECIDED and not res.violations:
            raise Budget("too many paths in " + ", ".join(sorted(set(UNDECIDED))[:5]))
        missing = [k for k, n in res.floors.items() if res.stats.get(k, 0) < n]
        if missing and not res.violations:
            raise facts.Broken("fewer instances than confirmed by hand: " + ", ".join("%s=%s (floor %s)" % (k, res.stats.get(k, 0), res.floors[k]) for k in missing))
    except facts.Broken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
        return 2
    except Budget as e:
        print("ANALYSIS-BROKEN property=%s budget: %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s internal error" % pid)
        return 2
    kn = known(pid) if "--no-known" not in a else {}
    new, old = [], []
    for v in res.violations:
        (old if v["id"] in kn else new).append(v)
    for v in old:
        print("KNOWN-FINDING: property=%s %s at %s: %s" % (pid, v["id"], v["where"], kn[v["id"]]))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    cov = {"explanation": mod.EXPLANATION.strip(), "translation_units": len(db.tus), "functions_in_database": len(db.funcs),
           "known_findings_reported": [v["id"] for v in old], "violations": [v["id"] for v in new], "samples": res.samples[:12]}
    cov.update(res.stats)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov, "wall_s": round(time.time() - t0, 2)}
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    if new:
        rp = os.path.join(HERE, "evidence", pid + ".replay.txt")
        with open(rp, "w") as f:
            for v in new:
                f.write("%s\n  at %s in %s\n  %s\n" % (v["id"], v["where"], v["fn"], v["msg"]))
                if v.get("path"):
                    f.write("  branch trail (last steps): %s\n" % " ".join(v["path"]))
                f.write("\n")
        for v in new[:20]:
            print("  %s: %s [%s] %s" % (v["where"], v["fn"], v["id"], v["msg"]))
            if v.get("path"):
                print("      path: " + " ".join(v["path"]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    print("OK property=%s %s wall=%.1fs" % (pid, " ".join("%s=%s" % (k, v) for k, v in res.stats.items() if isinstance(v, int)), time.time() - t0))
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
