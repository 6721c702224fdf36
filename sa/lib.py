"""shared pieces of the rules"""
import os
import re
import sys
from facts import Broken, all_nodes, walk, strip, kids, calls, top_elems
from engine import *


ALL = ["VirtualRobot/*.cpp", "VirtualRobot/*/*.cpp", "VirtualRobot/*/*/*.cpp", "MotionPlanning/*/*.cpp", "MotionPlanning/*/*/*.cpp", "GraspPlanning/*.cpp",
       "GraspPlanning/*/*.cpp", "SimDynamics/*.cpp", "SimDynamics/*/*.cpp", "SimDynamics/*/*/*.cpp"]


class Result:
    def __init__(self):
        self.violations, self.stats, self.floors, self.samples = [], {}, {}, []

    def add(self, fn, where, key, msg, path=None):
        q = fn.sig() if hasattr(fn, "sig") else str(fn)
        vid = re.sub(r"\s+", "_", "%s|%s" % (q, key))
        if not any(v["id"] == vid for v in self.violations):
            self.violations.append({"id": vid, "where": where, "fn": q, "key": key, "msg": msg, "path": path or []})

    def take(self, eng):
        for (rel, q, key), r in eng.reports.items():
            vid = re.sub(r"\s+", "_", "%s|%s" % (r["fn"], key))
            if not any(v["id"] == vid for v in self.violations):
                self.violations.append({"id": vid, "where": r["where"], "fn": r["fn"], "key": key, "msg": r["msg"], "path": r["path"]})

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)


def is_public(f):
    return f.info.get("acc", "public") == "public"


def leaf(t):
    """innermost class name"""
    return t.split("<")[0].rsplit("::", 1)[-1]


def reach(db, pred):
    """usrs of the functions from which (through resolved calls, overriders and lambdas) a function satisfying pred is reachable,
    the satisfying functions included; declarations without body count through their overriders"""
    e = Engine(db, Rule())
    e.summ("")
    rev = db.__dict__["_rev"]
    w = [u for u, f in db.funcs.items() if pred(f)]
    seen = set(w)
    while w:
        x = w.pop()
        for u in rev.get(x, ()):
            if u not in seen:
                seen.add(u)
                w.append(u)
    for t in list(db.fns):
        if t not in seen and any(o in seen for o in db.all_overriders(t)):
            seen.add(t)
    return seen


def callee_in(db, names, classes=None):
    """predicate: the function body calls a function with one of these unqualified names (of one of these classes)"""
    def pred(f):
        for x in calls(f):
            i = db.fns.get(x[3])
            if i and i["q"].rsplit("::", 1)[-1] in names and (classes is None or (i.get("cls") or "") in classes):
                return True
        return False
    return pred


def names(t, rx):
    """some name inside the term matches"""
    rx = re.compile(rx)
    w = [t]
    while w:
        x = w.pop()
        if isinstance(x, str):
            if rx.search(x):
                return True
        elif isinstance(x, (tuple, frozenset)):
            w.extend(x)
    return False


def pmap(items, work, jobs=8, chunk=6):
    """runs work(item, Result) for all items in forked workers and merges the results in item order"""
    import multiprocessing as mp
    import engine as _e
    global _PM  # inherited by the forked workers
    _PM = (items, work)
    order = sorted(range(len(items)), key=lambda i: (i * 7919) % 10007)
    parts = [order[i:i + chunk] for i in range(0, len(order), chunk)]
    with mp.get_context("fork").Pool(min(jobs, os.cpu_count() or 1)) as pool:
        got = [x for p in pool.imap_unordered(_pm_part, parts) for x in p]
    out = Result()
    for i, r, und in sorted(got, key=lambda x: x[0]):
        for v in r.violations:
            if not any(w["id"] == v["id"] for w in out.violations):
                out.violations.append(v)
        for k, n in r.stats.items():
            out.count(k, n)
        for s in r.samples:
            out.sample(s)
        _e.UNDECIDED.extend(und)
    return out


def _pm_part(idx):
    import engine as _e
    sys.setrecursionlimit(20000)
    res = []
    for i in idx:
        del _e.UNDECIDED[:]
        r = Result()
        _PM[1](_PM[0][i], r)
        res.append((i, r, list(_e.UNDECIDED)))
    return res
