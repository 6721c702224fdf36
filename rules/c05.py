from lib import *
from forall import *
GLOBS = ["VirtualRobot/*.cpp", "VirtualRobot/Nodes/*.cpp", "VirtualRobot/XML/*.cpp", "VirtualRobot/IK/*.cpp", "VirtualRobot/Workspace/*.cpp", "SimDynamics/DynamicsEngine/*.cpp",
         "SimDynamics/DynamicsEngine/BulletEngine/*.cpp"]
EXPLANATION = """Joint limits. Every assignment to the joint value of a robot node anywhere in the code is followed along all paths to the exits of the function that makes it; on every exit the value is proved (from the comparisons made on the
path) to lie within the node's limits, or the node is a limitless joint and the value was only moved by whole turns and not left below the lower limit, or limit enforcement was switched off for the node. The clamping and checking functions
of nodes and node sets are proved against the same bounds, for every element of a set. Exempt are the constructor and the copy of the value of another node."""
R = "VirtualRobot::RobotNode::"
JV, LO, HI, LL, EN = (R + x for x in ("jointValue", "jointLimitLo", "jointLimitHi", "limitless", "enforceJointLimits"))
PI2 = (6.28, 6.284)


def fld(base, q):
    return ("f", base, q)


def within(eng, st, v, lo, hi):
    """None if proved, else the bound that is not"""
    def low(v):
        return v in (lo, hi) or v[0] == "min" and all(map(low, v[1:])) or v[0] == "max" and any(map(low, v[1:])) or eng.decide(st, rel("<", v, lo, "f")) is False or eng.decide(st, rel("<=", lo, v, "f")) is True

    def up(v):
        return v in (lo, hi) or v[0] == "max" and all(map(up, v[1:])) or v[0] == "min" and any(map(up, v[1:])) or eng.decide(st, rel("<", hi, v, "f")) is False or eng.decide(st, rel("<=", v, hi, "f")) is True
    return "lower" if not low(v) else "upper" if not up(v) else None


class Writes(Rule):
    depth = 3
    edges = True

    def initial(self):
        return frozenset()

    def bad(self, eng, st, base):
        v = eng.read(st, fld(base, JV))
        lo, hi = eng.read(st, fld(base, LO)), eng.read(st, fld(base, HI))
        if mentions(v, lambda x: len(x) == 3 and x[0] == "f" and x[2] == JV and x[1] != base):
            return None  # value of another node
        if eng.decide(st, truth(eng.read(st, fld(base, LL)))) is True:
            return "lower" if within(eng, st, v, lo, hi) == "lower" else None
        if eng.decide(st, truth(eng.read(st, fld(base, EN)))) is False:
            return None
        return within(eng, st, v, lo, hi)

    def settle(self, eng, st):
        n = frozenset(b for b in st.auto if self.bad(eng, st, b))
        if n != st.auto:
            st = st.copy()
            st.auto = n
            st.touch()
        return st

    def on_assign(self, eng, st, ctx, lv, val, node):
        if lv[0] == "f" and lv[2] == JV:
            eng.obligations += 1
            st.auto = st.auto | {lv[1]}
            st.touch()

    def on_edge(self, eng, st, ctx, li, src, b):
        return self.settle(eng, st) if st.auto else st


EXEMPT = {R + "RobotNode", R + "updateVisualizationPose"}


def run(db, tier):
    res = Result()
    # A: every assignment
    wr = []
    for f in sorted(db.funcs.values(), key=lambda f: (f.file, f.line)):
        hit = False
        for e in all_nodes(f):
            if e[0] == "A" and strip(e[4]) and strip(e[4])[0] == "M" and strip(e[4])[4] == JV or e[0] == "U" and e[3] in ("++", "--", "p++", "p--") and strip(e[4]) and strip(e[4])[0] == "M" and strip(e[4])[4] == JV:
                hit = True
        if hit:
            wr.append(f)
    for f in wr:
        if f.q in EXEMPT:
            res.count("exempt_writers")
            continue
        eng = Engine(db, Writes())
        exits = eng.run(f)
        res.count("writers")
        res.count("assignments", eng.obligations)
        res.sample({"writer": f.sig(), "exits": len(exits)})
        for k, st, v in exits:
            if k != "ret":
                continue
            res.count("exits_checked")
            for b in st.auto:
                w = eng.rule.bad(eng, st, b)
                if w is None:
                    continue
                nojoint = [x for x, p in st.facts.items() if p is False and names(x, r"isRotationalJoint|isTranslationalJoint")]
                if len(nojoint) >= 2:
                    continue
                res.add(f, f.where(), "unclamped %s" % w, "the joint value may be left beyond its %s limit" % w, st.steps())
    # B: node level clamping and checking
    for f in db.find(R + "respectJointLimits"):
        eng = Engine(db, Rule())
        for k, st, v in eng.run(f):
            if k != "ret":
                continue
            res.count("exits_checked")
            this = ("d", ("this",))
            val = eng.read(st, ("d", ("param", f.params[0])))
            w = within(eng, st, val, eng.read(st, fld(this, LO)), eng.read(st, fld(this, HI)))
            if w:
                res.add(f, f.where(), "unclamped %s" % w, "the value may be left beyond its %s limit" % w, st.steps())
        res.count("clamping_functions")
    for f in db.find(R + "checkJointLimits"):
        eng = Engine(db, Rule())
        for k, st, v in eng.run(f):
            if k != "ret":
                continue
            res.count("exits_checked")
            this = ("d", ("this",))
            x = ("param", f.params[0])
            ok = eng.decide(st, truth(v[1] if v[0] == "valret" else eng.read(st, v[1])))
            lo, hi = eng.read(st, fld(this, LO)), eng.read(st, fld(this, HI))
            w = within(eng, st, x, lo, hi)
            if ok is not False and w:
                res.add(f, f.where(), "accepts beyond %s" % w, "a value beyond the %s limit may be accepted" % w, st.steps())
            if ok is not True and not (eng.decide(st, rel("<", x, lo, "f")) is True or eng.decide(st, rel("<", hi, x, "f")) is True):
                res.add(f, f.where(), "rejects inside", "a value within the limits may be rejected", st.steps())
        res.count("checking_functions")
    # C: node sets: every element with the value of the same index
    for n, op in (("respectJointLimits", "respectJointLimits"), ("checkJointLimits", "checkJointLimits")):
        for f in db.find("VirtualRobot::RobotNodeSet::" + n):
            eng = Engine(db, Each(op, n == "checkJointLimits"))
            exits = eng.run(f)
            res.count("set_functions")
            for k, st, v in exits:
                if k != "ret":
                    continue
                res.count("exits_checked")
                ok = eng.decide(st, truth(v[1] if v[0] == "valret" else eng.read(st, v[1]))) if v else None
                if n == "checkJointLimits":
                    if st.auto[2] and ok is not False:
                        res.add(f, f.where(), "violation lost", "a joint beyond its limits may be reported as valid", st.steps())
                        continue
                    if st.auto[2]:
                        continue
                    if ok is not True:
                        res.add(f, f.where(), "violation invented", "valid joint values may be reported as invalid", st.steps())
                if not aligned(st, f):
                    res.add(f, f.where(), "not every joint", "not every joint is compared with the value of its own index", st.steps())
    # D: the writers that take several values give every node its own value
    for f in sorted(db.funcs.values(), key=lambda f: (f.file, f.line)):
        if not f.q.endswith("::setJointValues") or not any(db.fns.get(c[3]) and db.fns[c[3]]["q"] == R + "setJointValueNoUpdate" for c in calls(f)):
            continue
        eng = Engine(db, Each("setJointValueNoUpdate", False))
        exits = eng.run(f)
        res.count("set_functions")
        for k, st, v in exits:
            if k != "ret":
                continue
            res.count("exits_checked")
            val = eng.decide(st, truth(v[1] if v[0] == "valret" else eng.read(st, v[1]))) if v else None
            if f.info["ret"] == "bool" and val is False:
                continue
            if not aligned(st, f):
                res.add(f, f.where(), "not every joint", "not every joint is given the value that belongs to it", st.steps())
    # E: limits read from a description are both set
    for f in db.find("VirtualRobot::RobotIO::processLimitsNode"):
        lim = {("d", ("param", f.params[i])): w for i, w in ((1, "lower"), (2, "upper"))}
        eng = Engine(db, Given(lim))
        for k, st, v in eng.run(f, auto=()):
            if k != "ret":
                continue
            res.count("exits_checked")
            for l, what in lim.items():
                if what not in st.auto:
                    res.add(f, f.where(), "%s limit not set" % what, "a path leaves the %s joint limit unset" % what, st.steps())
        res.count("limit_readers")
    res.floors = {"limit_readers": 1, "writers": 3, "assignments": 4, "clamping_functions": 1, "checking_functions": 1, "set_functions": 6}
    return res


class Given(Rule):
    """which of the limits have been given a value that does not stem from their previous content"""

    def __init__(self, lim):
        self.lim = lim

    def on_assign(self, eng, st, ctx, lv, val, node):
        w = self.lim.get(lv)
        if w and w not in st.auto and not mentions(val, lambda t: t == ("init", lv)):
            st.auto = tuple(sorted(st.auto + (w,)))
            st.touch()


class Each(ForAll):
    depth = 3

    def __init__(self, op, fork):
        self.op, self.fork = op, fork

    def initial_user(self):
        return False

    def on_call(self, eng, st, c):
        if c.info is None:
            return None
        if c.name in ("updatePose", "applyJointValues", "applyJointValuesNoLock"):
            return "skip"
        if c.name in ("getRobotNode", "hasConfig", "hasRobotNode"):
            return "opaque"
        if c.name == self.op and c.recv is not None and c.args:
            a = c.args[0]
            self.ev(eng, st, "op", (unhv(c.recv), unhv(a.lv if a.lv is not None and self.op == "respectJointLimits" else a.val)))
            if self.fork:
                bad = st.copy()
                bad.auto = bad.auto[:2] + (True,)
                bad.touch()
                return [(bad, ("val", K0)), (st, ("val", K1))]
            return "skip"
        return None

    def excuse(self, eng, st, ctx, key):
        # a joint the other side does not know
        for f, p in st.facts.items():
            if p is False and f[0] == "t" and mentions(f, lambda x: self.is_elem(key, x)) and names(f, r"getRobotNode#|hasConfig#"):
                return True
        return False


def unhv(t):
    if not isinstance(t, tuple):
        return t
    if len(t) == 3 and t[0] == "hv" and isinstance(t[2], tuple):
        return ("init", unhv(t[2]))
    if t[:1] == ("call",) and len(t) > 4:
        t = t[:4]
    return tuple(unhv(x) for x in t)


def aligned(st, f):
    for e in st.auto[0]:
        if e[0] == "#empty":
            return True
        if e[0] != "op":
            continue
        a, b = e[1]
        x = alls(a)
        y = alls(b)
        if len(x) == 1 and x == y and not shifted(a) and not shifted(b):
            return True
    return False


def alls(t):
    r = set()
    w = [t]
    while w:
        x = w.pop()
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == "all":
                r.add(x)
                continue
            w.extend(x)
    return r


def shifted(t):
    """the running position is used other than as index or iterator"""
    if not isinstance(t, tuple):
        return False
    if any(isinstance(x, tuple) and len(x) == 2 and x[0] == "all" for x in t) and not (t[0] == "d" or t[0] == "elt" and t[2][0] == "all" or t[0] == "i" and t[2][0] == "all"):
        return True
    return any(shifted(x) for x in t if not (isinstance(x, tuple) and len(x) == 2 and x[0] == "all"))
