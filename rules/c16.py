from lib import *
from forall import *
GLOBS = ["VirtualRobot/IK/*.cpp", "VirtualRobot/IK/*/*.cpp", "VirtualRobot/CollisionDetection/CDManager.cpp", "VirtualRobot/RobotNodeSet.cpp", "VirtualRobot/Robot.cpp", "VirtualRobot/Nodes/RobotNode.cpp"]
EXPLANATION = """Acceptance gates of the inverse kinematics solvers, path by path. (1) A solver (solve, solveIK, computeSteps, trySolve, sampling of grasps) reports success only when, after the last change of joint values on that path, the
tolerances were checked (of every hard constraint, every task) and held - or a nested solver did so - and, for solvers with a collision manager, the result was found collision free; values put back count when they were read while the tolerances held.
(2) The tolerance checks answer true only when the error was compared with the tolerance, in the right direction, as a magnitude, for every TCP, task or element. (3) Solving without update returns a solution only after success."""
V = "VirtualRobot::"
MOVES = {"setJointValues", "setJointValue", "setJointValueNoUpdate", "setJointsRandom", "setGlobalPose", "setConfig"}
SOLVERS = {"solve", "solveIK", "computeSteps", "trySolve", "_sampleSolution", "sampleSolution", "hardOptimizationFunction"}
ROOTS = (V + "IKSolver", V + "JacobiProvider", V + "ConstrainedIK", V + "HierarchicalIK", V + "GazeIK", V + "Constraint")


def fam(db, cls, roots=ROOTS):
    return cls in db.classes and any(r == cls or r in db.bases(cls) for r in roots)


def base(t):
    """stored value behind conversions"""
    while isinstance(t, tuple) and t:
        if t[0] in ("ucast", "icast") and len(t) > 1:
            t = t[1]
        else:
            break
    return t


ROBOT = ("robot",)


class Solve(ForAll):
    """user part: (collision state, lvalues holding accepted values, lvalue last written to the robot)"""
    refill = True
    depth = 4
    cap = 60

    def __init__(self, root):
        self.root = root
        self.sites = set()

    def initial_user(self):
        return ("?", frozenset(), None)

    def relevant(self, eng, usr, info):
        return usr in self.inline

    def merge_key(self, st):
        return self.ok(st), any(e[0] == "tol" for e in st.auto[0]), st.auto[2][:2], tuple((l[0], EXCUSED in l[3] or any(e[0] == "tol" for e in l[3])) for l in st.auto[1])

    def ok(self, st):
        return any(e[0] == "tol" and not mentions(e, lambda x: x[:1] in (("it",), ("next",))) or e[0] == "#empty" and names(e[1], "onstraints$|jacobies$|getOptimizationFunctions") for e in st.auto[0]) or any(e[0] == "tol" and not mentions(e, lambda x: x[:1] == ("hole",)) for l in st.auto[1] for e in l[3])

    def put(self, st, **k):
        col, good, last = st.auto[2]
        st.auto = st.auto[:2] + ((k.get("col", col), k.get("good", good), k.get("last", last)),)
        st.touch()

    def drop(self, st):
        evs, loops, u = st.auto
        evs = frozenset(e for e in evs if e[0] != "tol")
        loops = tuple((k, i, None if c is None else frozenset(e for e in c if e[0] != "tol"), frozenset(e for e in cur if e[0] != "tol")) for k, i, c, cur in loops)
        st.auto = (evs, loops, ("?",) + u[1:])
        st.touch()

    def src(self, c):
        """variables an argument's values come from"""
        s = set()
        for a in c.args:
            if a.lv and a.lv[0] == "v":
                s.add(a.lv)
            mentions(a.val, lambda x: len(x) >= 2 and x[0] in ("it", "init", "hv", "phi") and isinstance(x[-1], tuple) and x[-1][:1] == ("v",) and s.add(x[-1]))
            mentions(a.val, lambda x: len(x) == 3 and x[0] == "v" and s.add(x))
        def keep(l):
            f = self.root if not l[1] else self.db.funcs.get(l[1][-1][1], self.root)
            t = (f.vars.get(l[2]) or {}).get("t", "")
            return t.replace("const ", "") not in ("int", "unsigned int", "unsigned long", "size_t", "std::size_t", "long", "bool")
        return {l for l in s if keep(l)}

    def on_call(self, eng, st, c):
        if c.info is None:
            return None
        cls, n = c.info.get("cls") or "", c.name
        db = eng.db
        if n in MOVES and cls in db.classes and not (n == "setJointsRandom" and c.usr in db.funcs):
            eng.obligations += 1
            s = self.src(c)
            col, good, last = st.auto[2]
            if s and s <= good:
                self.ev(eng, st, "tol", (ROBOT,))
            elif s and last and s <= set(last):
                return "skip"
            else:
                self.drop(st)
                # the values stored now: accepted when the check holds
            self.put(st, last=tuple(sorted(s, key=str)) if s else None)
            return "skip"
        if n == "checkTolerances" and (c.usr != self.root.id):
            self.sites.add(c.site[1])
            eng.obligations += 1
            hit, miss = st.copy(), st
            own = c.recv and any(mentions(c.recv, lambda x: self.is_elem(l[0], x)) for l in st.auto[1])
            self.ev(eng, hit, "tol", (c.recv if own else ROBOT,))
            last = hit.auto[2][2]
            if last:
                self.put(hit, good=hit.auto[2][1] | frozenset(last))
            return [(hit, ("val", K1)), (miss, ("val", K0))]
        if n == "isInCollision":
            eng.obligations += 1
            hit, miss = st.copy(), st
            self.put(hit, col="hit")
            self.put(miss, col="free")
            return [(hit, ("val", K1)), (miss, ("val", K0))]
        if n in SOLVERS and fam(db, cls) and c.usr != self.root.id and c.usr not in self.inline:
            self.sites.add(c.site[1])
            eng.obligations += 1
            hit, miss = st.copy(), st
            self.drop(hit)
            self.drop(miss)
            self.ev(eng, hit, "tol", (ROBOT,))
            # values it was asked to evaluate are accepted with it
            vals = frozenset(self.src(c)) if n == "hardOptimizationFunction" else frozenset()
            self.put(hit, col="free" if fam(db, cls, (V + "AdvancedIKSolver",)) else "?", last=None, good=hit.auto[2][1] | vals)
            self.put(miss, last=None)
            if c.info.get("ret") == "bool":
                return [(hit, ("val", K1)), (miss, ("val", K0))]
            return [(hit, ("val", ("solution", c.site))), (miss, ("val", K0))]
        if n in ("solveStep", "setJointsRandom", "optimize") and (n == "optimize" or cls in db.classes):
            self.drop(st)
            gone = {a.lv for a in c.args if a.lv and a.lv[0] == "v"}
            col, good, last = st.auto[2]
            self.put(st, good=good - gone, last=None if last and gone & set(last) else last)
            return "opaque"
        if n == "getJointValues" and cls in db.classes:
            if not self.ok(st):
                return "opaque"
            col, good, last = st.auto[2]
            if c.args and c.args[0].lv and c.args[0].lv[0] == "v":
                eng.havoc(st, c.args[0].lv, c.site)
                self.put(st, good=good | {c.args[0].lv})
                return "skip"
            return [(st, ("val", ("accepted", c.site)))]
        if cls in db.classes and fam(db, cls, (V + "SceneObject", V + "RobotNodeSet", V + "Robot", V + "RobotConfig")):
            return None if n.startswith("get") or n.startswith("is") else "opaque"
        if c.usr in self.movers and not eng.can_inline(c.ctx, c.usr):
            self.drop(st)
            self.put(st, last=None)
        return None

    def on_decl(self, eng, st, ctx, lv, typ, init):
        self.on_assign(eng, st, ctx, lv, st.env.get(lv), None)

    def excuse(self, eng, st, ctx, key):
        # soft constraints do not count
        cur = lambda t: mentions(t, lambda x: self.is_elem(key, x))
        return any(t[0] == "t" and (p is False and cur(t) and names(t, "::hardConstraints$") or p is True and cur(t) and names(t, "::soft$")) for t, p in st.facts.items())

    def on_assign(self, eng, st, ctx, lv, val, node):
        col, good, last = st.auto[2]
        if not lv:
            return
        root = lv
        while root and root[0] in ("i", "f", "d") and len(root) > 1 and isinstance(root[1], tuple):
            root = root[1]
        if root[0] == "v":
            g = set(good)
            same = lambda l: val is not None and val[0] != "unk" and eng.read(st, l) == val
            if lv == root and (val and val[0] == "accepted" or any(same(l) for l in good) or last and len(last) == 1 and self.ok(st) and same(last[0])):
                g.add(root)
            else:
                g.discard(root)
                if last and root in last:
                    last = None
            self.put(st, good=frozenset(g), last=last)

    def merge_user(self, a, b):
        return (a[0] if a[0] == b[0] else "?", a[1] & b[1], a[2] if a[2] == b[2] else None)

    def purge_user(self, user, stale):
        return user


MAGNITUDE = {"norm", "fabs", "fabsf", "abs", "sqrt", "squaredNorm", "hypot", "getErrorPosition", "getErrorRotation", "getMeanErrorPosition", "getCurrentError", "getStabilityIndex"}
TOL = "olerance|maxPosError|maxError|minimumStability"


class Tol(ForAll):
    refill = True
    """one tolerance check; errors are opaque magnitudes"""
    depth = 2
    cap = 60

    def __init__(self, root):
        self.root = root
        self.lines = set()

    def merge_key(self, st):
        return frozenset(e[0] for e in st.auto[0]), tuple(frozenset(e[0] for e in l[3]) for l in st.auto[1])

    def on_call(self, eng, st, c):
        if c.name in ("checkTolerances", "isInCollision") and c.usr != self.root.id:
            eng.obligations += 1
            hit, miss = st.copy(), st
            self.ev(eng, hit if c.name == "checkTolerances" else miss, "tol", (c.recv or ROBOT,))
            return [(hit, ("val", K1)), (miss, ("val", K0))]
        if c.name in MAGNITUDE:
            return [(st, ("val", ("mag", c.name, c.recv, tuple(a.val for a in c.args))))]
        if c.info is not None and not c.name.startswith("operator") and eng.can_inline(c.ctx, c.usr) and c.info.get("cls") != self.root.cls:
            return "opaque"
        return None

    def pairs(self, st):
        """(small, big) of the comparisons known to hold"""
        for k, p in st.facts.items():
            if k[0] in ("<", "<=") and len(k) > 2 and p is not None:
                yield (k[1], k[2]) if p else (k[2], k[1])

    def within(self, eng, st, only=None):
        """tolerances that were found to bound a magnitude on this path"""
        for a, b in self.pairs(st):
            for e, t, up in ((a, b, True), (b, a, False)):
                if names(t, TOL) and not names(e, TOL) and names(t, "minimumStability") == (not up):
                    if only is None or mentions((a, b), only):
                        yield e, t

    def turn(self, eng, st, ctx, i):
        key = st.auto[1][i][0]
        for e, t in list(self.within(eng, st, lambda x: self.is_elem(key, x))):
            eng.obligations += 1
            if base(e)[0] == "mag":
                self.ev(eng, st, "within", (base(e)[1], e, t))
        ForAll.turn(self, eng, st, ctx, i)


def tolerances(db, res):
    """(2) the tolerance checks themselves"""
    sel = "::cartesianSelection$"
    exempt = {V + "PositionConstraint": {8}, V + "OrientationConstraint": {1, 2, 4, 7}}
    component = {1: "x", 2: "y", 4: "z"}
    for f in sorted((f for f in db.funcs.values() if f.name == "checkTolerances" and fam(db, f.cls) and f.cls != V + "Constraint"), key=lambda f: f.id):
        rule = Tol(f)
        eng = Engine(db, rule)
        n = 0
        fields = sorted(x.rsplit("::", 1)[-1] for x in (d["n"] for d in db.classes[f.cls]["fields"]) if re.search(TOL, x))
        # balance is decided by the stability index alone
        fields = [x for x in fields if x == "minimumStability"] or fields
        for kind, st, v in eng.run(f):
            if kind == "throw" or not v:
                continue
            n += 1
            t = truth(v[1])
            if v[1] == K0 or eng.decide(st, t) is False:
                continue
            s2 = eng.assume(st.copy(), t, True)
            if s2 is None:
                continue
            evs = s2.auto[0]
            # one element of a container does not speak for all of them
            if any(e[0] == "#empty" or e[0] == "tol" and not mentions(e, lambda x: x[:1] in (("it",), ("next",))) for e in evs):
                continue
            if not fields:
                res.add(f, f.where(), "nothing was checked", "the tolerances count as held on a path on which nothing was checked", s2.steps())
            chosen = {o[1] for k, p in s2.facts.items() if k[0] == "==" and p is True for x, o in ((k[1], k[2]), (k[2], k[1])) if o[0] == "k" and names(x, sel)}
            if chosen & exempt.get(f.cls, set()):
                continue
            where = list(rule.within(eng, s2)) + [(e[1][1], e[1][2]) for e in evs if e[0] == "within"]
            for fld in fields:
                hit = [e for e, t2 in where if names(t2, "::" + fld + "$")]
                if not hit:
                    res.add(f, f.where(), "not compared with " + fld, "the tolerances count as held on a path on which no error was found to be within '%s'" % fld, s2.steps())
                elif not any(base(e)[0] == "mag" for e in hit):
                    res.add(f, f.where(), "signed comparison with " + fld, "the value compared with '%s' is not the magnitude of an error: deviations in one direction always pass" % fld, s2.steps())
                elif f.cls == V + "PositionConstraint" and chosen & set(component):
                    want = component[(chosen & set(component)).pop()]
                    if not any(mentions(e, lambda x: x == ("m", want)) or base(e)[:2] == ("mag", "norm") for e in hit):
                        res.add(f, f.where(), "component " + want, "the selection of coordinate %s is decided by another coordinate" % want, s2.steps())
        res.take(eng)
        res.count("tolerance_checks")
        res.count("tolerance_exits", n)


class NoUpdate(Rule):
    """(3) solving without leaving a trace: (solver outcome, lvalues with the original values, original values back, lvalues with the solution)"""
    depth = 2

    def __init__(self, root):
        self.root = root

    def initial(self):
        return ("?", frozenset(), True, frozenset())

    def on_call(self, eng, st, c):
        if c.info is None:
            return None
        out, orig, back, sol = st.auto
        n, cls = c.name, c.info.get("cls") or ""

        def put(s, *a):
            s.auto = a
            s.touch()
        if n in SOLVERS and fam(eng.db, cls) and c.usr != self.root.id:
            hit, miss = st.copy(), st
            put(hit, "hit", orig, False, sol)
            put(miss, "miss", orig, False, sol)
            return [(hit, ("val", K1)), (miss, ("val", K0))]
        if n == "getJointValues" and cls in eng.db.classes:
            tag = "orig" if back else "sol" if out == "hit" else "none"
            if c.args and c.args[0].lv:
                l = c.args[0].lv
                eng.havoc(st, l, c.site)
                put(st, out, orig | {l} if tag == "orig" else orig - {l}, back, sol | {l} if tag == "sol" else sol - {l})
                return "skip"
            return [(st, ("val", (tag, c.site)))]
        if n in MOVES and cls in eng.db.classes:
            eng.obligations += 1
            vals = {a.lv for a in c.args if a.lv} | {("orig",) for a in c.args if mentions(a.val, lambda x: x[:1] == ("orig",))}
            put(st, out, orig | {("orig",)}, bool(vals & (orig | {("orig",)})), sol)
            return "skip"
        return None

    def on_assign(self, eng, st, ctx, lv, val, node):
        out, orig, back, sol = st.auto
        if lv and lv[0] == "v":
            t = val[0] if val else ""
            st.auto = (out, orig | {lv} if t == "orig" else orig - {lv}, back, sol | {lv} if t == "sol" else sol - {lv})
            st.touch()

    def on_decl(self, eng, st, ctx, lv, typ, init):
        self.on_assign(eng, st, ctx, lv, st.env.get(lv), None)


def noupdate(db, res):
    for f in sorted((f for f in db.funcs.values() if f.name == "solveNoRNSUpdate" and fam(db, f.cls)), key=lambda f: f.id):
        eng = Engine(db, NoUpdate(f))
        ret = {x[3] for x in all_nodes(f) if x[0] == "V"}
        good = False
        for kind, st, v in eng.run(f):
            if kind == "throw" or not v:
                continue
            out, orig, back, sol = st.auto
            l = v[1] if v[0] == "lvret" else None
            val = v[1] if v[0] == "valret" else eng.read(st, l) if l else None
            has = l in sol if l else val is not None and val[0] in ("sol", "hv")
            if val is not None and mentions(val, lambda x: x[:1] == ("orig",)) or l in orig or val is not None and val[0] == "hv" and val[-1] in orig:
                res.add(f, f.where(), "returns other values", "the joint values returned are not those of a solution", st.steps())
            if has and out != "hit":
                res.add(f, f.where(), "values without success", "joint values are returned although solving failed", st.steps())
            good |= has and out == "hit"
            if not back:
                res.add(f, f.where(), "robot left changed", "the joint values from before are not restored", st.steps())
        res.take(eng)
        res.count("noupdate")
        res.count("noupdate_success", int(good))


def run(db, tier):
    res = Result()
    movers = reach(db, callee_in(db, MOVES))
    roots = sorted((f for f in db.funcs.values() if f.cls and fam(db, f.cls) and f.name in SOLVERS and f.info.get("ret") != "void"), key=lambda f: f.id)
    for f in roots:
        rule = Solve(f)
        rule.movers, rule.db = movers, db
        rule.inline = {g.id for g in db.funcs.values() if g.cls == f.cls and g.id in movers and g.name not in SOLVERS}
        eng = Engine(db, rule)
        n = 0
        for kind, st, v in eng.run(f):
            if kind != "ret" or not v or v[0] not in ("valret", "val"):
                continue
            n += 1
            if eng.decide(st, truth(v[1])) is False or v[1] == K0:
                continue
            if not rule.ok(st):
                res.add(f, f.where(), "success without tolerance check", "success is reported although the tolerances were not found to hold after the last change of joint values", st.steps())
            elif fam(db, f.cls, (V + "AdvancedIKSolver",)):
                cdm = eng.read(st, ("f", ("d", ("this",)), V + "AdvancedIKSolver::cdm"))
                if st.auto[2][0] != "free" and eng.decide(st, truth(cdm)) is not False:
                    res.add(f, f.where(), "success without collision check", "success is reported although the result was not found to be collision free", st.steps())
        res.take(eng)
        res.count("solvers")
        res.count("exits_checked", n)
        res.count("check_sites", len(rule.sites))
    tolerances(db, res)
    tolerances(db, res)
    noupdate(db, res)
    res.floors = {"solvers": 10, "exits_checked": 60, "check_sites": 12, "tolerance_checks": 6, "tolerance_exits": 20, "noupdate": 1}
    return res
