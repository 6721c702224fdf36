from lib import *
from forall import *
GLOBS = ["MotionPlanning/*/*.cpp", "VirtualRobot/Trajectory.cpp"]
EXPLANATION = """Validity gates of the motion planners, decided path by path with the elementary checks (isPathValid, isConfigValid, isCollisionFree, isInBoundary, isSatisfyingConstraints, constraint and collision checks) forked into
both outcomes. (1) isConfigValid, isSatisfyingConstraints, isCollisionFree and isPathValid answer true only on paths where every requested part was checked, for the given configuration, with the right outcome; checkSolution and checkTree only after
every segment. (2) createPathUntilInvalid adds only configurations found valid and reports completeness only when the goal was added. (3) Planners append a path or node to a search tree only after the very same connection was found valid;
root nodes only after the configuration was accepted. (4) Start and goal are accepted only when collision free and inside the boundaries; a planner succeeds only when it is initialized. (5) Path post-processing removes or replaces points only
between configurations whose direct connection was found valid."""
S = "Saba::"
CS = S + "CSpace"
CHECKS = {"isPathValid": "pv", "isConfigValid": "cv", "isCollisionFree": "cf", "isInBoundary": "ib", "isSatisfyingConstraints": "sc"}


def fam(db, cls, root):
    return cls in db.classes and root in db.bases(cls)


def norm(t):
    """index arithmetic without conversions"""
    if not isinstance(t, tuple):
        return t
    if len(t) == 2 and t[0] == "ucast":
        return norm(t[1])
    t = tuple(norm(x) for x in t)
    if len(t) == 3 and t[0] == "usub":
        return ladd(t[1], t[2], -1)
    if len(t) == 3 and t[0] == "lin" and isinstance(t[2], tuple):
        r = ("k", t[1])
        for x, k in t[2]:
            if not isinstance(k, int) or abs(k) > 1:
                return t
            r = ladd(r, x, k)
        return r
    return t


class Gate(ForAll):
    """user part: frozenset of established facts (kind, values...)"""
    depth = 4
    cap = 40

    def __init__(self, own=(), inline=()):
        self.own, self.inline = set(own), set(inline)
        self.sites = set()

    def initial_user(self):
        return frozenset()

    def relevant(self, eng, usr, info):
        return usr in self.inline

    def know(self, st, *fact):
        st.auto = st.auto[:2] + (st.auto[2] | {fact},)
        st.touch()

    def purge_user(self, user, stale):
        return frozenset(e for e in user if not mentions(e, stale))

    def fork(self, eng, st, c, fact, label=None):
        eng.obligations += 1
        hit, miss = st.copy(), st
        self.know(hit, *fact)
        if label:
            self.ev(eng, hit, label, fact[1:])
        self.know(miss, "not " + fact[0], *fact[1:])
        return [(hit, ("val", K1)), (miss, ("val", K0))]

    def on_call(self, eng, st, c):
        if c.info is None:
            return None
        cls = c.info.get("cls") or ""
        n = c.name
        if fam(eng.db, cls, CS):
            if n in CHECKS and not (n in self.own and n != "isPathValid"):
                a = tuple(x.val for x in c.args)
                if n == "isConfigValid":
                    fl = a[1:4]
                    self.know(st, "asked", a[0], fl)
                    full = all(x == K1 for x in fl[1:])
                    return self.fork(eng, st, c, ("cv" if full else "cv?", a[0]))
                return self.fork(eng, st, c, (CHECKS[n],) + a[:2], CHECKS[n])
            if n == "calcDist" or n == "calcDist2":
                return [(st, ("val", ("dist", n) + tuple(x.val for x in c.args[:2])))]
            if n in ("createPathUntilInvalid", "createPath"):
                if n == "createPathUntilInvalid" and len(c.args) == 3 and c.args[2].lv:
                    eng.havoc(st, c.args[2].lv, c.site)
                return [(st, ("val", ("path", n, c.args[0].val, c.args[1].val, c.site)))]
            if n in ("interpolate", "generateNewConfig"):
                return "opaque"
        if n == "isInCollision" and fam(eng.db, cls, "VirtualRobot::CDManager"):
            return self.fork(eng, st, c, ("col", c.recv))
        if n == "isValid" and fam(eng.db, cls, S + "ConfigurationConstraint"):
            return self.fork(eng, st, c, ("ok", unhv(c.recv), c.args[0].val), "ok")
        if cls == S + "CSpaceTree" and n in ("getNearestNeighbor", "getNode"):
            return [(st, ("val", ("node", n) + tuple(x.val for x in c.args)))]
        if n == "setJointValues":
            self.know(st, "set", tuple(x.val for x in c.args))
            return "skip"
        if n == "getPoint" and cls == "VirtualRobot::Trajectory":
            return [(st, ("val", ("pt", unhv(c.recv), norm(c.args[0].val))))]
        return self.site(eng, st, c, cls, n)

    def site(self, eng, st, c, cls, n):
        return None


def unhv(t):
    if not isinstance(t, tuple):
        return t
    if len(t) == 3 and t[0] == "hv" and isinstance(t[2], tuple):
        return ("init", unhv(t[2]))
    return tuple(unhv(x) for x in t)


class Grow(Gate):
    """tree growth in planners"""

    def site(self, eng, st, c, cls, n):
        if cls == S + "CSpaceTree":
            k = st.auto[2]
            if n == "appendPath":
                self.sites.add(c.site[1])
                eng.obligations += 1
                start, what = c.args[0].val, c.args[1].val
                if "CSpacePath" in c.info["p"][1]:
                    ok = what[0] == "path" and what[1] == "createPathUntilInvalid"
                else:
                    node = ("f", ("d", start), S + "CSpaceNode::configuration")
                    have = eng.read(st, node)
                    ok = any(f[0] == "pv" and f[2] == what and f[1] in (have, ("init", node)) for f in k)
                if not ok:
                    eng.report(st, c.ctx, c.line, "path appended unchecked", "a connection is added to the search tree that was not found valid")
                return [(st, ("val", K1)), (st.copy(), ("val", K0))]
            if n == "appendNode":
                self.sites.add(c.site[1])
                eng.obligations += 1
                v = c.args[0].val
                ok = ("cv", v) in k or ("cf", v) in k and ("ib", v) in k
                if not ok and eng.decide(st, truth(eng.read(st, ("f", ("d", ("this",)), S + "MotionPlanner::cspace")))) is not False:
                    eng.report(st, c.ctx, c.line, "root added unchecked", "a root configuration is added to the search tree that was not found valid")
                eng.havoc_call(st, c) if hasattr(eng, "havoc_call") else None
                return [(st, ("val", ("node", c.site)))]
            if n == "appendPathUntilCollision":
                self.sites.add(c.site[1])
                eng.obligations += 1
                return "opaque"
        return None


def enums(db, rx):
    """values of the enumerators whose name matches"""
    d = {}
    for f in db.funcs.values():
        if f.cls and f.cls.startswith(S):
            for x in all_nodes(f):
                if x[0] == "E" and re.search(rx, x[3]):
                    d[x[3].rsplit("::", 1)[-1]] = x[4]
    return d


class Extend(Grow):
    """tree extensions: what a success rests on"""

    def site(self, eng, st, c, cls, n):
        if cls == S + "CSpaceTree" and n in ("appendPath", "appendPathUntilCollision"):
            v = c.args[1].val
            hit, miss = st.copy(), st
            if n == "appendPathUntilCollision" or "CSpacePath" not in c.info["p"][1]:
                self.know(hit, "grown", v)
            for x in (hit, miss):
                if len(c.args) > 2 and c.args[2].val and c.args[2].val[0] == "a":
                    eng.havoc(x, c.args[2].val[1], c.site)
            return [(hit, ("val", K1)), (miss, ("val", K0))]
        if "ExtensionResult" in (c.info.get("ret") or ""):
            return self.outcome(eng, st, c)
        return None

    def outcome(self, eng, st, c):
        """an extension towards a configuration succeeds or not"""
        if not c.args:
            return None
        eng.obligations += 1
        v = c.args[0].val
        out = []
        for name in sorted(self.results):
            s = st.copy()
            val = ("k", self.results[name])
            if name == "eSuccess":
                self.know(s, "grown", v)
                if ("rand", v) not in s.auto[2]:
                    self.know(s, "reached")
            for a in c.args[1:]:
                if a.lv:
                    eng.havoc(s, a.lv, c.site)
            out.append((s, ("val", val)))
        return out


class Plan(Extend):
    """success of a planning run"""
    outcomes, flags = set(), set()
    cap = 200

    def merge_key(self, st):
        reached = self.reached(st)
        return (frozenset(f[0] for f in st.auto[2] if f[0] in ("init", "made")), reached, frozenset((l, st.env.get(l)) for l in self.outcomes if not reached and (st.env.get(l) or "?")[0] == "k"),
                frozenset((l, st.env.get(l)) for l in self.flags if not reached and (st.env.get(l) or "?")[0] == "k"))

    def site(self, eng, st, c, cls, n):
        if n == "isInitialized":
            return self.fork(eng, st, c, ("init",))
        if n == "createSolution":
            self.know(st, "made")
            return None
        if n == "getRandomConfig" and c.args and c.args[0].lv:
            eng.havoc(st, c.args[0].lv, c.site)
            self.know(st, "rand", eng.read(st, c.args[0].lv))
            return "skip"
        if "ExtensionResult" in (c.info.get("ret") or ""):
            return self.outcome(eng, st, c)
        return None

    def on_assign(self, eng, st, ctx, lv, val, node):
        x = strip(node[5]) if node and node[0] == "A" else None
        if x and x[0] == "C" and lv and lv[0] == "v" and "ExtensionResult" in ((eng.db.fns.get(x[3]) or {}).get("ret") or ""):
            self.outcomes.add(lv)
        if lv and lv[0] == "v" and val in (K0, K1) and ctx.path == () and ctx.fn.vars.get(lv[2], {}).get("t") == "bool":
            self.flags.add(lv)
        if lv and lv[0] == "f" and str(lv[2]).endswith("::found") and val == K1:
            self.success(eng, st, ctx.fn.where(), ctx)

    def reached(self, st):
        return ("reached",) in st.auto[2]

    def success(self, eng, st, where, ctx):
        eng.obligations += 1
        if not self.reached(st):
            eng.report(st, ctx, 0, "found without connection", "a solution is reported although no extension reached a configuration that is not random")


class Accept(Gate):
    """start and goal acceptance"""

    def on_assign(self, eng, st, ctx, lv, val, node):
        if lv and lv[0] == "f" and lv[2] in (S + "MotionPlanner::startValid", S + "MotionPlanner::goalValid") and val == K1:
            eng.obligations += 1
            which = "startConfig" if lv[2].endswith("startValid") else "goalConfig"
            v = eng.read(st, ("f", lv[1], S + "MotionPlanner::" + which))
            k = st.auto[2]
            cs = eng.read(st, ("f", lv[1], S + "MotionPlanner::cspace"))
            if eng.decide(st, truth(cs)) is False:
                return
            if not (("cv", v) in k or ("cf", v) in k and ("ib", v) in k):
                eng.report(st, ctx, node[2] if node else 0, which + " accepted unchecked", "%s is accepted without being collision free and inside the boundaries" % which)


class Fill(Gate):
    """createPathUntilInvalid"""

    def site(self, eng, st, c, cls, n):
        if n == "addPoint":
            eng.obligations += 1
            v = c.args[0].val
            if v != self.start and not any(f[0] == "cv" and f[1] == v for f in st.auto[2]):
                eng.report(st, c.ctx, c.line, "point added unchecked", "a configuration is added to the path that was not found valid")
            self.know(st, "added", v)
            return "skip"
        return None


class Post(Gate):
    """post-processing of paths"""

    def site(self, eng, st, c, cls, n):
        k = st.auto[2]
        if n == "erasePosition" and c.recv and unhv(c.recv) == unhv(("d", eng.read(st, ("f", ("d", ("this",)), S + "PathProcessor::optimizedPath")))):
            self.sites.add(c.site[1])
            eng.obligations += 1
            i = norm(c.args[0].val)
            ok = any(f[0] == "pv" and f[1][0] == "pt" and f[2][0] == "pt" and f[1][1] == f[2][1] == unhv(c.recv) and {f[1][2], f[2][2]} == {ladd(i, K1, -1), ladd(i, K1)} for f in k)
            if not ok:
                eng.report(st, c.ctx, c.line, "point removed unchecked", "a point is removed although the connection of its neighbours was not found valid")
            st.auto = st.auto[:2] + (frozenset(),)
            st.touch()
            return "skip"
        if n == "doShortcut":
            self.sites.add(c.site[1])
            eng.obligations += 1
            a, b = norm(c.args[0].val), norm(c.args[1].val)
            ok = any(f[0] == "pv" and f[1][0] == "pt" and f[2][0] == "pt" and f[1][1] == f[2][1] and {f[1][2], f[2][2]} == {a, b} for f in k)
            if not ok:
                eng.report(st, c.ctx, c.line, "shortcut unchecked", "a shortcut is applied that was not found valid")
            st.auto = st.auto[:2] + (frozenset(),)
            st.touch()
            return "skip"
        return None


def rets(eng, rule, f, res, **kw):
    for k, st, v in eng.run(f, **kw):
        if k == "ret":
            res.count("exits_checked")
            yield st, v


def maybe_true(eng, st, v):
    return v and v[0] == "valret" and eng.decide(st, truth(v[1])) is not False


def run(db, tier):
    res = Result()
    this = ("d", ("this",))
    over = lambda n: sorted((f for f in db.funcs.values() if f.name == n and f.cls and fam(db, f.cls, CS)), key=lambda f: f.id)

    # (1) what a positive answer rests on
    for f in over("isConfigValid"):
        rule = Gate({"isConfigValid"})
        eng = Engine(db, rule)
        P = [("init", ("d", ("param", f.params[0])))]
        for st, v in rets(eng, rule, f, res):
            if not maybe_true(eng, st, v):
                continue
            for i, (fact, what) in enumerate((("ib", "boundaries"), ("cf", "collisions"), ("sc", "constraints"))):
                if eng.decide(st, truth(("param", f.params[i + 1]))) is False:
                    continue
                if not any(x[0] == fact and mentions(x[1:], lambda t: t == ("param", f.params[0])) for x in st.auto[2]):
                    res.add(f, f.where(), what + " not checked", "a configuration is called valid although %s were asked for and not found to be satisfied" % what, st.steps())
        res.take(eng)
        res.count("check_functions")
    for f in over("isSatisfyingConstraints"):
        rule = Gate({"isSatisfyingConstraints"})
        eng = Engine(db, rule)
        for st, v in rets(eng, rule, f, res):
            con = lambda t: mentions(t, lambda x: len(x) == 3 and x[0] == "f" and x[2] == CS + "::constraints")
            if maybe_true(eng, st, v):
                if any(x[0] == "not ok" for x in st.auto[2]) or not any(e[0] in ("ok", "#empty") and con(e[1]) for e in rule.events(st)):
                    res.add(f, f.where(), "not every constraint", "true although not every constraint was found to hold", st.steps())
            if v and v[0] == "valret" and eng.decide(st, truth(v[1])) is not True and not any(x[0] == "not ok" for x in st.auto[2]):
                res.add(f, f.where(), "no constraint violated", "false although no constraint was found to be violated", st.steps())
        res.take(eng)
        res.count("check_functions")
    for f in over("isCollisionFree"):
        rule = Gate({"isCollisionFree"})
        eng = Engine(db, rule)
        for st, v in rets(eng, rule, f, res):
            k = st.auto[2]
            put = any(x[0] == "set" and mentions(x, lambda t: t == ("param", f.params[0])) and mentions(x, lambda t: len(t) == 3 and t[0] == "f" and str(t[2]).endswith("CSpace::robotNodes")) for x in k)
            if not put:
                res.add(f, f.where(), "configuration not set", "the collision check does not see the configuration it is asked about", st.steps())
            if maybe_true(eng, st, v) and not any(x[0] == "not col" for x in k):
                res.add(f, f.where(), "collision ignored", "collision free although the collision check did not say so", st.steps())
            if v and v[0] == "valret" and eng.decide(st, truth(v[1])) is not True and not any(x[0] == "col" for x in k):
                res.add(f, f.where(), "no collision found", "not collision free although no collision was found", st.steps())
        res.take(eng)
        res.count("check_functions")
    for f in over("isPathValid"):
        rule = Gate()
        eng = Engine(db, rule)
        a, b = [("param", p) for p in f.params]
        has = lambda x, t: mentions(x, lambda y: y == t)
        sampled = fam(db, f.cls, CS + "Sampled")
        for st, v in rets(eng, rule, f, res):
            if not maybe_true(eng, st, v):
                continue
            k = st.auto[2]
            one = any(x[0] == "cv" and has(x[1], b) for x in k)
            if sampled:
                near = any(f2[0] in ("<", "<=") and f2[1 if p else 2][:2] == ("dist", "calcDist") and names(f2[2 if p else 1], "::samplingSizeDCD$") for f2, p in st.facts.items())
                halves = any(x[0] == "pv" and has(x[1], a) and not has(x[2], b) and any(y[0] == "pv" and y[1] == x[2] and has(y[2], b) for y in k) for x in k)
                ok = one and near or halves
            else:
                ok = one
            if not ok:
                res.add(f, f.where(), "connection not checked", "a connection is called valid although it was not checked in sampling size steps", st.steps())
        res.take(eng)
        res.count("check_functions")
    # whole solutions and trees
    for f in over("checkSolution"):
        rule = Gate()
        eng = Engine(db, rule)
        for st, v in rets(eng, rule, f, res):
            if not maybe_true(eng, st, v):
                continue
            if any(x[0] == "not pv" for x in st.auto[2]):
                res.add(f, f.where(), "invalid segment accepted", "a segment was found invalid", st.steps())
            if not any(segments(e) for e in rule.events(st)):
                res.add(f, f.where(), "not every segment", "not every segment of the solution is checked", st.steps())
        res.take(eng)
        res.count("check_functions")
    for f in over("checkTree"):
        class TreeGate(Gate):
            def excuse(self, eng, st, ctx, key):
                # no node, a root, or a node whose parent does not exist
                cur = lambda t: mentions(t, lambda x: self.is_elem(key, x))
                return any(cur(t) and (p is False and t[0] == "t" or t[0] == "<" and (names(t[1], "::parentID$") and t[2] == K0 and p is True or names(t[2], "::parentID$") and t[1] == ("k", -1) and p is False)) for t, p in st.facts.items())
        rule = TreeGate()
        eng = Engine(db, rule)
        for st, v in rets(eng, rule, f, res):
            if not maybe_true(eng, st, v):
                continue
            if any(x[0] == "not pv" for x in st.auto[2]):
                res.add(f, f.where(), "invalid segment accepted", "a segment was found invalid", st.steps())
            if not any((e[0] == "#empty" or e[0] == "pv" and any(names(x, "::parentID$") for x in e[1]) and not all(names(x, "::parentID$") for x in e[1])) and names(e, "::nodes$|getNodes") and mentions(e, lambda t: len(t) == 2 and t[0] == "all" or e[0] == "#empty") for e in rule.events(st)):
                res.add(f, f.where(), "not every node", "not every node of the tree is checked", st.steps())
        res.take(eng)
        res.count("check_functions")

    # (2) paths up to the first invalid configuration
    for f in over("createPathUntilInvalid"):
        rule = Fill()
        eng = Engine(db, rule)
        s, g, out = f.params
        rule.start = ("init", ("d", ("param", s)))
        for st, v in rets(eng, rule, f, res):
            d = eng.read(st, ("d", ("param", out)))
            if d[0] == "k" and d[1] != 1:
                continue
            full = d == ("k", 1) or d == ("k", 1.0) or d == K1
            k = st.auto[2]
            goal = any(x[0] == "added" and mentions(x[1], lambda t: t == ("param", g)) for x in k)
            zero = any(t[0] == "t" and p is False and t[1][:1] == ("dist",) or t[0] == "==" and p is True and mentions(t, lambda y: y[:1] == ("dist",)) and K0 in [(x[0], x[1]) if x[0] == "k" else x for x in t[1:3]] for t, p in st.facts.items())
            if full and not (goal or zero):
                res.add(f, f.where(), "complete without the goal", "the path is reported complete although the goal was not added", st.steps())
        res.take(eng)
        res.count("fill_functions")
    for f in db.find(S + "CSpaceTree::appendPathUntilCollision"):
        rule = Grow()
        eng = Engine(db, rule)
        for st, v in rets(eng, rule, f, res):
            if maybe_true(eng, st, v) and not any(t[0] == "==" and p is True and any(x[0] == "k" and x[1] == 1 for x in t[1:3]) for t, p in st.facts.items()) and not (v[1][0] == "==" and any(x[0] == "k" and x[1] == 1 for x in v[1][1:3])):
                res.add(f, f.where(), "incomplete path reported", "reaching the configuration is reported although the path may end before", st.steps())
        res.take(eng)
        res.count("fill_functions")

    # (3) tree growth
    planner = [f for f in db.funcs.values() if f.cls and fam(db, f.cls, S + "MotionPlanner")]
    results = enums(db, r"::Rrt::(ExtensionResult::)?e(Error|Failed|Success|Partial)$")
    if set(results) != {"eError", "eFailed", "eSuccess", "ePartial"}:
        raise Broken("results of tree extensions not found")
    grows = [f for f in planner if callee_in(db, {"appendPath", "appendNode", "appendPathUntilCollision"}, {S + "CSpaceTree"})(f)]
    gate = Grow(inline={f.id for f in planner if f.name in ("setStart", "setGoal")})
    todo, done = sorted(grows, key=lambda f: f.id), set()
    while todo:
        f = todo.pop(0)
        if f.id in done:
            continue
        done.add(f.id)
        eng = Engine(db, gate)
        for st, v in rets(eng, gate, f, res):
            pass
        callers = [] if is_public(f) or not eng.reports else sorted((g for g in planner if any(x[3] == f.id for x in calls(g))), key=lambda g: g.id)
        if callers:     # a helper whose callers check
            gate.inline.add(f.id)
            todo += callers
        else:
            res.take(eng)
        res.count("growing_functions")
    for f in sorted(planner, key=lambda f: f.id):
        if "ExtensionResult" in f.info.get("ret", "") and f.params:
            rule = Extend()
            rule.results = results
            eng = Engine(db, rule)
            c = ("init", ("d", ("param", f.params[0])))
            for st, v in rets(eng, rule, f, res):
                if v and v[0] == "valret" and eng.decide(st, rel("==", v[1], ("k", results["eSuccess"]))) is not False and ("grown", c) not in st.auto[2]:
                    res.add(f, f.where(), "success without reaching", "the extension is reported successful although the configuration itself was not added to the tree", st.steps())
            res.take(eng)
            res.count("extending_functions")
    for f in sorted(planner, key=lambda f: f.id):
        direct = any("ExtensionResult" in ((db.fns.get(x[3]) or {}).get("ret") or "") and len(db.fns[x[3]].get("p", ())) > 0 for x in calls(f)) and not "ExtensionResult" in f.info.get("ret", "")
        if f.name == "plan" or direct and any(x[0] == "A" and x[4] and x[4][0] == "M" and x[4][4].endswith("::found") for x in all_nodes(f)):
            rule = Plan()
            rule.outcomes, rule.flags = set(), set()
            rule.results = results
            eng = Engine(db, rule)
            for st, v in rets(eng, rule, f, res):
                if f.name != "plan" or not maybe_true(eng, st, v):
                    continue
                k = st.auto[2]
                if v[1] != K1 and v[1][0] != "k":
                    continue
                if ("init",) not in k:
                    res.add(f, f.where(), "success without initialization", "the planner succeeds without valid start and goal", st.steps())
                if ("made",) not in k:
                    res.add(f, f.where(), "success without solution", "the planner succeeds without building the solution", st.steps())
                if direct and not rule.reached(st):
                    res.add(f, f.where(), "found without connection", "a solution is reported although no extension reached a configuration that is not random", st.steps())
            res.take(eng)
            res.count("plan_functions")
    res.stats["growth_sites"] = len(gate.sites)

    # (4) start and goal
    for f in sorted(planner, key=lambda f: f.id):
        if f.name in ("setStart", "setGoal") or writes_true(f, {S + "MotionPlanner::startValid", S + "MotionPlanner::goalValid"}):
            if throws_always(f) or any(throws_always(g) for g in planner if g.cls == f.cls and g.name == "setGoal"):
                continue
            rule = Accept(inline={g.id for g in planner if g.name in ("setStart", "setGoal")})
            eng = Engine(db, rule)
            for st, v in rets(eng, rule, f, res):
                if f.name not in ("setStart", "setGoal"):
                    continue
                fl = ("f", this, S + "MotionPlanner::" + ("startValid" if f.name == "setStart" else "goalValid"))
                conf = eng.read(st, ("f", this, S + "MotionPlanner::" + ("startConfig" if f.name == "setStart" else "goalConfig")))
                if conf[0] != "init" or conf[1][0] != "f":
                    # a new configuration was stored
                    k = st.auto[2]
                    if eng.decide(st, truth(eng.read(st, fl))) is not False and not (("cv", conf) in k or ("cf", conf) in k and ("ib", conf) in k) and \
                            eng.decide(st, truth(eng.read(st, ("f", this, S + "MotionPlanner::cspace")))) is not False:
                        res.add(f, f.where(), "rejected but valid", "a rejected configuration is stored but still counts as accepted", st.steps())
                if maybe_true(eng, st, v):
                    if eng.decide(st, truth(eng.read(st, fl))) is not True:
                        res.add(f, f.where(), "accepted without being valid", "the configuration is reported accepted although it was not found valid", st.steps())
            res.take(eng)
            res.count("accept_functions")
            res.count("accept_writes", eng.obligations)

    # (5) post-processing
    for f in sorted((f for f in db.funcs.values() if f.cls and fam(db, f.cls, S + "PathProcessor")), key=lambda f: f.id):
        if f.name == "doShortcut" or not (callee_in(db, {"doShortcut", "erasePosition"})(f)):
            continue
        if f.cls.endswith("ElasticBandProcessor"):
            continue
        rule = Post(inline={g.id for g in db.funcs.values() if g.cls == f.cls and g.name in ("validShortcut",)})
        eng = Engine(db, rule)
        for st, v in rets(eng, rule, f, res):
            pass
        res.take(eng)
        res.count("post_functions")
        res.count("post_sites", len(rule.sites))
    res.floors = {"check_functions": 4, "fill_functions": 1, "growing_functions": 3, "growth_sites": 3, "accept_functions": 2, "extending_functions": 2, "plan_functions": 3, "post_functions": 1}
    return res


def segments(e):
    """event: the connection of every two neighbouring points"""
    if e[0] == "#empty":
        return True
    e = norm(e)
    if e[0] != "pv" or len(e[1]) != 2:
        return False
    a, b = e[1]
    if a[0] != "pt" or b[0] != "pt" or a[1] != b[1]:
        return False
    al = []
    mentions(e, lambda t: len(t) == 2 and t[0] == "all" and t not in al and al.append(t))
    if len(al) != 1:
        return False
    h = al[0]
    d = [ladd(x[2], h, -1) for x in (a, b)]
    if any(x[0] != "k" for x in d):
        return False
    lo, hi = min(d[0][1], d[1][1]), max(d[0][1], d[1][1])
    if hi - lo != 1:
        return False
    X = h[1]
    first, last = (X[1], X[2]) if X[0] == "range" else (K0, X[1]) if X[0] == "upto" else (K0, ("size", X))
    last = ladd(last, ("k", hi))
    return ladd(first, ("k", lo)) == K0 and (last[0] == "size" or last[0] == "call")


def reach_in(db, funcs, names_):
    """functions of the set that call one of the names, directly or through others of the set"""
    ids = {f.id for f in funcs}
    r = {f.id for f in funcs if callee_in(db, names_, {S + "CSpaceTree"})(f)}
    ch = True
    while ch:
        ch = False
        for f in funcs:
            if f.id in r:
                continue
            for x in calls(f):
                if x[3] in r or (db.fns.get(x[3]) or {}).get("virt") and db.all_overriders(x[3]) & r:
                    r.add(f.id)
                    ch = True
                    break
    return [f for f in funcs if f.id in r]


def writes_true(f, fields):
    for _, e in top_elems(f):
        for x in walk(e):
            if x[0] == "A" and x[4] and x[4][0] == "M" and x[4][4] in fields:
                y = strip(x[5])
                if not (y and y[0] == "L" and y[4] in (False, 0)):
                    return True
    return False


def throws_always(f):
    """no path through the function returns"""
    seen, w = set(), [f.entry]
    while w:
        b = w.pop()
        if b in seen:
            continue
        seen.add(b)
        if any(e[0] == "R" for e in f.blocks[b]["e"]):
            return False
        w += [s for s in f.blocks[b]["s"] if s is not None and s in f.blocks]
    return f.info.get("ret") != "void"
