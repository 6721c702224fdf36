from lib import *
from forall import *
GLOBS = ["VirtualRobot/CollisionDetection/*.cpp", "VirtualRobot/EndEffector/*.cpp", "VirtualRobot/SceneObjectSet.cpp", "VirtualRobot/SceneObject.cpp", "VirtualRobot/IK/constraints/*.cpp", "MotionPlanning/CSpace/*.cpp",
         "VirtualRobot/Nodes/RobotNode.cpp", "VirtualRobot/Robot.cpp"]
EXPLANATION = """Exhaustiveness of collision and distance queries. Every query over sets, vectors, robots, actors or registered pairs is followed along all paths; each elementary check is forked into 'collision' and
'no collision'. On every exit the returned value is true exactly if an elementary check reported a collision, and an exit that reports none has applied the elementary check to every element (every pair of elements) of its
operands: loops start at the first element, advance by one, end behind the last and skip only elements that are excused (no collision model, excluded by the mode, the operand itself). Distance queries cover every element in the
same way and return a value that is not larger than any distance seen."""
OPS = {"checkCollision", "isInCollision", "isColliding"}
DIST = {"calculateDistance", "getDistance"}
CLASSES = ("VirtualRobot::CollisionChecker", "VirtualRobot::CDManager", "VirtualRobot::EndEffectorActor")
GEO = re.compile(r"(CollisionModel|SceneObject|SceneObjectSet|EndEffectorActor|Obstacle|GraspableObject|Robot)>")
V = "VirtualRobot::"
EXTRA = {("VirtualRobot::CDManager", 0): [V + "CDManager::colModelPairs"], ("VirtualRobot::CDManager", 1): [V + "CDManager::colModels"]}


def field(t, q):
    return mentions(t, lambda x: len(x) == 3 and x[0] == "f" and x[2] == q)


class Cover(ForAll):
    depth = 4
    cap = 40

    def __init__(self, ops, focus, hit=True):
        self.ops, self.focus, self.hit = ops, focus, hit
        self.sites = set()

    def initial_user(self):
        return False  # no elementary check has fired yet

    def relevant(self, eng, usr, info):
        return usr in self.focus

    def args(self, eng, st, c):
        return tuple(a.val for a in c.args)

    def on_call(self, eng, st, c):
        if c.info is None or not eng.is_repo(c.usr):
            return None
        n = c.name
        if n == "getRobotModels" and len(c.args) == 1:
            return [(st, ("val", ("models", c.args[0].val)))]
        if n in self.ops and c.usr not in self.focus:
            self.sites.add(c.site[1])
            eng.obligations += 1
            self.ev(eng, st, "op", tuple(self.clean(a) for a in ((c.recv,) if c.recv else ()) + self.args(eng, st, c)))
            hit, miss = st.copy(), st
            hit.auto = hit.auto[:2] + (True,)
            hit.touch()
            return [(hit, ("val", K1 if self.hit else K0)), (miss, ("val", K0 if self.hit else K1))]
        return None

    @staticmethod
    def clean(t):
        """a location re-read after unrelated calls is the same operand"""
        return subst(t, lambda x: len(x) == 3 and x[0] == "hv" and isinstance(x[2], tuple), None) if False else _unhv(t)

    def excuse(self, eng, st, ctx, key):
        def cur(t):
            return mentions(t, lambda x: self.is_elem(key, x))
        for f, p in st.facts.items():
            if not cur(f):
                continue
            if f[0] == "==" and p is True and any(not mentions(x, lambda y: self.is_elem(key, y)) and not mentions(x, lambda y: len(y) == 3 and y[0] == "it") for x in f[1:3]):
                return True  # the operand itself
            if p is False and f[0] == "t" and names(f, r"collisionModel$|getCollisionModel#|::colMode$"):
                return True
        return False


def _unhv(t):
    if not isinstance(t, tuple):
        return t
    if len(t) == 3 and t[0] == "hv" and isinstance(t[2], tuple):
        return ("init", _unhv(t[2]))
    return tuple(_unhv(x) for x in t)


class Dist(Cover):
    """user part: None, or - once one arbitrary measurement has been singled out as the witness - the local variables that are not larger than it"""

    def initial_user(self):
        return None

    def on_call(self, eng, st, c):
        if c.info is None or not eng.is_repo(c.usr):
            return None
        n = c.name
        if n == "getRobotModels" and len(c.args) == 1:
            return [(st, ("val", ("models", c.args[0].val)))]
        if n in self.ops:
            eng.obligations += 1
            self.ev(eng, st, "op", tuple(self.clean(a) for a in ((c.recv,) if c.recv else ()) + tuple(a.val for a in c.args)))
            outs = [(st, ("val", ("dist", c.site)))]
            if st.auto[2] is None:
                w = st.copy()
                w.auto = w.auto[:2] + (frozenset(),)
                w.touch()
                outs.append((w, ("val", ("dist", c.site, "w"))))
            return outs
        return None

    @staticmethod
    def bounded(eng, st, v):
        if v[0] == "dist" and v[2:] == ("w",):
            return True
        vals = [st.env[l] for l in st.auto[2] if l in st.env]
        for f, p in st.facts.items():
            if f[0] in ("<", "<="):
                vals += [x for x in f[1:3] if isinstance(x, tuple) and x and x[0] == "dist" and x[2:] == ("w",)]
        return any(le(eng, st, v, x) for x in vals)

    def on_assign(self, eng, st, ctx, lv, val, node):
        u = st.auto[2]
        if u is None or lv[0] != "v":
            return
        n = u | {lv} if self.bounded(eng, st, val) else u - {lv}
        if n != u:
            st.auto = st.auto[:2] + (n,)
            st.touch()

    def on_edge(self, eng, st, ctx, li, src, b):
        u = st.auto[2]
        if u is not None:
            n = set(u)
            for l, v in st.env.items():
                if l[0] == "v" and l[1] == ctx.path and l not in n and re.fullmatch(r"(const )?(float|double)", (ctx.fn.vars.get(l[2]) or {}).get("t", "")) and v[0] != "ref" and self.bounded(eng, st, v):
                    n.add(l)
            if n != u:
                st = st.copy()
                st.auto = st.auto[:2] + (frozenset(n),)
                st.touch()
        return ForAll.on_edge(self, eng, st, ctx, li, src, b)

    def purge_user(self, user, stale):
        return user


def le(eng, st, a, b):
    if a == b:
        return True
    if eng.decide(st, rel("<", b, a, "f")) is False or eng.decide(st, rel("<=", a, b, "f")) is True or eng.decide(st, rel("<", a, b, "f")) is True:
        return True
    if a[0] == "min" and b in a[1:]:
        return True
    return False


def partial(t):
    """single element of a container"""
    return mentions(t, lambda x: len(x) == 3 and x[0] in ("elt", "it") and not (x[0] == "elt" and isinstance(x[2], tuple) and x[2][:1] == ("all",)) or x[:1] in (("next",), ("phi",)))


def covers(args, srcs):
    """every source operand is the subject of its own argument"""
    used = set()
    for s in srcs:
        for i, a in enumerate(args):
            if i in used or not s(a) or partial(a):
                continue
            used.add(i)
            break
        else:
            return False
    return True


def sources(f, cls):
    res = []
    for vid, t in zip(f.params, f.info["p"]):
        if GEO.search(t) and not t.startswith("std::map"):
            res.append((vid, (lambda v: lambda a: mentions(a, lambda x: x == ("param", v)))(vid)))
    if cls == "VirtualRobot::CDManager" and not any("vector" in t for t in f.info["p"]):
        q = V + ("CDManager::colModels" if res else "CDManager::colModelPairs")
        srcs = [(q, lambda a, q=q: field(a, q))]
        if not res:
            srcs = srcs * 2
        res += srcs
    if cls == "VirtualRobot::EndEffectorActor":
        q = V + "EndEffectorActor::actors"
        res.append((q, lambda a, q=q: field(a, q) or a == ("d", ("this",))))
    return res


def source_groups(f, cls):
    """operand combinations that have to be covered; an end effector is its actors and its static parts"""
    base = sources(f, cls)
    if not base:
        return []
    e = [v for v, t in zip(f.params, f.info["p"]) if re.search(r"\bEndEffector>$", t)]
    if not e or any(GEO.search(t) for t in f.info["p"]):
        return [base]
    return [base + [("%s.%s" % (e[-1], m), lambda a, q=V + "EndEffector::" + m, v=e[-1]: field(a, q) and mentions(a, lambda x: x == ("param", v)))] for m in ("actors", "statics")]


def covered(eng, st, groups):
    return all(vacuous(eng, st, g) or any(e[0] == "op" and covers(e[1], [s for _, s in g]) for e in st.auto[0]) for g in groups)


def vacuous(eng, st, srcs):
    for ev in st.auto[0]:
        if ev[0] == "#empty" and any(s(ev[1][0]) for _, s in srcs):
            return True
    for f, p in st.facts.items():
        if p is False and f[0] == "t" and any(s(f) for _, s in srcs):
            return True
        if p is False and f[0] == "t" and field(f, V + "CDManager::colChecker"):
            return True
        if p is False and f[0] == "<" and f[1] == K0 and any(s(f) for _, s in srcs):
            return True
    return False


def run(db, tier):
    res = Result()
    fs = [f for f in sorted(db.funcs.values(), key=lambda f: (f.file, f.line)) if f.info.get("cls") in CLASSES or f.cls in CLASSES]
    for f in fs:
        n = f.q.rsplit("::", 1)[-1]
        cls = f.cls
        if not is_public(f) and n not in OPS:
            continue
        if n in OPS and f.info["ret"] == "bool":
            groups = source_groups(f, cls)
            if not groups:
                continue
            r = Cover(OPS, {o.id for o in fs if o.cls == cls and o.q == f.q and any("vector" in p for p in o.info["p"]) and len(o.params) == 2 and o.id != f.id and cls.endswith("CDManager")})
            eng = Engine(db, r)
            exits = eng.run(f)
            res.count("collision_queries")
            res.count("exits_checked", len(exits))
            res.count("elementary_checks", eng.obligations)
            res.sample({"query": f.sig(), "operands": [s for g in groups for s, _ in g], "exits": len(exits)})
            if not eng.obligations:
                res.add(f, f.where(), "no check", "the query applies no elementary check")
            for k, st, v in exits:
                if k != "ret":
                    continue
                val = eng.decide(st, truth(v[1] if v and v[0] == "valret" else eng.read(st, v[1])))
                if st.auto[2] and val is not True:
                    res.add(f, f.where(), "collision lost", "an elementary check reports a collision but the query may return false", st.steps())
                elif not st.auto[2] and val is not False:
                    res.add(f, f.where(), "collision invented", "the query may return true although no elementary check reported a collision", st.steps())
                elif not st.auto[2] and not covered(eng, st, groups):
                    res.add(f, f.where(), "not exhaustive", "a path returns 'no collision' without having checked every element of its operands", st.steps())
        if n in DIST and f.info["ret"] in ("float", "double"):
            srcs = sources(f, cls)
            if not srcs:
                continue
            r = Dist(DIST, set())
            eng = Engine(db, r)
            exits = eng.run(f)
            res.count("distance_queries")
            res.count("exits_checked", len(exits))
            res.count("elementary_checks", eng.obligations)
            for k, st, v in exits:
                if k != "ret":
                    continue
                val = v[1] if v[0] == "valret" else eng.read(st, v[1])
                if vacuous(eng, st, srcs):
                    continue
                ops = [e for e in st.auto[0] if e[0] == "op" and covers(e[1], [s for _, s in srcs])]
                if not ops:
                    res.add(f, f.where(), "not exhaustive", "a path returns a distance without having measured every element of its operands", st.steps())
                    continue
                if st.auto[2] is not None and not r.bounded(eng, st, val):
                    res.add(f, f.where(), "not the minimum", "the returned distance may be larger than a distance that was measured", st.steps())
    # collecting the models of a set / robot
    for q, want in (("VirtualRobot::SceneObjectSet::getCollisionModels", "VirtualRobot::SceneObjectSet::sceneObjects"), ("VirtualRobot::CollisionChecker::getRobotModels", "getRobotNodes")):
        for f in db.find(q):
            class Coll(Cover):
                def on_call(self, eng, st, c):
                    if c.name in ("push_back", "emplace_back", "addSceneObject", "insert") and c.args:
                        eng.obligations += 1
                        self.ev(eng, st, "op", (self.clean(c.args[-1].val),))
                    return None
            eng = Engine(db, Coll(set(), set()))
            for k, st, v in eng.run(f):
                if k != "ret":
                    continue
                res.count("exits_checked")
                s = (lambda a: names(a, want))
                if vacuous(eng, st, [(want, s)]) or any(e[0] == "op" and covers(e[1], [s]) for e in st.auto[0]):
                    continue
                res.add(f, f.where(), "not exhaustive", "not every object with a collision model is collected", st.steps())
            res.count("collectors")
    # registering a model set pairs it with every set already there
    for f in db.find("VirtualRobot::CDManager::addCollisionModel"):
        if "SceneObjectSet" not in f.info["p"][0]:
            continue
        q = V + "CDManager::colModels"
        srcs = [(f.params[0], lambda a: mentions(a, lambda x: x == ("param", f.params[0]))), (q, lambda a: field(a, q))]
        eng = Engine(db, Cover({"addCollisionModelPair"}, set()))
        for k, st, v in eng.run(f):
            if k != "ret":
                continue
            res.count("exits_checked")
            if vacuous(eng, st, srcs) or any(e[0] == "op" and covers(e[1], [s for _, s in srcs]) for e in st.auto[0]):
                continue
            res.add(f, f.where(), "not exhaustive", "a new collision model set is not paired with every registered one", st.steps())
        res.count("registrations")
    res.floors = {"collision_queries": 8, "distance_queries": 8, "collectors": 2, "registrations": 1, "elementary_checks": 15}
    return res
