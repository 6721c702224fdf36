from lib import *
GLOBS = ALL
EXPLANATION = """Starting from every public `clone` of the object model (scene objects, robot nodes, sensors, grasps, end effectors, configurations, node sets, robots, trajectories, collision and
visualization models, workspace data, measures, planning spaces), a dataflow analysis computes for each value the members of the original it is made of: through locals, own helpers, getters, lambdas and copy
loops. Constructors, setters and `reset`/`memcpy`/assignments applied to the new object (found through creation expressions, own `_clone` overrides resolved for the class that is cloned, aliases and helpers that
are handed the object) then tell which member of the new object receives which member of the old one. A table names, per class, the attributes the clone owes: each must receive its own counterpart; those marked
as owned parts must receive it through a copy operation; and every control-flow path to a return of the new object must pass such a transfer, except where the branch not taken was decided by the attribute
itself (unset, empty, other parametrisation) or by the creation having failed. Reported per class and attribute: lost, shared, not always. Members outside the table (caches, back references, locks) are not owed.
Not decided: whether scaling factors are applied to the right quantities, and the number of elements a copy loop visits."""

COPY = re.compile(r"@F@_?(clone|copyNode|deepCopy)#")
MAKE = re.compile(r"@F@(_?clone|extractSubPart|createRobotNodeSet)#")


def own(n):
    """call on the same object"""
    if n[0] != "C" or n[4] is None:
        return False
    r = strip(n[4])
    return r[0] == "T" or r[0] == "U" and r[3] == "*" and strip(r[4])[0] == "T"


def base(p):
    p = strip(p)
    while p[0] == "C" and p[4] is not None and re.search(r"@F@(operator(->|\*)|get)#", p[3]) or p[0] == "U" and p[3] == "*" or p[0] == "N" and len(p[5]) == 1 and "shared_ptr" in p[4] or \
            p[0] == "C" and p[4] is None and len(p[5]) == 1 and "pointer_cast" in p[3]:
        p = strip(p[4] if p[0] in ("C", "U") and p[4] is not None else p[5][0])
    return p


def this_field(e):
    """member of this object denoted (or held) by an lvalue expression: F, F.x, F[i], *F, F.block(..)"""
    e = strip(e)
    while True:
        if e[0] == "M":
            b = strip(e[3])
            if b[0] == "T" or b[0] == "U" and b[3] == "*" and strip(b[4])[0] == "T":
                return e[4]
            e = b
        elif e[0] == "I":
            e = strip(e[3])
        elif e[0] == "U" and e[3] == "*":
            e = strip(e[4])
        elif e[0] == "C" and e[4] is not None and not own(e):
            e = strip(e[4])
        elif e[0] == "C" and e[4] is None and e[5] and "operator" in e[3]:
            e = strip(e[5][0])
        else:
            return None


def local(e):
    """local variable an lvalue expression denotes or is part of"""
    e = strip(e)
    while True:
        if e[0] == "V":
            return e[3]
        if e[0] in ("M", "I"):
            e = strip(e[3])
        elif e[0] == "U" and e[3] == "*":
            e = strip(e[4])
        elif e[0] == "C" and e[4] is not None:
            e = strip(e[4])
        elif e[0] == "C" and e[5] and "operator" in e[3]:
            e = strip(e[5][0])
        else:
            return None


JOINTS = "joint values"


DEEP = {}


def elems(db, f, depth=0):
    """elements of the function, those of lambdas it passes on included"""
    r = DEEP.get(f.id)
    if r is None:
        r = list(top_elems(f))
        for b, e in list(r):
            for n in walk(e):
                if n[0] == "lam" and n[3] in db.funcs and depth < 3:
                    r += [(b, x) for _, x in elems(db, db.funcs[n[3]], depth + 1) if x[0] != "R"]
        DEEP[f.id] = r
    return r


def mentions_var(e, vs):
    return any(n[0] == "V" and n[3] in vs for n in walk(e))


class Flow:
    """flow-insensitive origins: which members of the object and which parameters a value depends on"""

    def __init__(self, db):
        self.db, self._env, self._ret, self._w = db, {}, {}, {}
        DEEP.clear()

    def targets(self, u):
        return [self.db.funcs[t] for t in {u} | self.db.all_overriders(u) if t in self.db.funcs]

    def env(self, f):
        r = self._env.get(f.id)
        if r is None:
            r = self._env[f.id] = {p: frozenset({("P", i)}) for i, p in enumerate(f.params)}
            changed = True
            while changed:
                changed = False
                for _, e in elems(self.db, f):
                    for n in walk(e):
                        for v, o in self.binds(f, n, r):
                            if not o <= r.get(v, frozenset()):
                                r[v] = r.get(v, frozenset()) | o
                                changed = True
        return r

    def binds(self, f, n, env):
        if n[0] == "DS":
            for d in n[3]:
                if d[1]:
                    yield d[0], self.orig(f, d[1], env)
        elif n[0] == "A":
            v = local(n[4])
            if v:
                yield v, self.orig(f, n[5], env)
        elif n[0] == "C":
            if n[4] is not None:
                v = local(n[4])
                if v and n[5] and not COPY.search(n[3]):
                    yield v, frozenset().union(*[self.orig(f, a, env) for a in n[5]])
            elif n[5] and "operator" in n[3] and local(n[5][0]):
                yield local(n[5][0]), frozenset().union(*[self.orig(f, a, env) for a in n[5][1:]])
            for a in n[5]:  # what an algorithm hands to a lambda
                for l in walk(a):
                    if l[0] != "lam" or l[3] not in self.db.funcs:
                        continue
                    o = frozenset().union(*[self.orig(f, x, env) for x in n[5]])
                    for v in self.db.funcs[l[3]].params:
                        yield v, o
            if own(n):  # out parameters of own methods
                for a in n[5]:
                    a2 = strip(a)
                    if a2[0] == "V":
                        yield a2[3], self.call_orig(f, n, env)

    def call_orig(self, f, n, env):
        out = frozenset()
        for g in self.targets(n[3]):
            out |= self.mapped(f, n, self.ret(g), env, True)
        return out

    def ret(self, g):
        r = self._ret.get(g.id)
        if r is None:
            self._ret[g.id] = frozenset()
            env = self.env(g)
            out = frozenset()
            for _, e in elems(self.db, g):
                for n in walk(e):
                    if n[0] == "R" and n[3]:
                        out |= self.orig(g, n[3], env)
            for i, p in enumerate(g.params):
                if (g.vars.get(p) or {}).get("ref"):
                    out |= env.get(p, frozenset())
            r = self._ret[g.id] = out
        return r

    def orig(self, f, e, env):
        out = frozenset()
        if not e:
            return out
        e = strip(e)
        k = e[0]
        if k == "M":
            fl = this_field(e)
            if fl:
                return frozenset({("F", fl)})
        if k == "V":
            return env.get(e[3], frozenset())
        if k == "M" and strip(e[3])[0] in ("U", "V"):
            b = base(e[3])
            if b[0] == "V" and b[3] in f.params:
                return frozenset({("Q", f.params.index(b[3]), e[4])})
        if k == "C" and own(e):
            return self.call_orig(f, e, env)
        if k == "C" and e[4] is not None and not COPY.search(e[3]):
            b = base(e[4])
            if b[0] == "V" and b[3] in f.params:
                for g in self.targets(e[3]):
                    out |= {("Q", f.params.index(b[3]), s[1]) for s in self.ret(g) if s[0] == "F"}
        if k == "C" and COPY.search(e[3]):
            o = frozenset().union(frozenset(), *[self.orig(f, x, env) for x in kids(e) if x])
            return frozenset(("C", x[1]) if x[0] == "F" else x for x in o)
        if k == "?":  # the condition only selects
            out |= frozenset(("C", x[1]) if x[0] == "F" else x for x in self.orig(f, e[3], env))
            for x, y in ((e[4], e[5]), (e[5], e[4])):
                o, p = self.orig(f, x, env), self.orig(f, y, env)
                out |= o | {("S", s[1]) for s in o if s[0] == "F" and ("C", s[1]) in p and ("C", s[1]) not in o}  # sometimes the original part, sometimes a copy
            return out
        for x in kids(e):
            if x:
                out |= self.orig(f, x, env)
        return out

    def writes(self, g):
        """member -> origins stored in it by a call of g (constructor, setter) on its object"""
        r = self._w.get(g.id)
        if r is None:
            self._w[g.id] = {}
            env = self.env(g)
            out = {}

            def put(fl, o):
                out[fl] = out.get(fl, frozenset()) | o
            for _, e in elems(self.db, g):
                for n in walk(e):
                    if n[0] == "init":
                        if not n[3].startswith("base:"):
                            put(n[3], self.orig(g, n[4], env))
                            continue
                        c = strip(n[4]) if n[4] else None
                        if c and c[0] == "N":
                            self.through(g, c, env, put)
                    elif n[0] == "A":
                        fl = this_field(n[4])
                        if fl:
                            put(fl, self.orig(g, n[5], env))
                    elif n[0] == "C":
                        if own(n):
                            self.through(g, n, env, put)
                        else:
                            fl = n[4] is not None and not n[3].endswith("#1") and this_field(n[4])
                            args = n[5]
                            if n[4] is None and n[5] and re.search(r"@F@(operator.*|memcpy|memmove)(#|<|$)", n[3]):
                                fl, args = this_field(n[5][0]), n[5][1:]
                            if fl:
                                put(fl, frozenset().union(frozenset(), *[self.orig(g, a, env) for a in args]))
            r = self._w[g.id] = out
        return r

    def through(self, f, n, env, put):
        for t in self.targets(n[3]):
            for fl, o in self.writes(t).items():
                put(fl, self.mapped(f, n, o, env, True))

    # ------------------------------------------------------------ clones
    def resolve(self, u, d):
        """function a call of u on an object of class d ends in"""
        cands = {u} | self.db.all_overriders(u)
        for c in [d] + list(self.db.bases(d)):
            for t in cands:
                if t in self.db.funcs and self.db.funcs[t].cls == c:
                    return self.db.funcs[t]
        return self.db.funcs.get(u)

    def creates(self, f, e, d):
        """the object the expression creates: constructor node or own clone call"""
        for n in walk(e):
            if n[0] == "new" and n[5] and n[5][0] == "N" and self.kin(n[3], d):
                return n[5]
            if n[0] == "C" and MAKE.search(n[3]) and (own(n) or n[4] is None and "createRobotNodeSet" in n[3]):
                return n
            if n[0] == "N" and n[3] in self.db.funcs and self.kin(n[4], d) and f.info.get("ret") and not "copy" in n[6:]:
                return n
        return None

    def kin(self, c, d):
        return c == d or c in self.db.bases(d)

    def transfers(self, f, d, seen=(), given=()):
        """(member of the new object, block, origins)"""
        env = self.env(f)
        objs, out = {p: True for p in given}, []
        for b, e in elems(self.db, f):
            for n in walk(e):
                t = x = None
                if n[0] == "DS":
                    for v in n[3]:
                        c = v[1] and self.creates(f, v[1], d)
                        if c:
                            objs[v[0]] = True
                            out += self.created(f, c, b, d, env, seen)
                elif n[0] == "A":
                    t, x = strip(n[4]), n[5]
                elif n[0] == "C" and n[4] is not None and re.search(r"@F@(operator=|reset)(#|<)", n[3]) and n[5]:
                    t, x = strip(n[4]), n[5][0]
                elif n[0] == "R" and n[3]:
                    c = self.creates(f, n[3], d)
                    if c:
                        out += self.created(f, c, b, d, env, seen)
                if t is not None and t[0] == "V":
                    c = self.creates(f, x, d)
                    if c:
                        objs[t[3]] = True
                        out += self.created(f, c, b, d, env, seen)
        for v in list(self.aliases(f, objs)):
            objs[v] = True
        parts = set(objs)
        for _ in range(3):
            parts |= set(self.aliases(f, parts, True))
        for b, e in elems(self.db, f):
            for n in walk(e):
                if n[0] == "A":
                    fl = self.of_object(n[4], objs)
                    if fl:
                        out.append((fl, b, self.orig(f, n[5], env), n[2]))
                elif n[0] == "C" and self.helper(n) and any(base(a)[0] == "V" and base(a)[3] in objs for a in n[5]) and len(seen) < 4:
                    g = self.resolve(n[3], d)
                    if g is not None and g.id not in seen + (f.id,):
                        ts = self.transfers(g, d, seen + (f.id,), [g.params[i] for i, a in enumerate(n[5]) if i < len(g.params) and base(a)[0] == "V" and base(a)[3] in objs])
                        out += self.always(g, d, ts, f, n, b, env, n[4] is not None, [g.params[i] for i, a in enumerate(n[5]) if i < len(g.params) and base(a)[0] == "V" and base(a)[3] in objs])
                elif n[0] == "C" and n[4] is not None:
                    v = base(n[4])
                    if v[0] == "V" and v[3] in objs:
                        g = self.resolve(n[3], d)
                        if g is not None:
                            for fl, o in self.writes(g).items():
                                out.append((fl, b, self.mapped(f, n, o, env), n[2]))
                    else:
                        fl = not n[3].endswith("#1") and self.of_object(n[4], objs)
                        if fl:
                            out.append((fl, b, frozenset().union(frozenset(), *[self.orig(f, a, env) for a in n[5]]), n[2]))
                    if COPY.search(n[3]) and any(mentions_var(a, objs) for a in n[5]):  # the new object is handed to a part of the old one, which registers its copy
                        out += [(x[1], b, frozenset({("C", x[1])}), n[2]) for x in self.orig(f, n[4], env) if x[0] in ("F", "C")]
                    if re.search(r"@F@(setJointValue\w*|setConfig)#", n[3]) and (mentions_var(n[4], parts) or any(mentions_var(a, parts) for a in n[5])):
                        out.append((JOINTS, b, frozenset({("F", JOINTS)}), n[2]))
                elif n[0] == "C" and n[5] and re.search(r"@F@(memcpy|memmove|copy)(#|<|$)", n[3]):
                    dst = n[5][2 if "@copy" in n[3] and len(n[5]) > 2 else 0]
                    fl = self.of_object(dst, objs)
                    if fl:
                        out.append((fl, b, frozenset().union(*[self.orig(f, a, env) for a in n[5]]), n[2]))
        return out

    def aliases(self, f, objs, part=False):
        for _, e in elems(self.db, f):
            for n in walk(e):
                if n[0] == "DS":
                    for v in n[3]:
                        if v[1] and (base(v[1])[0] == "V" and base(v[1])[3] in objs or part and mentions_var(v[1], objs)):
                            yield v[0]

    def of_object(self, e, objs):
        """member of the new object an lvalue denotes"""
        e = strip(e)
        while True:
            if e[0] == "M":
                b = base(e[3])
                if b[0] == "V" and b[3] in objs:
                    return e[4]
                e = strip(e[3])
            elif e[0] == "I":
                e = strip(e[3])
            elif e[0] == "U" and e[3] == "*":
                e = strip(e[4])
            elif e[0] == "C" and e[4] is not None:
                e = strip(e[4])
            else:
                return None

    def mapped(self, f, n, o, env, own=False):
        m = frozenset()
        for s in o:
            if s[0] in ("F", "C", "S"):
                m |= {s} if own else frozenset()
            elif s[1] < len(n[5]):
                a = n[5][s[1]]
                if s[0] == "P":
                    m |= self.orig(f, a, env)
                else:
                    v = base(a)
                    if v[0] == "T":
                        m |= {("F", s[2])}
                    elif v[0] == "V" and v[3] in f.params:
                        m |= {("Q", f.params.index(v[3]), s[2])}
        return m

    def created(self, f, c, b, d, env, seen):
        if c[0] == "N":
            if "copy" in c[6:] and c[3] not in self.db.funcs or c[3] not in self.db.funcs and len(c[5]) == 1:
                return [("*", b, frozenset(), c[2])]
            if c[3] not in self.db.funcs:
                return []
            return [(fl, b, self.mapped(f, c, o, env), c[2]) for fl, o in self.writes(self.db.funcs[c[3]]).items()]
        g = self.resolve(c[3], d)
        if g is None or g.id in seen:
            return []
        if c[4] is None:  # static factory
            return [(fl, b, self.mapped(f, c, o, env), c[2]) for fl, _, o, _ in self.transfers(g, d, seen + (f.id,))]
        return self.always(g, d, self.transfers(g, d, seen + (f.id,)), f, c, b, env, True)

    def helper(self, n):
        """own or free function that is handed the new object"""
        return n[3] in self.db.funcs and (own(n) or n[4] is None) and not COPY.search(n[3])

    def always(self, g, d, ts, f, c, b, env, own, given=None):
        """transfers of a helper, seen from its caller; what the helper does not always hand over does not count"""
        part = set()
        for fl in {x[0] for x in ts}:
            a = next((a for a in CARRIED.get(d, "").split() if fl == find_field(self.db, d, a.rstrip("?*~").split("|")[0])), "?")
            via = {x[1] for x in ts if x[0] == fl and (any(s[1] == fl for s in x[2] if s[0] in ("F", "C")) or any(s[0] in ("P", "Q") for s in x[2]))}
            if "?" not in a and via and skipping(self, g, d, self.env(g), via, {fl} | {find_field(self.db, d, y) for y in a.rstrip("?*~").split("|")[1:]}, given):
                part.add(fl)
        return [(fl, b, self.mapped(f, c, o, env, own), c[2]) for fl, _, o, _ in ts if fl not in part]


V = "VirtualRobot::"
NODE = "jointValueOffset limitless maxVelocity maxAcceleration maxTorque localTransformation|optionalDHParameter propagatedJointValues nodeType enforceJointLimits jointLimitLo jointLimitHi optionalDHParameter name physics visualizationModel* collisionModel* children?"
SPACE = "orientationType versionMajor versionMinor nodeSet type baseNode tcpNode staticCollisionModel dynamicCollisionModel buildUpLoops collisionConfigs discretizeStepTranslation discretizeStepRotation minBounds maxBounds numVoxels " \
        "achievedMinValues achievedMaxValues spaceSize adjustOnOverflow data* robot"
# class of the original: what its clone() carries over; '?' only when asked for, '*' as a copy of its own
CARRIED = {
    V + "SceneObject": "visualizationModel* collisionModel* physics globalPose",
    V + "Obstacle": "visualizationModel* collisionModel* physics globalPose",
    V + "ManipulationObject": "visualizationModel* collisionModel* physics globalPose graspSets*",
    V + "RobotNodeRevolute": NODE + " jointRotationAxis|optionalDHParameter",
    V + "RobotNodePrismatic": NODE + " jointTranslationDirection|optionalDHParameter visuScaleFactor|visuScaling",
    V + "RobotNodeFixed": "maxVelocity maxAcceleration maxTorque localTransformation|optionalDHParameter propagatedJointValues nodeType optionalDHParameter name physics visualizationModel* collisionModel* children?",
    V + "CameraSensor": "rnTransformation name visualizationModel*",
    V + "PositionSensor": "rnTransformation name visualizationModel*",
    V + "ForceTorqueSensor": "rnTransformation name",
    V + "ContactSensor": "name",
    V + "Grasp": "eefConfiguration poseTcp robotType eef name creation quality preshape",
    V + "GraspSet": "grasps* name robotType eef",
    V + "EndEffector": "name actors* statics baseNode tcpNode gcpNode preshapes",
    V + "EndEffectorActor": "name actors",
    V + "RobotConfig": "name configs tcpNode robot",
    V + "RobotNodeSet": "name robotNodes kinematicRoot tcp",
    V + "SceneObjectSet": "sceneObjects colChecker~",
    V + "LocalRobot": "robotNodeSetMap? endEffectorMap? type filename globalPose rootNode " + "joint_values?",
    V + "Trajectory": "rns name path",
    V + "CollisionModel": "name id margin origVisualization* globalPose updateVisualization",
    V + "CollisionModelPQP": "pqpModel",
    V + "TriMeshModel": "normals vertices colors materials faces boundingBox",
    V + "VisualizationNode": "updateVisualization filename boundingBox primitives",
    V + "CoinVisualizationNode": "visualization updateVisualization globalPose filename boundingBox attachedVisualizations* primitives",
    V + "WorkspaceRepresentation": SPACE,
    V + "Reachability": SPACE,
    V + "Manipulability": SPACE + " measure considerSelfDist selfDistStatic selfDistDynamic selfDistAlpha selfDistBeta maxManip measureName considerJL",
    V + "WorkspaceDataArray": "sizes data minValidValue maxEntry voxelFilledCount adjustOnOverflow",
    V + "PoseQualityMeasurement": "rns considerObstacle obstacleDir",
    V + "PoseQualityManipulability": "rns manipulabilityType penJointLimits penJointLimits_k considerObstacle obstacleDir",
    V + "PoseQualityExtendedManipulability": "rns manipulabilityType penJointLimits penJointLimits_k considerObstacle obstacleDir obstacle_alpha obstacle_beta",
    "Saba::CSpacePath": "cspace name path",
    "Saba::CSpaceSampled": "maxNodes boundaryMin boundaryMax metricWeights|useMetricWeights samplingSizePaths samplingSizeDCD",
}


def entries(db):
    for f in sorted(db.funcs.values(), key=lambda f: (f.file, f.line)):
        if f.cls and f.q.endswith("::clone") and f.info.get("acc") == "public" and f.cls.startswith(("VirtualRobot::", "Saba::")):
            if f.info.get("static") or len(f.blocks) <= 6 and all(n[0] in ("N", "L", "P", "K", "T", "C", "DS", "V", "R", "thr", "U") and not COPY.search(str(n[3]) if n[0] == "C" else "") and n[0] != "new" for n in all_nodes(f)):
                continue  # refuses
            for d in sorted(CARRIED):
                if (d == f.cls or f.cls in db.bases(d)) and not any(g.q == d + "::clone" or g.q.endswith("::clone") and g.cls != f.cls and g.cls in db.bases(d) and f.cls in db.bases(g.cls) for g in db.funcs.values() if d != f.cls):
                    yield d, f


def fields(db, d):
    for c in [d] + list(db.bases(d)):
        for x in (db.classes.get(c) or {}).get("fields", ()):
            yield c + "::" + x["n"]


def find_field(db, d, n):
    for c in [d] + list(db.bases(d)):
        for x in (db.classes.get(c) or {}).get("fields", ()):
            if x["n"] == n:
                return c + "::" + n
    return None


def run(db, tier):
    res = Result()
    F = Flow(db)
    seen = set()
    for d, f in entries(db):
        if (d, f.id) in seen:
            continue
        seen.add((d, f.id))
        res.count("clone_functions")
        t = F.transfers(f, d)
        if any(x[0] == "*" for x in t):
            res.count("copied_as_a_whole")
            continue
        env = F.env(f)
        for a in CARRIED[d].split():
            n, guards = a.rstrip("?*~").split("|")[0], a.rstrip("?*~").split("|")[1:]
            fl = JOINTS if n == "joint_values" else find_field(db, d, n)
            if fl is None:
                continue
            res.count("attributes")
            own_ = [x for x in t if x[0] == fl and (("F", fl) in x[2] or ("C", fl) in x[2] or a.endswith("~") and any(s[0] == "P" for s in x[2]))]
            cls = d.split("::")[-1]
            if not own_:
                res.add(f, f.where(), "%s %s lost" % (cls, n), "a clone of a %s does not take over %s of the original" % (cls, n))
                continue
            if a.endswith("*"):
                sh = [x for x in own_ if ("S", fl) in x[2] or ("F", fl) in x[2] and ("C", fl) not in x[2]]
                if sh:
                    res.add(f, f.where(sh[0][3]), "%s %s shared" % (cls, n), "a clone of a %s shares %s with the original instead of getting a copy of its own" % (cls, n))
            if not a.endswith("?"):
                res.count("paths_covered")
                p = skipping(F, f, d, env, {x[1] for x in own_}, {fl} | {find_field(db, d, g) for g in guards})
                if p:
                    res.add(f, f.where(p), "%s %s not always" % (cls, n), "on a path to this return the clone of a %s does not take over %s of the original" % (cls, n))
    res.floors = {"clone_functions": 15, "attributes": 130, "paths_covered": 120}
    return res


def skipping(F, f, d, env, via, guards, given=None):
    """line of a return of the new object that is reached without passing one of the blocks, not counting decisions made on the attribute itself"""
    objs = set(given or ())
    for _, e in elems(F.db, f):
        for n in walk(e):
            if n[0] == "DS":
                objs |= {v[0] for v in n[3] if v[1] and F.creates(f, v[1], d)}
            elif n[0] == "A" and strip(n[4])[0] == "V" and F.creates(f, n[5], d):
                objs.add(strip(n[4])[3])
            elif n[0] == "C" and n[4] is not None and strip(n[4])[0] == "V" and n[5] and F.creates(f, n[5][0], d):
                objs.add(strip(n[4])[3])
    todo, done = [f.entry], set()
    while todo:
        b = todo.pop()
        if b in done or b in via or b is None:
            continue
        done.add(b)
        B = f.blocks[b]
        if given is not None and b == f.exit:
            return f.line
        if any(n[0] == "thr" for e in B["e"] for n in walk(e)):
            continue
        for e in B["e"]:
            if given is None and e[0] == "R" and e[3] and (mentions_var(e[3], objs) or F.creates(f, e[3], d)):
                return e[2]
        succ = list(B["s"])
        c = B.get("c")
        if c and len(succ) == 2:
            while strip(c)[0] == "B" and strip(c)[3] in ("&&", "||"):  # the left side was decided before
                c = strip(c)[5]
            o = {s[1] for s in F.orig(f, c, env) if s[0] in ("F", "C")}
            if o & guards:  # the attribute itself decides: only the sides that may still hand it over
                succ = [x for x in succ if x is not None and reaches(f, x, via)]
                todo += succ
                continue
            x, neg = strip(c), False
            while x[0] == "U" and x[3] == "!" or x[0] == "C" and re.search(r"operator (bool|!)|@F@operator!#", x[3]):
                neg ^= x[0] == "U" or "operator!" in x[3]
                x = strip(x[4])
            if base(x)[0] == "V" and base(x)[3] in objs:  # creation failed
                succ = succ[1:] if neg else succ[:1]
        todo += [s for s in succ if s is not None]
    return None


def reaches(f, b, via):
    todo, done = [b], set()
    while todo:
        b = todo.pop()
        if b in via:
            return True
        if b is not None and b not in done:
            done.add(b)
            todo += f.blocks[b]["s"]
    return False
