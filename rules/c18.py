from lib import *
from forall import *
GLOBS = ALL
EXPLANATION = """Propagation of poses, decided path by path with helpers inlined. (1) Every operation that sets a joint value without update ends, on every successful way out, with the update of the kinematic structure
(the changed node, the kinematic root or root node, or the robot's applyJointValues) after the last change. (2) Every operation that changes an object's pose hands the new pose to its visualization and
collision model unless the object has none or the respective update is switched off. (3) Updating a pose recomputes it first (nodes), reaches every child with the object's new pose if children are to be updated, and
sets every propagated joint. (4) The computed pose depends on the parent pose, the local transformation and, for moving joints, on axis, joint value and offset. (5) A collision model forwards every pose to
its internal model and (unless switched off) to its visualization, and a newly attached or rebuilt model or visualization receives the current pose."""
V = "VirtualRobot::"
SO = V + "SceneObject::"
GP = SO + "globalPose"
UTM = "updateTransformationMatrices"
APPLY = {"applyJointValues", "applyJointValuesNoLock"}
CM = V + "CollisionModel::"


def family(db, cls, root):
    return cls in db.classes and root in db.bases(cls)


class Joints(Rule):
    """auto: tuple of nodes whose value was set without update"""
    cap = 12

    def __init__(self, focus):
        self.focus = focus

    def initial(self):
        return ()

    def relevant(self, eng, usr, info):
        return usr in self.focus

    def atomic(self, eng, usr, info):
        return info["q"].rsplit("::", 1)[-1] in ("setJointValueNoUpdate", "updatePose") or info["q"].rsplit("::", 1)[-1] in APPLY

    @staticmethod
    def key(eng, st, lv):
        return subst(lv, lambda x: x[0] in ("hv", "upd") and len(x) == 3, ("any",)) if lv else None

    def on_call(self, eng, st, c):
        if c.info is None or c.recv is None:
            return None
        cls = c.info.get("cls") or ""
        if c.name == "setJointValueNoUpdate":
            eng.obligations += 1
            k = self.key(eng, st, c.recv)
            if k not in st.auto:
                st.auto = tuple(sorted(st.auto + (k,), key=ordk))[:6]
                st.touch()
            return "skip"
        if c.name in APPLY:
            st.auto = ()
            st.touch()
            return "skip"
        if c.name == "setJointValue" and cls == V + "RobotNode":
            return "skip"
        if c.name == "updatePose" and st.auto:
            root = mentions(c.recv, lambda x: any(isinstance(y, str) and re.search(r"kinematicRoot|rootNode|get(Kinematic)?Root(Node)?\b", y) for y in x))
            flag = c.args[-1].val if c.args else K1
            off = eng.decide(st, truth(flag)) is not True and flag != K1 and c.args and "bool" in (c.info["p"][-1])
            if not off:
                if root:
                    st.auto = ()
                else:
                    k = self.key(eng, st, c.recv)
                    st.auto = tuple(x for x in st.auto if x != k)
                st.touch()
            return "skip"
        return None


class Push(Rule):
    """auto: pending obligations (object, kind): 'v' visualization, 'c' collision model, 's' pose not recomputed yet"""
    cap = 24
    edges = True
    KINDS = {"v": (SO + "visualizationModel", SO + "updateVisualization", "visualization"),
             "c": (SO + "collisionModel", SO + "updateCollisionModel", "collision model")}

    def __init__(self, focus):
        self.focus = focus

    def initial(self):
        return ()

    def relevant(self, eng, usr, info):
        return usr in self.focus

    def add(self, st, r, kinds):
        a = set(st.auto) | {(r, k) for k in kinds}
        st.auto = tuple(sorted(a, key=ordk))
        st.touch()

    def drop(self, st, r, kinds=None):
        a = tuple(x for x in st.auto if x[0] != r or kinds and x[1] not in kinds)
        if a != st.auto:
            st.auto = a
            st.touch()

    def on_assign(self, eng, st, ctx, lv, val, node):
        if lv is None or lv[0] != "f":
            return
        if lv[2] == GP:
            eng.obligations += 1
            self.drop(st, lv[1], "s")
            self.add(st, lv[1], "vc")
        elif lv[2] == SO + "visualizationModel":
            self.add(st, lv[1], "V")
        elif lv[2] == SO + "collisionModel":
            self.add(st, lv[1], "C")

    def on_call(self, eng, st, c):
        if c.info is None or c.recv is None:
            return None
        cls = c.info.get("cls") or ""
        R = c.recv
        if c.name == UTM and family(eng.db, cls, V + "RobotNode"):
            self.drop(st, R, "s")
            self.add(st, R, "vc")
            eng.havoc(st, ("f", R, GP), c.site)
            return "skip"
        if c.name == "setGlobalPose" and c.args and (family(eng.db, cls, V + "VisualizationNode") or cls == V + "CollisionModel"):
            k = "v" if cls != V + "CollisionModel" else "c"
            f = self.KINDS[k][0]
            a = eng.norm(st, c.args[0].lv) if getattr(c.args[0], "lv", None) else None
            for r in {x[0] for x in st.auto}:
                if R != ("d", eng.read(st, ("f", r, f))):
                    continue
                eng.obligations += 1
                gp = ("f", r, GP)
                if a != gp and c.args[0].val != eng.read(st, gp) and not (a and eng.read(st, a) == eng.read(st, gp)):
                    continue
                if any(x == (r, "s") for x in st.auto):
                    eng.report(st, c.ctx, c.line, "stale pose pushed", "hands the pose on before it has been recomputed")
                self.drop(st, r, k + k.upper())
            return "skip"
        if c.name == "updatePose" and family(eng.db, cls, V + "SceneObject"):
            self.drop(st, R)
            return "skip"
        if c.name in ("setUpdateVisualization", "getParent", "shared_from_this", "getRobot"):
            return "skip" if c.name == "setUpdateVisualization" else None
        return None

    def on_edge(self, eng, st, ctx, li, src, b):
        if st.auto:
            for r, k in st.auto:
                m, u, _ = self.KINDS.get(k.lower(), (None, None, None))
                if not m:
                    continue
                if eng.decide(st, truth(eng.read(st, ("f", r, m)))) is False or k.islower() and eng.decide(st, truth(eng.read(st, ("f", r, u)))) is False:
                    self.drop(st, r, k)
        return st


class Children(ForAll):
    depth = 3

    def __init__(self, focus):
        self.focus = focus

    def relevant(self, eng, usr, info):
        return usr in self.focus

    def on_call(self, eng, st, c):
        if c.info is None or c.recv is None:
            return None
        cls = c.info.get("cls") or ""
        if c.name == "updatePose" and family(eng.db, cls, V + "SceneObject") and c.recv != ("d", ("this",)) and len(c.args) == 2:
            eng.obligations += 1
            a = eng.norm(st, c.args[0].lv) if getattr(c.args[0], "lv", None) else None
            gp = ("f", ("d", ("this",)), GP)
            own = a == gp or c.args[0].val == eng.read(st, gp)
            rec = c.args[1].val == K1
            self.ev(eng, st, "child" if own and rec else "wrong child", (c.recv,))
            return "skip"
        if c.name == "setJointValue" and c.recv != ("d", ("this",)):
            eng.obligations += 1
            self.ev(eng, st, "propagate", (unhv(c.recv), unhv(c.args[0].val)))
            return "skip"
        if c.name == "getRobotNode":
            return "opaque"
        if c.name == UTM:
            return "skip"
        return None

    def excuse(self, eng, st, ctx, key):
        # the dependent joint does not exist
        return any(p is False and t[0] == "t" and mentions(t, lambda x: len(x) > 1 and x[0] == "call" and "getRobotNode" in str(x[1])) for t, p in st.facts.items())


def unhv(t):
    while isinstance(t, tuple) and len(t) == 3 and t[0] == "hv" and isinstance(t[2], tuple):
        t = ("init", t[2])
    if isinstance(t, tuple):
        return tuple(unhv(x) if isinstance(x, tuple) else x for x in t)
    return t


class Model(Rule):
    """collision model: auto = (internal model set to the new pose, visualization, original visualization, field)"""
    cap = 24

    def __init__(self, focus, param):
        self.focus, self.param = focus, param

    def initial(self):
        return ()

    def relevant(self, eng, usr, info):
        return usr in self.focus

    def on_assign(self, eng, st, ctx, lv, val, node):
        if lv == ("f", ("d", ("this",)), CM + "collisionModelImplementation"):
            eng.obligations += 1
            self.mark(st, "new", "impl")

    def mark(self, st, add, drop=None):
        st.auto = tuple(sorted((set(st.auto) - {drop}) | {add}))
        st.touch()

    def on_call(self, eng, st, c):
        if c.info is None or c.recv is None:
            return None
        this = ("d", ("this",))
        if c.name == "setGlobalPose" and c.args:
            a = eng.norm(st, c.args[0].lv) if getattr(c.args[0], "lv", None) else None
            want = (self.param, ("f", this, CM + "globalPose"))
            vals = [eng.read(st, w) for w in want if w]
            if a in want or c.args[0].val in vals:
                for f, n in (("collisionModelImplementation", "impl"), ("visualization", "vis"), ("origVisualization", "orig")):
                    if c.recv == ("d", eng.read(st, ("f", this, CM + f))):
                        self.mark(st, n, "new" if n == "impl" else None)
                return "skip"
        return None


def flows(db, fn, depth=3, seen=None):
    """fields and parameters whose content can reach SceneObject::globalPose in fn (flow-insensitive)"""
    seen = seen or set()
    if fn.id in seen:
        return set()
    seen = seen | {fn.id}
    deps = {}

    def leaves(e):
        out = set()
        for x in walk(e):
            if x[0] == "V":
                out.add(("v", x[3]))
            elif x[0] == "M":
                out.add(("f", x[4]))
            elif x[0] == "C" and x[3] in db.funcs and depth > 0:
                g = db.funcs[x[3]]
                if g.cls and fn.cls and g.cls in db.bases(fn.cls) and not x[5]:
                    for blk in g.blocks.values():
                        for y in blk["e"]:
                            if y[0] == "R" and y[3] is not None:
                                out |= {l for l in leaves(y[3]) if l[0] == "f"}
        return out

    for blk in fn.blocks.values():
        for e in blk["e"]:
            for x in walk(e):
                if x[0] == "A":
                    t = leaves(x[4]) if x[4] else set()
                    for l in t:
                        deps.setdefault(l, set()).update(leaves(x[5]))
                elif x[0] == "DS":
                    for d in x[3]:
                        if d[1] is not None:
                            deps.setdefault(("v", d[0]), set()).update(leaves(d[1]))
                elif x[0] == "C" and x[4] is not None and not (db.fns.get(x[3]) or {}).get("const"):
                    s = set()
                    for a in x[5]:
                        s |= leaves(a)
                    for l in leaves(x[4]):
                        deps.setdefault(l, set()).update(s)
    got, work = set(), [("f", GP)]
    while work:
        x = work.pop()
        for y in deps.get(x, ()):
            if y not in got:
                got.add(y)
                work.append(y)
    return got


def run(db, tier):
    res = Result()
    this = ("d", ("this",))
    # (1) joint values set without update
    exempt = {"setJointValueNoUpdate"}
    direct = [f for f in db.funcs.values() if callee_in(db, {"setJointValueNoUpdate"})(f)]
    actuators = {f.id for f in direct if f.cls == V + "RobotNodeActuator"}
    focus = {f.id for f in direct}
    for f in sorted(direct, key=lambda f: f.id):
        if f.name in exempt or f.id in actuators or f.lambda_parent:
            continue
        eng = Engine(db, Joints(focus))
        for k, st, v in eng.run(f):
            if k != "ret":
                continue
            res.count("exits_checked")
            fail = v and v[0] == "valret" and v[1] == K0 and f.info["ret"] == "bool"
            if st.auto and not fail:
                res.add(f, f.where(), "joint values not applied", "a successful path sets joint values without updating the poses afterwards", st.steps())
        res.take(eng)
        res.count("joint_setters")
        res.count("joint_writes", eng.obligations)
    # (2) pose writers
    fam = [f for f in db.funcs.values() if f.cls and family(db, f.cls, V + "SceneObject")]
    pushers = {f.id for f in fam if f.name in ("updatePose", "updateVisualizationPose", "copyPoseFrom", "setVisualization", "setCollisionModel")}
    writers = [f for f in fam if writes(db, f, GP) or f.name == "updatePose" or writes(db, f, SO + "visualizationModel") or writes(db, f, SO + "collisionModel") or calls_utm(db, f)]
    for f in sorted(writers, key=lambda f: f.id):
        if f.name == f.cls.rsplit("::", 1)[-1] or f.name == UTM or f.info.get("static") or f.name.startswith("~"):
            continue
        if family(db, f.cls, V + "Robot"):
            continue
        if f.name in ("_clone", "clone"):
            continue
        r = Push({f.id for f in fam if f.info.get("acc") != "public" and f.name != "updatePose" and f.name != UTM})
        eng = Engine(db, r)
        start = ()
        if f.name == "updatePose" and len(f.params) == 1:
            start = ((this, "c"), (this, "v"))
            if family(db, f.cls, V + "RobotNode") or family(db, f.cls, V + "Sensor"):
                start = ((this, "c"), (this, "s"), (this, "v"))
        for k, st, v in eng.run(f, auto=start):
            if k != "ret":
                continue
            res.count("exits_checked")
            st = r.on_edge(eng, st, None, None, None, None)
            for o, kd in st.auto:
                if kd == "s":
                    res.add(f, f.where(), "pose not recomputed", "the pose is not recomputed", st.steps())
                elif kd in "vc":
                    res.add(f, f.where(), "pose not given to the " + Push.KINDS[kd][2], "the pose may change without the %s following" % Push.KINDS[kd][2], st.steps())
                else:
                    res.add(f, f.where(), "attached " + Push.KINDS[kd.lower()][2] + " not placed", "a newly attached %s does not receive the current pose" % Push.KINDS[kd.lower()][2], st.steps())
        res.take(eng)
        res.count("pose_writers")
        res.count("pose_obligations", eng.obligations)
    # (3) children and propagated joints
    upd = [f for f in fam if f.name == "updatePose" and len(f.params) == 1]
    for f in sorted(upd, key=lambda f: f.id):
        rule = Children({g.id for g in upd})
        eng = Engine(db, rule)
        p = ("v", (), f.params[0])
        for k, st, v in eng.run(f):
            if k != "ret":
                continue
            res.count("exits_checked")
            kids = ("init", ("f", this, SO + "children"))
            up = eng.decide(st, truth(("param", f.params[0]))) is not False
            if up and not any(ev[0] in ("child", "#empty") and mentions(ev, lambda t: t == SO + "children" or (len(t) == 3 and t[0] == "f" and t[2] == SO + "children")) for ev in rule.events(st)):
                res.add(f, f.where(), "not every child", "not every child is given the new pose", st.steps())
            if any(ev[0] == "wrong child" for ev in rule.events(st)):
                res.add(f, f.where(), "child pose", "a child is not updated with the object's own pose", st.steps())
            if family(db, f.cls, V + "RobotNode"):
                pj = V + "RobotNode::propagatedJointValues"
                ok = any(ev[0] in ("propagate", "#empty") and mentions(ev, lambda t: len(t) == 3 and t[0] == "f" and t[2] == pj) for ev in rule.events(st))
                if not ok and not st_empty(eng, st, pj):
                    res.add(f, f.where(), "not every propagated joint", "not every propagated joint value is set", st.steps())
        res.take(eng)
        res.count("update_functions")
    # (4) what the computed pose depends on
    for f in sorted(fam, key=lambda f: f.id):
        if f.name != UTM or len(f.params) != 1:
            continue
        got = flows(db, f)
        want = [("v", f.params[0])] + [("f", V + "RobotNode::localTransformation")]
        c = f.cls.rsplit("::", 1)[-1]
        if c == "RobotNodeRevolute":
            want += [("f", V + "RobotNode::jointValue"), ("f", V + "RobotNode::jointValueOffset"), ("f", V + "RobotNodeRevolute::jointRotationAxis")]
        if c == "RobotNodePrismatic":
            want += [("f", V + "RobotNode::jointValue"), ("f", V + "RobotNode::jointValueOffset"), ("f", V + "RobotNodePrismatic::jointTranslationDirection")]
        for w in want:
            res.count("pose_inputs")
            if w not in got:
                n = "parent pose" if w[0] == "v" else w[1].rsplit("::", 1)[-1]
                res.add(f, f.where(), "pose ignores " + n, "the computed pose does not depend on " + n)
    # (5) collision models
    for f in sorted((f for f in db.funcs.values() if f.cls == V + "CollisionModel"), key=lambda f: f.id):
        ctor = f.name == "CollisionModel"
        if f.name == "setGlobalPose":
            rule = Model(set(), ("d", ("param", f.params[0])))
            eng = Engine(db, rule)
            for k, st, v in eng.run(f):
                if k != "ret":
                    continue
                res.count("exits_checked")
                if "impl" not in st.auto:
                    res.add(f, f.where(), "internal model not moved", "the internal collision model does not receive the pose", st.steps())
                off = any(eng.decide(st, truth(eng.read(st, ("f", this, CM + x)))) is False for x in ("visualization", "updateVisualization"))
                if not off and not {"vis", "orig"} <= set(st.auto):
                    res.add(f, f.where(), "visualization not moved", "the visualization of the collision model does not receive the pose", st.steps())
            res.count("model_functions")
        elif writes(db, f, CM + "collisionModelImplementation") and not ctor:
            rule = Model(set(), None)
            eng = Engine(db, rule)
            for k, st, v in eng.run(f):
                if k != "ret":
                    continue
                res.count("exits_checked")
                if "new" in st.auto:
                    res.add(f, f.where(), "rebuilt model not placed", "a rebuilt internal collision model does not receive the current pose", st.steps())
            res.count("model_functions")
    res.floors = {"joint_setters": 4, "pose_writers": 5, "update_functions": 2, "pose_inputs": 6, "model_functions": 1}
    return res


def st_empty(eng, st, field):
    """the container is known to be empty on this path"""
    found = set()
    for t in st.facts:
        mentions(t, lambda x: len(x) == 2 and x[0] == "size" and mentions(x, lambda y: len(y) == 3 and y[0] == "f" and y[2] == field) and found.add(x))
    return any(eng.decide(st, truth(x)) is False or eng.decide(st, ("<", K0, x, "i")) is False for x in found)


def writes(db, f, field):
    for b in f.blocks.values():
        for e in b["e"]:
            for x in walk(e):
                if x[0] == "A" and x[4] and x[4][0] == "M" and x[4][4] == field:
                    return True
                if x[0] == "C" and x[4] and x[4][0] == "M" and x[4][4] == field:
                    n = (db.fns.get(x[3]) or {}).get("q", "").rsplit("::", 1)[-1]
                    if n in ("operator=", "reset", "swap"):
                        return True
    return False


def calls_utm(db, f):
    return f.name != UTM and callee_in(db, {UTM})(f)
