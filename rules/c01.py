from lib import *
GLOBS = ["VirtualRobot/Robot.cpp", "VirtualRobot/RobotNodeSet.cpp", "VirtualRobot/RobotConfig.cpp", "VirtualRobot/SceneObject.cpp", "VirtualRobot/Nodes/*.cpp"]
EXPLANATION = """For every public operation of robots, robot nodes, node sets and robot configurations (outside the documented caller-locks tier) all
control-flow paths are followed, helpers inlined, and at each access to joint values or node/robot poses (field access, or call into the
caller-locks tier) a guard on the robot's mutex must be alive in a live local variable; a guard that is a discarded temporary does not count.
The lock factory functions and the guard's constructor are checked to really lock whenever the robot is thread-safe."""
CLASSES = ["Robot", "LocalRobot", "RobotNode", "RobotNodeRevolute", "RobotNodePrismatic", "RobotNodeFixed", "RobotNodeSet", "RobotConfig"]
# documented: "access must be protected by a WriteLock" - the caller holds the lock
TIER = {"setJointValueNoUpdate", "setJointValueNotInitialized", "updatePose", "updateTransformationMatrices", "updateVisualizationPose", "copyPoseFrom",
        "applyJointValuesNoLock", "initialize", "_clone"}
FIELDS = {"VirtualRobot::RobotNode::jointValue", "VirtualRobot::SceneObject::globalPose"}
GUARD = re.compile(r"(ConditionedLock|unique_lock|lock_guard|scoped_lock)\b")
NS = "VirtualRobot::"


def origins(t):
    r = set()

    def f(x):
        if x and x[0] == "param":
            r.add(x[1])
        if x == ("this",):
            r.add("this")
        return False
    mentions(t, f)
    return r


class Lock(Rule):
    depth = 5

    def __init__(self, res, rel):
        self.res, self.rel, self.focus = res, rel, rel

    def initial(self):
        return 0

    def atomic(self, eng, usr, info):
        n = info["q"].rsplit("::", 1)[-1]
        return n in ("getReadLock", "getWriteLock") or n in TIER and (n in ("initialize", "_clone") or (info.get("cls") or "")[len(NS):] in CLASSES)

    def relevant(self, eng, usr, info):
        return usr in self.rel

    def guards(self, st):
        for k, v in st.env.items():
            if k[0] == "v" and v[0] == "lockv":
                yield v[1]
            elif k[0] == "v" and v[0] == "ctor" and GUARD.search(v[1]) and len(v) > 2:
                if any(mentions(a, lambda x: x and x[0] == "f" and isinstance(x[2], str) and x[2].endswith("::mutex")) for a in v[2:]):
                    yield v
            elif k[0] == "v" and v[0] == "new" and len(v) > 2 and GUARD.search(v[2]):
                yield ("this",)

    def held(self, eng, st, recv):
        if st.auto > 0:
            return True
        g = list(self.guards(st))
        if not g:
            return False
        if recv is None:
            return True
        ro = origins(recv)
        robots = {p for p in eng.entry_ctx.fn.params if "VirtualRobot::Robot>" in (eng.entry_ctx.fn.vars.get(p) or {}).get("t", "")}
        if ro and ro <= robots:
            return any(origins(x) & ro for x in g)
        return True

    def fresh(self, eng, st, lv):
        r = eng.root(lv) if lv is not None else None
        return r is not None and mentions(r, lambda x: x and x[0] == "new")

    def on_call(self, eng, st, c):
        if c.info is None:
            return None
        if c.name in ("getReadLock", "getWriteLock") and c.recv is not None:
            return [(st, ("val", ("lockv", c.recv)))]
        if c.name in ("lock", "unlock") and c.recv is not None and c.recv[0] == "f" and c.recv[2].endswith("Robot::mutex"):
            st.auto += 1 if c.name == "lock" else -1
            st.touch()
            return None
        if c.recv is not None and c.name in TIER and (c.info.get("cls") or "")[len(NS):] in CLASSES + ["SceneObject"] and c.name not in ("initialize", "_clone"):
            if c.name == "updatePose" and c.info["cls"] == NS + "SceneObject":
                return None
            if not self.fresh(eng, st, c.recv):
                eng.obligations += 1
                if not self.held(eng, st, c.recv):
                    eng.report(st, c.ctx, c.line, "unlocked call " + c.name, "calls %s without holding the robot's lock" % c.name)
        return None

    def on_elem(self, eng, st, ctx, e):
        if e[0] == "dtor":
            return
        for x in walk(e):
            if x[0] == "M" and x[4] in FIELDS:
                l = eng.norm(st, ("f", eng.lv(st, ctx, x[3]), x[4]))
                r = eng.root(l)
                if r[0] in ("v", "t") or self.fresh(eng, st, l):
                    continue
                if ctx.fn.cls == NS + "SceneObject":  # shared with plain scene objects, which have no lock: only when the object is known to be part of a robot
                    o = eng.lv(st, ctx, x[3])
                    c = eng.static_class(eng.norm(st, o))
                    if (c or "")[len(NS):] not in CLASSES:
                        continue
                eng.obligations += 1
                if not self.held(eng, st, None):
                    eng.report(st, ctx, x[2] or e[2], "unlocked access " + x[4].rsplit("::", 1)[-1],
                               "accesses %s without holding the robot's lock" % x[4].rsplit("::", 1)[-1])

    def on_dtor(self, eng, st, ctx, lv, line):
        v = st.env.get(lv)
        if v is not None and (v[0] in ("lockv",) or v[0] == "ctor" and GUARD.search(v[1])):
            st.env[lv] = ("k", 0)
            st.touch()


class LockFactory(Rule):
    """the value returned by getReadLock/getWriteLock is a guard on the robot's mutex unless locking is switched off"""
    def initial(self):
        return False

    def on_call(self, eng, st, c):
        if c.name == "ctor" and GUARD.search(c.node[4]) and c.args and not eng.is_smart(c.node[4]):
            ok = c.args[0].lv[0] == "f" and c.args[0].lv[2].endswith("Robot::mutex")
            if ok and len(c.args) > 1:
                v = c.args[1].val
                t = truth(v)
                ok = eng.decide(st, t) is True or v[0] == "init" and v[1][0] == "f" and v[1][2].endswith("::use_mutex")
            if ok:
                st.auto = True
                st.touch()
        return None


class GuardCtor(Rule):
    def initial(self):
        return False

    def on_call(self, eng, st, c):
        if c.name == "lock":
            st.auto = True
            st.touch()
        if c.name == "ctor" and "unique_lock" in c.node[4] and len(c.args) == 1 and len(c.node) < 7:
            st.auto = True
            st.touch()
        return None


def run(db, tier):
    res = Result()
    entries = []
    for f in db.funcs.values():
        c = (f.cls or "")
        if not c.startswith(NS) or c[len(NS):] not in CLASSES or not is_public(f) or f.info.get("ctor") or f.info.get("dtor"):
            continue
        if f.name in TIER:
            continue
        entries.append(f)
    if not entries:
        raise Broken("no public robot operations found")
    rel = reach(db, lambda f: f.name not in TIER and (any(x[0] == "M" and x[4] in FIELDS for x in all_nodes(f)) or callee_in(db, TIER - {"initialize", "_clone"})(f)))
    for f in sorted(entries, key=lambda f: (f.file, f.line)):
        rule = Lock(res, rel)
        if tier == "thorough":
            rule.depth = 7
        if f.name in ("getReadLock", "getWriteLock"):
            r2 = LockFactory()
            e2 = Engine(db, r2)
            for kind, st, v in e2.run(f):
                if kind != "ret":
                    continue
                res.count("lock_factory_paths")
                off = [p for t, p in st.facts.items() if t[0] == "t" and mentions(t, lambda x: x and x[0] == "f" and isinstance(x[2], str) and x[2].endswith("::use_mutex"))]
                if not st.auto and not (off and off[0] is False):
                    res.add(f, f.where(), "factory returns no guard", "may return without a guard on the robot's mutex although thread safety is on", st.steps())
            continue
        eng = Engine(db, rule)
        eng.run(f)
        res.take(eng)
        res.count("operations")
        res.count("obligations", eng.obligations)
        if eng.obligations:
            res.count("operations_with_shared_access")
            res.sample({"entry": f.sig(), "obligations": eng.obligations})
    n = 0
    for f in db.funcs.values():
        if f.cls and "ConditionedLock" in f.cls and f.info.get("ctor") and len(f.params) == 2:
            n += 1
            e3 = Engine(db, GuardCtor())
            for kind, st, v in e3.run(f):
                en = st.env.get(("v", (), f.params[1]))
                if kind == "ret" and not st.auto and e3.decide(st, truth(en)) is not False:
                    res.add(f, f.where(), "guard does not lock", "guard constructor can finish without locking although it is enabled", st.steps())
    res.stats["guard_constructors"] = n
    res.floors = {"operations": 60, "obligations": 20, "guard_constructors": 1, "lock_factory_paths": 2}
    return res
