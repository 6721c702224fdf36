from locks import *
GLOBS = ["SimDynamics/*.cpp", "SimDynamics/*/*.cpp", "SimDynamics/*/*/*.cpp"]
EXPLANATION = """Lockset analysis of every public operation of the physics engine, its robots and objects: along all control-flow paths (helpers
inlined, callee dispatch resolved) each access to the registries (objects, robots, links, collision tables, floor, callbacks, actuation targets and
controllers), the physics world, its clock and the rigid bodies happens while a guard obtained from the engine lock lives in a local variable. The lock
factories are checked to return a locked guard on the engine mutex whenever one is set, and registering an object or robot is checked to hand it the engine's mutex."""
NS = "SimDynamics::"
CLASSES = ["DynamicsEngine", "DynamicsRobot", "DynamicsObject", "BulletEngine", "BulletRobot", "BulletObject"]
FIELDS = {NS + x for x in ["DynamicsEngine::objects", "DynamicsEngine::robots", "DynamicsEngine::collisionDisabled", "DynamicsEngine::collisionToAllDisabled",
                           "DynamicsEngine::floor", "DynamicsEngine::floorPos", "DynamicsEngine::floorUp", "DynamicsEngine::floorExtendMM", "DynamicsEngine::floorDepthMM",
                           "DynamicsRobot::actuationTargets", "DynamicsRobot::actuationControllers", "DynamicsRobot::dynamicRobotNodes", "DynamicsRobot::PID_p",
                           "DynamicsRobot::PID_i", "DynamicsRobot::PID_d",
                           "BulletRobot::links", "BulletEngine::callbacks", "BulletEngine::dynamicsWorld", "BulletEngine::simTime", "BulletObject::rigidBody"]}
# raw accessors: they hand out the protected thing itself (a pointer set up by the constructor, or a reference), the caller locks while using it
RAW = {NS + "BulletEngine::getBulletWorld", NS + "BulletObject::getRigidBody", NS + "DynamicsRobot::getControllers"}
MTX = ("DynamicsEngine::engineMutexPtr", "DynamicsRobot::engineMutexPtr", "DynamicsObject::engineMutexPtr", "BulletCoinQtViewer::engineMutexPtr")


class Factory(Rule):
    depth = 4


class Hand(Rule):
    """addObject/addRobot hand the engine's mutex to what they register"""
    depth = 4

    def initial(self):
        return False

    def on_call(self, eng, st, c):
        if c.name == "setMutex" and c.recv is not None and len(c.args) == 1 and mentions(c.recv, lambda x: bool(x) and x[0] == "param") \
                and mentions(c.args[0].val, lambda x: isinstance(x, tuple) and len(x) == 3 and x[0] == "f" and x[2] == NS + MTX[0]):
            st.auto = True
            st.touch()
        return None


def is_guard_value(v):
    return mentions(v, lambda x: bool(x) and (x[0] == "new" and len(x) > 2 and GUARD.search(str(x[2])) or x[0] == "ctor" and len(x) > 2 and GUARD.search(str(x[1])) and not SMART.match(str(x[1]))))


def run(db, tier):
    res = Result()
    rel = reach(db, lambda f: any(x[0] == "M" and x[4] in FIELDS for x in all_nodes(f)))
    for f in sorted(db.funcs.values(), key=lambda f: (f.file, f.line)):
        c = f.cls or ""
        if f.name == "getScopedLock" and c.startswith(NS):
            e2 = Engine(db, Factory())
            for kind, st, v in e2.run(f):
                if kind != "ret":
                    continue
                res.count("lock_factory_paths")
                val = v[1] if v and v[0] == "valret" else e2.read(st, v[1]) if v else None
                null = [p for t, p in st.facts.items() if t[0] == "t" and mentions(t, lambda x: isinstance(x, tuple) and len(x) == 3 and x[0] == "f" and str(x[2]).endswith("::engineMutexPtr"))]
                if not (val is not None and is_guard_value(val)) and not (null and null[0] is False):
                    res.add(f, f.where(), "factory returns no guard", "may return without a locked guard although an engine mutex is set", st.steps())
            continue
        if not c.startswith(NS) or c[len(NS):] not in CLASSES or f.info.get("ctor") or f.info.get("dtor") or not is_public(f):
            continue
        res.count("public_operations")
        if f.q == NS + "DynamicsEngine::addObject" or f.q == NS + "DynamicsEngine::addRobot":
            e3 = Engine(db, Hand())
            for kind, st, v in e3.run(f):
                if kind == "ret" and v and not (v[0] == "valret" and v[1] == ("k", 0)):
                    res.count("registration_paths")
                    if not st.auto:
                        res.add(f, f.where(), "mutex not handed over", "can report success without giving the registered element the engine's mutex", st.steps())
        if f.q in RAW or f.id not in rel:
            continue
        eng = Engine(db, Guarded(FIELDS, rel, "the engine lock"))
        eng.run(f)
        res.take(eng)
        res.count("obligations", eng.obligations)
        if eng.obligations:
            res.count("operations_with_shared_access")
            res.sample({"entry": f.sig(), "obligations": eng.obligations})
    res.floors = {"public_operations": 100, "operations_with_shared_access": 40, "lock_factory_paths": 2, "registration_paths": 2}
    return res
