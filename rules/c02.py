from locks import *
GLOBS = ALL
EXPLANATION = """(1) Balance: every function of the code base that locks or unlocks a mutex explicitly is followed along all control-flow paths
(helpers inlined; non-public helpers that leave a mutex locked are judged in their callers): at every exit (return, explicitly thrown error) no mutex taken by the operation is still held, none is released
that is not held, and no non-recursive mutex is taken twice. (2) Guarded state: the running/finished flags and result of the planning and post-processing threads, the grasp
list filled by the grasp planner (writes everywhere, reads outside the planning thread), the robot configuration plus collision query of a multi-threaded
configuration space (one critical section), and the non-reentrant convex hull library are only touched with the mutex held."""
S = "Saba::"
THREAD = {S + "PlanningThread::threadStarted", S + "PlanningThread::plannerFinished", S + "PathProcessingThread::threadStarted",
          S + "PathProcessingThread::processingFinished", S + "PathProcessingThread::resultPath"}
GRASPS = S + "GraspRrt::grasps"


def is_mutex_call(db, x):
    if x[0] != "C" or not x[4]:
        return False
    i = db.fns.get(x[3])
    if not i:
        return False
    n = i["q"].rsplit("::", 1)[-1]
    return n in ("lock", "unlock", "try_lock") and bool(MUTEX.search(i.get("cls") or "")) and not GUARD.search(i.get("cls") or "")


class Balance(LockSet):
    def __init__(self, rel):
        self.focus = rel

    def relevant(self, eng, usr, info):
        return usr in self.focus

    def on_call(self, eng, st, c):
        r = LockSet.on_call(self, eng, st, c)
        if r == "skip" and c.name in ("lock", "unlock"):
            eng.obligations += 1
        return r

    def bad_unlock(self, eng, st, c):
        eng.report(st, c.ctx, c.line, "unlock without lock", "releases a mutex that is not held")

    def bad_lock(self, eng, st, c):
        eng.report(st, c.ctx, c.line, "lock twice", "takes a mutex that this operation already holds (self-deadlock)")


class CSpaceSection(LockSet):
    """multi-threaded configuration spaces: set configuration + collision query in one critical section"""
    def __init__(self, rel):
        self.focus = rel

    def initial(self):
        return ((), False)

    def relevant(self, eng, usr, info):
        return usr in self.focus

    def atomic(self, eng, usr, info):
        n = info["q"].rsplit("::", 1)[-1]
        return n in ("isInCollision", "getDistance", "setJointValues")

    def mutex_op(self, eng, st, c, rec):
        locks, was = st.auto
        a = dict(locks)
        a[c.recv] = min(a.get(c.recv, 0) + (1 if c.name != "unlock" else -1), 2)
        st.auto = (tuple(sorted(((k, v) for k, v in a.items() if v > 0), key=lambda i: ordk(i[0]))), was if c.name != "unlock" else False)
        st.touch()

    def single(self, st):
        f = [p for t, p in st.facts.items() if t[0] == "t" and mentions(t, lambda x: isinstance(x, tuple) and len(x) == 3 and x[0] == "f" and str(x[2]).endswith("CSpace::multiThreaded"))]
        return bool(f) and f[0] is False

    def on_call(self, eng, st, c):
        r = LockSet.on_call(self, eng, st, c)
        if c.info is None:
            return r
        cls = c.info.get("cls") or ""
        inst = c.name == "setJointValues" and cls in ("VirtualRobot::Robot", "VirtualRobot::RobotNodeSet")
        q = c.name in ("isInCollision", "getDistance") and cls == "VirtualRobot::CDManager"
        if inst or q:
            eng.obligations += 1
            if not self.single(st):
                if not st.auto[0] and not any(True for _ in self.guards(st)):
                    eng.report(st, c.ctx, c.line, "unlocked " + c.name, "calls %s without the collision-check mutex although the space may be multi-threaded" % c.name)
                elif q and not st.auto[1]:
                    eng.report(st, c.ctx, c.line, "split section " + c.name, "queries collisions in a critical section that did not set the configuration")
            if inst:
                st.auto = (st.auto[0], True)
                st.touch()
        return r


class Grasps(LockSet):
    def __init__(self, rel, reads):
        self.focus, self.reads = rel, reads

    def relevant(self, eng, usr, info):
        return usr in self.focus

    def on_assign(self, eng, st, ctx, lv, val, node):
        if lv is not None and lv[0] == "f" and lv[2] == GRASPS:
            eng.obligations += 1
            if not self.held(st):
                eng.report(st, ctx, node[2], "unlocked write grasps", "changes the grasp list without holding the mutex")

    def on_elem(self, eng, st, ctx, e):
        if self.reads and e[0] != "dtor":
            for x in walk(e):
                if x[0] == "M" and x[4] == GRASPS:
                    eng.obligations += 1
                    if not self.held(st):
                        eng.report(st, ctx, x[2] or e[2], "unlocked access grasps", "accesses the grasp list without holding the mutex")


class Hull(LockSet):
    def __init__(self, rel):
        self.focus = rel

    def relevant(self, eng, usr, info):
        return usr in self.focus

    def on_call(self, eng, st, c):
        r = LockSet.on_call(self, eng, st, c)
        if c.info is not None and c.recv is None and c.name.startswith("qh_"):
            eng.obligations += 1
            if not self.held(st):
                p = [x for x in eng.entry_ctx.fn.params if (eng.entry_ctx.fn.vars.get(x) or {}).get("t") == "bool"]
                if not any(eng.decide(st, truth(("param", x))) is False for x in p):
                    eng.report(st, c.ctx, c.line, "unlocked hull library call", "enters the non-reentrant convex hull library without the mutex")
        return r


def run(db, tier):
    res = Result()
    direct = {u for u, f in db.funcs.items() if any(is_mutex_call(db, x) for x in calls(f))}
    rel = reach(db, lambda f: f.id in direct)
    callers = {}
    for u, f in db.funcs.items():
        for x in calls(f):
            callers.setdefault(x[3], set()).add(u)
    todo, done = sorted(direct, key=lambda u: (db.funcs[u].file, db.funcs[u].line)), set()
    while todo:
        u = todo.pop(0)
        if u in done:
            continue
        done.add(u)
        f = db.funcs[u]
        if f.name in ("lock", "unlock", "try_lock"):
            # the lock API itself: its callers are judged
            todo += sorted(callers.get(u, ()))
            res.count("lock_api_functions")
            continue
        eng = Engine(db, Balance(rel))
        exits = eng.run(f)
        bad = [(k, st) for k, st, v in exits if st.auto and k != "noret"]
        if (bad or eng.reports) and not is_public(f) and callers.get(u):
            todo += sorted(callers[u])
            res.count("judged_in_callers")
            continue
        res.take(eng)
        res.count("functions_with_explicit_locking")
        res.count("lock_operations", eng.obligations)
        res.count("exits_checked", len(exits))
        res.sample({"function": f.sig(), "exits": len(exits)})
        for k, st in bad[:1]:
            res.add(f, f.where(), "mutex still held", "a %s path leaves a mutex locked" % ("throwing" if k == "throw" else "returning"), st.steps())
    # guarded state
    relt = reach(db, lambda f: any(x[0] == "M" and x[4] in THREAD for x in all_nodes(f)))
    for f in db.funcs.values():
        if f.cls in (S + "PlanningThread", S + "PathProcessingThread") and not f.info.get("ctor") and f.id in relt and (is_public(f) or f.name == "workingMethod"):
            eng = Engine(db, Guarded(THREAD, relt, "the thread's mutex"))
            eng.run(f)
            res.take(eng)
            res.count("thread_state_accesses", eng.obligations)
    relc = reach(db, callee_in(db, {"isInCollision", "getDistance"}, {"VirtualRobot::CDManager"}))
    for f in db.funcs.values():
        if f.cls and f.cls in [S + "CSpace"] + [c for c in db.derived(S + "CSpace")] and callee_in(db, {"isInCollision", "getDistance"}, {"VirtualRobot::CDManager"})(f) and is_public(f):
            eng = Engine(db, CSpaceSection(relc))
            eng.run(f)
            res.take(eng)
            res.count("collision_section_calls", eng.obligations)
    relg = reach(db, lambda f: any(x[0] == "M" and x[4] == GRASPS for x in all_nodes(f)))
    for f in db.funcs.values():
        if f.cls == S + "GraspRrt" and f.id in relg and not f.info.get("ctor") and not f.info.get("dtor") and is_public(f):
            eng = Engine(db, Grasps(relg, f.name != "plan"))
            eng.run(f)
            res.take(eng)
            res.count("grasp_list_accesses", eng.obligations)
    relh = reach(db, lambda f: any(x[0] == "C" and x[4] is None and x[3] in db.fns and db.fns[x[3]]["q"].startswith("qh_") for x in calls(f)))
    for f in db.funcs.values():
        if (f.cls or "").endswith("ConvexHullGenerator") and f.id in relh and is_public(f):
            eng = Engine(db, Hull(relh))
            eng.run(f)
            res.take(eng)
            res.count("hull_library_calls", eng.obligations)
    res.floors = {"functions_with_explicit_locking": 8, "thread_state_accesses": 8, "collision_section_calls": 4, "grasp_list_accesses": 4, "hull_library_calls": 4}
    return res
