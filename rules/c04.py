from lib import *
GLOBS = ALL
EXPLANATION = """Typestate analysis. (1) Every function that switches the visualization or collision-model update of a robot (setUpdateVisualization / setUpdateCollisionModel on anything but a robot it
created itself) is followed along all paths to every exit (return or explicitly raised error): the switch then has the value the getter delivered before the first change, or an equal one. (2) The operations
that move the robot only to probe it (workspace sampling, parameter estimation, workspace trajectory of a trajectory, IK without update, failed grasp IK, grasp robustness evaluation, trajectory drawing,
reachability grid filling) restore the joint values, the global poses and the swapped member they saved, from the value they saved before the first change, on every exit after it."""
SETTERS = {"setUpdateVisualization": "getUpdateVisualizationStatus", "setUpdateCollisionModel": "getUpdateCollisionModelStatus"}
GETTERS = {v: k for k, v in SETTERS.items()}
JV = "VirtualRobot::RobotNode::jointValue"
W = "VirtualRobot::"
# operation -> (what it must restore, on which exits)
PROBES = [
    ("VirtualRobot::Trajectory::createWorkspaceTrajectory", None, ("joints",), "all"),
    ("VirtualRobot::WorkspaceRepresentation::checkForParameters", None, ("joints", "field:VirtualRobot::WorkspaceRepresentation::baseNode"), "all"),
    ("VirtualRobot::WorkspaceRepresentation::addRandomTCPPoses", 2, ("joints",), "all"),
    ("VirtualRobot::Manipulability::checkForParameters", None, ("joints",), "all"),
    ("VirtualRobot::CoinVisualizationFactory::getCoinVisualization", "Trajectory", ("joints",), "all"),
    ("VirtualRobot::AdvancedIKSolver::solveNoRNSUpdate", None, ("joints",), "all"),
    ("VirtualRobot::AdvancedIKSolver::solve", "Grasp", ("joints",), "fail"),
    ("VirtualRobot::AdvancedIKSolver::sampleSolution", None, ("joints",), "fail"),
    ("GraspStudio::GraspEvaluationPoseUncertainty::evaluatePoses", 5, ("joints", "poses"), "all"),
    ("GraspStudio::GraspEvaluationPoseUncertainty::evaluateGrasp", None, ("joints", "poses"), "all"),
    ("VirtualRobot::WorkspaceGrid::fillGridData", "Matrix", ("poses",), "all"),
]
NONMOVING = re.compile(r"^(clone|_clone|clone\w+|create\w+)$")


def own_robot(t):
    """created here (a clone or a new object)"""
    return mentions(t, lambda x: x[:1] == ("new",)) or names(t, r"(^|[@_])_?clone")


class Flags(Rule):
    depth = 4

    def __init__(self, focus):
        self.focus = focus
        self.names = {}

    def initial(self):
        return ()

    def relevant(self, eng, usr, info):
        return usr in self.focus

    def atomic(self, eng, usr, info):
        n = info["q"].rsplit("::", 1)[-1]
        return n in SETTERS or n in GETTERS

    def slot(self, eng, st, c, name):
        r = c.recv
        return (name, r)

    def on_call(self, eng, st, c):
        if c.info is None or c.recv is None:
            return None
        if c.name in GETTERS and not c.args:
            s = self.slot(eng, st, c, GETTERS[c.name])
            cur = dict(st.auto).get(s)
            return [(st, ("val", cur if cur is not None else ("flag0",) + s))]
        if c.name in SETTERS and len(c.args) == 1:
            if own_robot(c.recv):
                return "skip"
            eng.obligations += 1
            s = self.slot(eng, st, c, c.name)
            if c.recv[0] == "d":
                st.facts[truth(c.recv[1])] = True
            a = dict(st.auto)
            a[s] = c.args[0].val
            st.auto = tuple(sorted(a.items(), key=lambda i: ordk(i[0])))
            st.touch()
            return "skip"
        return None


def restored(eng, st, slot, val):
    init = ("flag0",) + slot
    if val == init or val == ("t", init) or mentions(val, lambda x: isinstance(x, tuple) and bool(x) and x[0] == "param"):
        return True
    if isconst(val):
        k = eng.decide(st, truth(init))
        return k is not None and k == bool(val[1])
    return False


class Probe(Rule):
    """automaton: frozenset of dirty resources"""
    depth = 4

    def __init__(self, jw, focus, res):
        self.jw, self.focus, self.res = jw, focus, res

    def initial(self):
        return frozenset()

    def relevant(self, eng, usr, info):
        return usr in self.focus

    def mark(self, st, add=(), rem=()):
        st.auto = frozenset((set(st.auto) | set(add)) - set(rem))
        st.touch()

    def jval(self, st, what):
        return ("jv0" if "joints" not in st.auto else "jvlate", what)

    def on_call(self, eng, st, c):
        if c.info is None:
            return None
        n = c.name
        np_ = len(c.args)
        if "joints" in self.res and c.recv is not None:
            if n == "getJointValues" and eng.is_repo(c.usr):
                if np_ == 1:
                    eng.write(st, c.args[0].lv, self.jval(st, "rns"), c.site)
                    return [(st, ("val", ("unk",)))]
                return [(st, ("val", self.jval(st, "rns")))]
            if n in ("getConfig", "getConfiguration") and eng.is_repo(c.usr) and np_ == 0:
                return [(st, ("val", self.jval(st, "cfg")))]
            if n in ("setJointValues", "setConfig") and eng.is_repo(c.usr) and np_:
                v = c.args[-1].val if n == "setConfig" or np_ > 1 else c.args[0].val
                eng.obligations += 1
                if v[0] == "jv0":
                    self.mark(st, rem=["joints"])
                else:
                    self.mark(st, add=["joints"])
                return "skip"
        if "poses" in self.res and c.recv is not None and eng.is_repo(c.usr):
            if n == "getGlobalPose" and np_ == 0:
                return [(st, ("val", ("gp0" if ("pose", c.recv) not in st.auto else "gplate", c.recv)))]
            if n == "setGlobalPose" and np_ >= 1:
                v = c.args[0].val
                eng.obligations += 1
                if v == ("gp0", c.recv):
                    self.mark(st, rem=[("pose", c.recv)])
                else:
                    self.mark(st, add=[("pose", c.recv)])
                return "skip"
            if n in ("setGlobalPoseForRobotNode", "setGlobalPoseNoChecks") and np_:
                self.mark(st, add=[("pose", c.recv)])
                return "skip"
        if "joints" in self.res and c.usr in self.jw and not NONMOVING.match(n) and not eng.can_inline(c.ctx, c.usr):
            self.mark(st, add=["joints"])
        return None

    def on_assign(self, eng, st, ctx, lv, val, node):
        for r in self.res:
            if r.startswith("field:"):
                l = eng.norm(st, lv)
                if l[0] == "f" and l[2] == r[6:]:
                    eng.obligations += 1
                    if val == ("init", l) or val == eng.read(st, l) and r not in st.auto:
                        self.mark(st, rem=[r])
                    else:
                        self.mark(st, add=[r])


def run(db, tier):
    res = Result()
    isset = callee_in(db, set(SETTERS), None)
    impl = {c for c in db.classes if any((db.fns.get(m) or {"q": ""})["q"].rsplit("::", 1)[-1] in SETTERS for m in db.classes[c].get("methods", ()))}
    impl |= {d for c in list(impl) for d in db.derived(c)}
    rel = reach(db, lambda f: isset(f) and f.cls not in impl)
    nonentry = set()
    users = [f for f in sorted(db.funcs.values(), key=lambda f: (f.file, f.line)) if isset(f) and f.cls not in impl and not f.info.get("lambda")]
    callers = {}
    for u, f in db.funcs.items():
        for x in calls(f):
            callers.setdefault(x[3], set()).add(u)
    todo, done = [f.id for f in users], set()
    while todo:
        u = todo.pop(0)
        if u in done:
            continue
        done.add(u)
        f = db.funcs[u]
        eng = Engine(db, Flags({v for v in rel if v in db.funcs and db.funcs[v].file == f.file}))
        bad = []
        n = 0
        for kind, st, v in eng.run(f):
            if kind == "noret":
                continue
            n += 1
            for slot, val in st.auto:
                if not restored(eng, st, slot, val):
                    bad.append((kind, slot, st))
        if bad and not is_public(f) and callers.get(u):
            todo += sorted(callers[u])
            res.count("judged_in_callers")
            continue
        res.count("functions_switching_updates")
        res.count("switch_operations", eng.obligations)
        res.count("exits_checked", n)
        res.sample({"function": f.sig(), "exits": n})
        for kind, slot, st in bad[:1]:
            res.add(f, f.where(), "%s not restored" % slot[0], "a %s path leaves %s of a robot different from what it was" % ("throwing" if kind == "throw" else "returning", slot[0]), st.steps())
    jw = reach(db, lambda f: any(x[0] == "A" and strip(x[4]) and strip(x[4])[0] == "M" and strip(x[4])[4] == JV for x in all_nodes(f)))
    def select(q, sel):
        fs = db.find(q)
        if isinstance(sel, int):
            fs = [f for f in fs if len(f.params) == sel]
        elif sel:
            fs = [f for f in fs if any(sel in p for p in f.info["p"][:2])]
            if q.endswith("::solve"):
                fs = [f for f in fs if any("ManipulationObject" in p for p in f.info["p"]) and any("Grasp>" in p for p in f.info["p"])]
        if not fs:
            raise Broken("probe operation %s not found" % q)
        return fs

    selected = [(select(q, sel), what, on) for q, sel, what, on in PROBES]
    # a probe operation is judged here, so a call of one leaves the joints as they were
    jw -= {f.id for fs, what, on in selected if on == "all" and "joints" in what for f in fs}
    probes = {f.id for fs, what, on in selected for f in fs}
    moving = jw | reach(db, callee_in(db, {"setGlobalPose", "setJointValues"}))
    for fs, what, on in selected:
        for f in fs:
            focus = {u for u in moving if u in db.funcs and db.funcs[u].file == f.file and u not in probes}
            eng = Engine(db, Probe(jw, focus, what))
            exits = eng.run(f)
            bad = [(k, st, v) for k, st, v in exits if k != "noret" and st.auto and not (on == "fail" and not fails(eng, st, k, v))]
            res.count("probe_operations")
            res.count("probe_state_writes", eng.obligations)
            res.count("exits_checked", len(exits))
            res.sample({"probe": f.sig(), "restores": list(what), "exits": len(exits)})
            if not eng.obligations:
                raise Broken("probe operation %s does not write what it should restore" % q)
            for k, st, v in bad[:1]:
                for r in sorted(st.auto, key=str):
                    nm = r if isinstance(r, str) else r[0]
                    res.add(f, f.where(), "%s not restored" % nm.rsplit("::", 1)[-1], "an exit leaves the probed state (%s) changed" % nm, st.steps())
    res.floors = {"functions_switching_updates": 7, "probe_operations": 11, "switch_operations": 15, "exits_checked": 40}
    return res


def fails(eng, st, k, v):
    """exit that reports failure"""
    if k == "throw":
        return True
    if v is None:
        return True
    val = v[1] if v[0] == "valret" else eng.read(st, v[1])
    if val == K0 or val[0] == "ctor" and len(val) <= 2:
        return True
    return eng.decide(st, truth(val)) is False
