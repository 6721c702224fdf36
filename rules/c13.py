from lib import *
from forall import *
GLOBS = ALL
EXPLANATION = """Bounds of element accesses. (1) Every element access (subscripts of containers, vectors and arrays, grid cells) in a public operation or a helper it calls whose index the caller determines - an index, range, dimension, cell or position
argument, through any arithmetic - is reached only where the branch conditions imply 0 <= index < size; only operations that declare the index range as a precondition (assertion) are exempt. (2) Every access whose index or loop bound is computed
by subtracting from an unsigned element count, and every front()/back(), is reached only where the count is known to be large enough, so that nothing wraps around on an empty container. (3) Voxel lookups and writes of workspace data use
voxels that were computed by the position-to-voxel conversion and found inside, or that are in range by comparison; the conversion itself reports success only after every component was stored within [0, number of voxels)."""
SKIP = re.compile(r"nanoflann|rapidxml|/Visualization/|/Import/|KdTree|CoinViewer|/PQP|Compression|/tests/|/examples/")
V, S, G = "VirtualRobot::", "Saba::", "GraspStudio::"
ARITH = {"op", "ucast", "usub", "cast", "tup", "ite", "min", "max"}
# the index range is a declared precondition: VR_ASSERT / SABA_ASSERT on the index, or a structural element of a data structure whose public users are checked instead
ASSERTED = {V + "SceneObjectSet::getSceneObject", S + "CSpace::setBoundary", S + "CSpace::interpolate", S + "CSpace::getRandomConfig_UniformSampling", S + "CSpace::isBorderlessDimension",
            V + "WorkspaceRepresentation::getNumVoxels", V + "WorkspaceRepresentation::getMinBound", V + "WorkspaceRepresentation::getMaxBound", V + "WorkspaceRepresentation::getVoxelSize",
            V + "WorkspaceRepresentation::isCovered", V + "WorkspaceRepresentation::setVoxelEntry", V + "WorkspaceRepresentation::hasEntry", V + "WorkspaceRepresentation::getPoseFromVoxel",
            V + "WorkspaceRepresentation::sumAngleReachabilities", V + "WorkspaceRepresentation::avgAngleReachabilities", V + "WorkspaceRepresentation::getMaxEntry(int",
            G + "MeshConverter::checkAndSplitVertex"}
# the container has elements by construction of the object
NONEMPTY = {V + "KinematicChain::KinematicChain"}
NONEMPTYCLS = {V + "TimeOptimalTrajectory", V + "Path"}
RAWCLS = {V + "WorkspaceDataArray", V + "WorkspaceData"}
# fields whose number of elements is another field of the same object
INV = {S + "CSpace::" + n: S + "CSpace::dimension" for n in ("boundaryMin", "boundaryMax", "boundaryDist", "metricWeights", "robotJoints", "borderLessDimension")}
VOXOPS = {"get", "setDatum", "setDatumCheckNeighbors", "increaseDatum", "hasEntry", "setDataRot", "getDataRot"}
ELEMOPS = {"sumAngleReachabilities", "avgAngleReachabilities", "getMaxEntry", "getPoseFromVoxel", "setVoxelEntry", "hasEntry"}
TOVOX = {"getVoxelFromPose": 6, "getVoxelFromPosition": 3}
NV = V + "WorkspaceRepresentation::numVoxels"
NVS = {NV, V + "WorkspaceDataArray::sizes"}


def nvcomp(y, idx):
    """the number of voxels in dimension idx"""
    if not (isinstance(y, tuple) and len(y) == 3 and y[0] in ("i", "elt") and y[2] == idx):
        return False
    x = y[1]
    if x[0] == "init":
        x = x[1]
    return x[:1] == ("f",) and x[2] in NVS


def controlled(t, ps):
    """the caller chooses this number"""
    w = [t]
    while w:
        x = w.pop()
        if not isinstance(x, tuple) or not x:
            continue
        if x[0] == "param":
            if x[1] in ps:
                return True
        elif x[0] == "lin":
            w.extend(a for a, _ in x[2])
        elif x[0] in ARITH:
            w.extend(x[1:])
        elif x[0] == "init" and isinstance(x[1], tuple) and x[1][0] == "i" and x[1][1][:1] == ("d",) and x[1][1][1][:1] == ("param",):
            return x[1][1][1][1] in ps
    return False


def wraps(t):
    w = [t]
    while w:
        x = w.pop()
        if not isinstance(x, tuple) or not x:
            continue
        if x[0] == "usub":
            return True
        if x[0] == "lin":
            w.extend(a for a, _ in x[2])
        elif x[0] in ARITH and x[:2] not in (("op", "/"), ("op", "%")):
            w.extend(x[1:])
    return False


def atoms(t):
    while t[0] == "ucast":
        t = t[1]
    return set(a for a, _ in t[2]) if t[0] == "lin" else {t}


def plain(eng, st, t):
    """unsigned arithmetic that provably does not wrap becomes plain arithmetic"""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == "usub" and len(t) == 3:
        a, b = plain(eng, st, t[1]), plain(eng, st, t[2])
        return ladd(a, b, -1) if eng.prove_le(st, b, a) else ("usub", a, b)
    if t[0] == "ucast" and len(t) > 1:
        a = plain(eng, st, t[1])
        return a if nonneg(eng, st, a) else ("ucast", a)
    if t[0] in ("min", "max"):
        return (t[0],) + tuple(plain(eng, st, x) for x in t[1:])
    if t[0] == "lin":
        r = ("k", t[1])
        for a, c in t[2]:
            r = ladd(r, lmul(plain(eng, st, a), ("k", c)))
        return r
    return t


def nonneg(eng, st, t):
    if eng.nonneg(st, t) or eng.prove_le(st, K0, t):
        return True
    if t[0] == "max":
        return any(nonneg(eng, st, x) for x in t[1:])
    if t[0] == "min":
        return all(nonneg(eng, st, x) for x in t[1:])
    if t[0] in ("param", "init"):
        return bool(re.search(r"unsigned|size_t", eng.type_of(t) or ""))
    if t[0] == "lin":
        return t[1] >= 0 and all(c > 0 and nonneg(eng, st, a) for a, c in t[2])
    return False


def below(eng, st, i, sz):
    if i[0] == "max":
        return all(below(eng, st, x, sz) for x in i[1:])
    if i[0] == "min":
        return any(below(eng, st, x, sz) for x in i[1:])
    return eng.prove_lt(st, i, sz)


def clear(eng, st):
    """the state with the conditions on unsigned differences rewritten where they cannot wrap"""
    if not any(wraps(x) for f in st.facts if f[0] in ("<", "<=", "==") for x in f[1:3]):
        return st
    n = st.copy()
    for f, p in list(st.facts.items()):
        if f[0] in ("<", "<=") and (wraps(f[1]) or wraps(f[2])):
            a, b = plain(eng, st, f[1]), plain(eng, st, f[2])
            if (a, b) != f[1:3] and not (isconst(a) and isconst(b)):
                n.facts[(f[0], a, b, f[3])] = p
    return n


def voxop(n, cls):
    return n in VOXOPS and cls in RAWCLS or n in ELEMOPS and cls == V + "WorkspaceRepresentation"


def asserted(f):
    return f.q in ASSERTED or any("(" in a and f.sig().startswith(a) for a in ASSERTED)


class Conv(ForAll):
    """position -> voxel: success only after every component was stored inside"""

    def __init__(self, out):
        self.out = out

    def on_assign(self, eng, st, ctx, lv, val, node):
        if lv[0] == "i" and lv[1] == ("d", ("param", self.out)) and node[0] == "A":
            eng.obligations += 1
            v = val[1] if val[0] == "ucast" else val
            idx = lv[2]
            found = set()
            for f in st.facts:
                mentions(f, lambda y: nvcomp(y, idx) and found.add(y))
            lim = sorted(found, key=str)
            s = st.copy()
            for x in lim:
                s.facts[("<", K0, x, "i")] = True  # workspaces have at least one voxel in every dimension
            if eng.prove_le(s, K0, v) and any(eng.prove_lt(s, v, x) for x in lim):
                self.ev(eng, st, "in", (idx,))


class Idx(Rule):
    depth = 3
    cap = 24

    def __init__(self, ps, inline, vox=False):
        self.ps, self.inline, self.vox = ps, inline, vox

    def initial(self):
        return frozenset()  # results of the position-to-voxel conversion: ("in", array) or ("out", array)

    def merge_auto(self, a, b):
        return frozenset(x for x in a | b if x[0] == "out" or x in a and x in b)

    def purge(self, auto, stale):
        return frozenset(x for x in auto if not mentions(x, stale))

    def relevant(self, eng, usr, info):
        return usr in self.inline

    def on_assign(self, eng, st, ctx, lv, val, node):
        if lv[0] == "i" and st.auto:
            st.auto = frozenset(x for x in st.auto if x[1] != lv[1])
            st.touch()

    def on_elem(self, eng, st, ctx, e):
        if e[0] == "I":
            b = eng.norm(st, eng.lv(st, ctx, e[3])) if e[3] else None
            m = re.search(r"\[(\d+)\]$", (eng.etype(ctx, e[3]) or "").strip()) or re.search(r"\[(\d+)\]$", decltype(self, ctx, e[3]))
            self.check(eng, st, ctx, e[2], ("k", int(m.group(1))) if m else None, eng.val(st, ctx, e[4]))

    def on_call(self, eng, st, c):
        if not c.info:
            return None
        cls = c.info.get("cls") or ""
        n = c.name
        if eng.is_repo(c.usr):
            if n in TOVOX and cls == V + "WorkspaceRepresentation" and len(c.args) == 2 and c.usr not in self.inline:
                t, f = st.copy(), st.copy()
                l = eng.norm(st, self.array(eng, st, c.args[1]))
                for s in (t, f):
                    eng.havoc(s, l, c.site)
                    s.auto = s.auto - {("in", l), ("out", l)}
                t.auto = t.auto | {("in", l)}
                f.auto = f.auto | {("out", l)}
                t.touch()
                f.touch()
                return [(t, ("val", K1)), (f, ("val", K0))]
            if n == "getDataPos" and cls == V + "WorkspaceGrid":
                for a, q in zip(c.args, ("gridSizeX", "gridSizeY")):
                    self.check(eng, st, c.ctx, c.line, eng.read(st, eng.norm(st, ("f", c.recv, V + "WorkspaceGrid::" + q))), a.val, True)
                return [(st, ("val", ("cell", c.site)))]
            if n == "getSize" and cls in RAWCLS and len(c.args) == 1:
                return [(st, ("val", ("dim", c.args[0].val)))]
            if n == "getNumVoxels" and cls.startswith(V) and len(c.args) == 1:
                return [(st, ("val", ("dim", c.args[0].val)))]
            if self.vox and voxop(n, cls):
                self.voxels(eng, st, c)
            return "opaque" if cls in RAWCLS else None
        if n == "operator+" and len(c.args) >= 1:
            v = [a.val for a in c.args] + ([eng.read(st, c.recv)] if c.recv else [])
            it = [x for x in v if x[:2] == ("it", "begin")]
            if it and len(v) == 2 and it[0][2][0] != "hv":
                self.check(eng, st, c.ctx, c.line, ladd(eng.size_of(it[0][2]), K1), [x for x in v if x is not it[0]][0])
            return None
        if n not in ("operator[]", "front", "back", "operator()", "coeff", "coeffRef") or c.recv is None:
            return None
        h = cls.split("<")[0]
        if "map" in h or "_ptr" in h or n == "operator()" and not h.startswith("Eigen") or h.startswith("std::function"):
            return None
        sz = self.size(eng, st, c.recv)
        if n in ("front", "back"):
            if re.match(r"std::(vector|deque|list|basic_string)", h):
                eng.obligations += 1
                if not eng.prove_lt(clear(eng, st), K0, sz):
                    eng.report(st, c.ctx, c.line, "%s on a possibly empty container" % n, "%s() is reached although the container may be empty" % n)
            return None
        if h.startswith("Eigen") and len(c.args) == 2:
            return None
        if sz[0] == "size" and sz[1][0] == "hv" and eng.root(c.recv)[0] == "v":
            return None  # a local container filled by a call: its size is not known to the analysis
        for a in c.args:
            self.check(eng, st, c.ctx, c.line, sz, a.val)
        return None

    def size(self, eng, st, lv):
        if lv[0] == "f" and lv[2] in INV:
            return eng.read(st, eng.norm(st, ("f", lv[1], INV[lv[2]])))
        return eng.size_of(eng.read(st, lv))

    @staticmethod
    def array(eng, st, a):
        l = a.lv
        v = a.val
        if v[0] == "a":
            return v[1]
        if v[0] in ("param",) or v[0] == "init":
            return ("d", v)
        return l

    def voxels(self, eng, st, c):
        args = c.args
        ts = c.info["p"]
        if any("float" in t for t in ts[:1]):
            return  # a position: converted (and checked) by the data structure itself
        if c.name == "setDataRot":
            args, ts = args[1:], ts[1:]
        if re.search(r"\*|\[", ts[0]):
            eng.obligations += 1
            l = eng.norm(st, self.array(eng, st, args[0]))
            if ("out", l) not in st.auto:
                return
            eng.report(st, c.ctx, c.line, "voxel not checked: %s" % c.name, "a voxel that was not found inside the workspace is used to access the data")
            return
        k = 3 if c.name in ("hasEntry", "setDataRot", "getDataRot") else 6
        if any(self.component(eng, st, c.ctx, a.node) for a in args):
            eng.obligations += 1
            eng.report(st, c.ctx, c.line, "voxel not checked: %s" % c.name, "a voxel that was not found inside the workspace is used to access the data")
            return
        for i, a in enumerate(args[:k]):
            if not controlled(a.val, self.ps):
                continue
            eng.obligations += 1
            if not self.comp(eng, st, a.val, i):
                eng.report(st, c.ctx, c.line, "voxel index %d not checked: %s" % (i, c.name), "component %d of a voxel may be outside of the workspace data" % i)

    def component(self, eng, st, ctx, n):
        """an element of a voxel that was not found inside"""
        for x in walk(n):
            if x[0] == "I" and x[3] and eng.norm(st, self.array(eng, st, Arg(eng, st, ctx, x[3]))) in [o[1] for o in st.auto if o[0] == "out"]:
                return True
        return False

    def comp(self, eng, st, v, i):
        st = clear(eng, st)
        v = plain(eng, st, v)
        while v[0] == "ucast":
            v = v[1]
        if not nonneg(eng, st, v) and not (v[0] in ("param",) and "unsigned" in (eng.type_of(v) or "")):
            return False
        return any(eng.prove_lt(st, v, b) for b in self.bounds(eng, st, i))

    @staticmethod
    def bounds(eng, st, i):
        res = [("dim", ("k", i))]
        for f in st.facts:
            for x in f[1:3]:
                if isinstance(x, tuple) and mentions(x, lambda y: nvcomp(y, ("k", i))):
                    res += [a for a in atoms(x)] + [x]
        return res

    def check(self, eng, st, ctx, line, sz, idx, cell=False):
        if not cell and not controlled(idx, self.ps) and not wraps(idx):
            at = atoms(idx)
            if idx[0] == "k" or not any(f[0] in ("<", "<=") and p is True and wraps(f[2]) and at & atoms(f[1]) for f, p in st.facts.items()):
                return
        eng.obligations += 1
        st2 = clear(eng, st)
        i = plain(eng, st2, idx)
        lo = nonneg(eng, st2, i)
        sz = plain(eng, st2, sz) if sz is not None else None
        hi = sz is not None and below(eng, st2, i, sz)
        if lo and not hi and sz is not None and i[0] in ("ucast",):
            hi = eng.prove_lt(st2, i[1], sz) and nonneg(eng, st2, i[1])
        if not (lo and hi):
            eng.report(st, ctx, line, "index not checked" + (" (cell)" if cell else ""), "an element is accessed although its index may be %s" % ("negative" if hi else "behind the last element"))


def decltype(self, ctx, e):
    e = strip(e)
    if e and e[0] == "V":
        return (ctx.fn.vars.get(e[3]) or {}).get("t", "")
    if e and e[0] == "M":
        c, n = str(e[4]).rsplit("::", 1) if "::" in str(e[4]) else ("", "")
        return fieldtype(ctx, e)
    return ""


def fieldtype(ctx, e):
    for x in e:
        if isinstance(x, str) and "::" in x:
            c, n = x.rsplit("::", 1)
            for f in (Idx.db.classes.get(c) or {}).get("fields", ()):
                if f["n"] == n:
                    return f["t"]
    return ""


def own_access(db, f):
    for x in all_nodes(f):
        if x[0] == "I":
            return True
        if x[0] == "C" and x[4] is not None:
            i = db.fns.get(x[3])
            if i and i["q"].rsplit("::", 1)[-1] in ("operator[]", "front", "back", "coeff", "coeffRef", "operator()", "getDataPos") or i and voxop(i["q"].rsplit("::", 1)[-1], i.get("cls")):
                return True
    return False


def edge_access(db, f):
    """accesses that may hit an empty container"""
    sub = False
    acc = False
    for x in all_nodes(f):
        if x[0] == "C" and x[4] is not None:
            i = db.fns.get(x[3])
            n = i["q"].rsplit("::", 1)[-1] if i else ""
            if n in ("front", "back"):
                return True
            acc = acc or n in ("operator[]", "getNode", "getPoint", "getPathEntry")
        elif x[0] == "I":
            acc = True
        elif x[0] == "B" and x[3] == "-" and "unsigned" in str(x[6]):
            sub = True
    return acc and sub


def small(f):
    return len(f.blocks) <= 10 and f.info["ret"] != "void" and not any(x[0] in ("new", "thr") for x in all_nodes(f))


def run(db, tier):
    res = Result()
    Idx.db = db
    fs = [f for f in sorted(db.funcs.values(), key=lambda f: (f.file, f.line)) if not SKIP.search(f.file)]
    helpers = {f.id for f in fs if small(f) and not asserted(f) and f.cls not in RAWCLS and f.q.rsplit("::", 1)[-1] not in TOVOX}
    acc = {f.id for f in fs if own_access(db, f)}
    inner = {f.id for f in fs if f.id in acc and not is_public(f) and f.cls not in RAWCLS}
    for f in fs:
        ints = [t for t in f.info["p"] if re.search(r"\b(int|unsigned|long|short|size_t|float|double)\b", t) and "std::" not in t and "Eigen" not in t or "Matrix" in t]
        ctl = f.id in acc and bool(ints) and is_public(f) or any(x[3] in inner for x in calls(f)) and bool(ints) and is_public(f)
        edge = edge_access(db, f)
        if not ctl and not edge:
            continue
        if f.cls in RAWCLS or f.cls in NONEMPTYCLS or f.q in NONEMPTY:
            continue
        exempt = asserted(f)
        ps = set() if exempt or not is_public(f) else {v for v, t in zip(f.params, f.info["p"])}
        if exempt:
            res.count("operations_with_asserted_index")
        own = {x[3] for x in calls(f)}
        r = Idx(ps, (helpers | (inner & own)) - {f.id})
        eng = Engine(db, r)
        eng.run(f)
        if eng.obligations:
            res.count("operations")
            res.count("bounds_checked", eng.obligations)
            res.sample({"operation": f.sig(), "where": f.where(), "obligations": eng.obligations})
        res.take(eng)
    # voxels
    for f in fs:
        if not (f.cls or "").startswith(V) or asserted(f):
            continue
        if f.cls in RAWCLS and not any(db.fns[x[3]]["q"].rsplit("::", 1)[-1] in TOVOX for x in calls(f) if x[3] in db.fns):
            continue
        if not any(voxop(db.fns[x[3]]["q"].rsplit("::", 1)[-1], db.fns[x[3]].get("cls")) for x in calls(f) if x[3] in db.fns):
            continue
        r = Idx(set(f.params) if is_public(f) and f.cls not in RAWCLS else set(), helpers - {f.id}, vox=True)
        eng = Engine(db, r)
        eng.run(f)
        res.count("voxel_operations")
        res.count("voxel_accesses", eng.obligations)
        res.take(eng)
    for f in fs:
        n = f.q.rsplit("::", 1)[-1]
        if n in TOVOX and f.cls == V + "WorkspaceRepresentation" and "float" in f.info["p"][0] and "Eigen" not in f.info["p"][0]:
            eng = Engine(db, Conv(f.params[1]))
            for k, st, v in eng.run(f):
                if k != "ret":
                    continue
                res.count("conversion_exits")
                if eng.decide(st, truth(v[1] if v[0] == "valret" else eng.read(st, v[1]))) is False:
                    continue
                if eng.rule.has(st, "#empty", ("upto", ("k", TOVOX[n]))):
                    continue  # the first element was skipped: impossible for a positive number
                if not eng.rule.has(st, "in", lambda a: a == ("all", ("upto", ("k", TOVOX[n])))) and not all(eng.rule.has(st, "in", ("k", i)) for i in range(TOVOX[n])):
                    res.add(f, f.where(), "voxel not inside", "success is reported although a component of the voxel may be outside", st.steps())
            res.count("conversions")
    res.floors = {"operations": 20, "bounds_checked": 150, "voxel_operations": 7, "voxel_accesses": 35, "conversions": 1, "conversion_exits": 4}
    return res
