"""Front end: builds the libTooling fact extractor, parses the translation units a rule needs with the
project's flags, and loads the resulting program database (functions with CFGs, classes, call targets)."""
import glob, hashlib, json, os, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIMOX_REPO", "/repo").rstrip("/")
BUILD = os.path.join(VERIF, "build")
TOOL = os.path.join(BUILD, "simox-facts")
SRC = os.path.join(VERIF, "tool", "facts.cpp")
LLVM = "/usr/lib/llvm-18"

FLAGS = ["-xc++", "-ferror-limit=0", "-std=c++11", "-resource-dir", LLVM + "/lib/clang/18", "-w", "-DNDEBUG", "-O0", "-fPIC",
         "-I{R}", "-I{R}/VirtualRobot/CollisionDetection/PQP", "-I{R}/VirtualRobot/CollisionDetection/PQP/PQP++",
         "-I{R}/GraspPlanning/ExternalDependencies/qhull-2003.1/include",
         "-I/usr/include/bullet", "-I/usr/include/bullet/bullet",
         "-isystem", "/usr/include/eigen3", "-isystem", "/usr/include/x86_64-linux-gnu/qt5",
         "-isystem", "/usr/include/x86_64-linux-gnu/qt5/QtGui", "-isystem", "/usr/include/x86_64-linux-gnu/qt5/QtCore",
         "-isystem", "/usr/lib/x86_64-linux-gnu/qt5/mkspecs/linux-g++",
         "-isystem", "/usr/include/x86_64-linux-gnu/qt5/QtOpenGL", "-isystem", "/usr/include/x86_64-linux-gnu/qt5/QtWidgets",
         "-DBOOST_NO_CXX11_SCOPED_ENUMS", "-DQT_CORE_LIB", "-DQT_GUI_LIB", "-DQT_NO_DEBUG", "-DQT_OPENGL_LIB", "-DQT_WIDGETS_LIB",
         '-DSimox_DATA_PATH="data"', '-DSimox_TEST_DIR="/x/"', "-DUSE_NLOPT",
         '-DVirtualRobot_SRC_DATA_PATH="{R}/VirtualRobot/data"', "-DgetMotorTargetVelosity=getMotorTargetVelocity",
         "-DgNumDeepPenetrationChecks=gNumClampedCcdMotions", "-DgNumGjkChecks=gNumClampedCcdMotions",
         "-DBOOST_ALL_NO_LIB", "-DCOIN_DLL", "-DSOQT_DLL", "-DSIMOX_USE_SOQT"]
# g++ accepts this ill-formed throw in an uninstantiated template, clang reports it; nothing else may fail to parse.
TOLERATED = ("MathForwardDefinitions.h", "no matching conversion for functional-style cast from 'const char[17]' to 'std::exception'")


class Broken(Exception):
    """the analysis itself cannot give a verdict (anchor vanished, parse failure): exit code 2"""


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()


def ensure_tool():
    os.makedirs(BUILD, exist_ok=True)
    stamp = TOOL + ".stamp"
    want = _sha(open(SRC, "rb").read())
    if os.path.exists(TOOL) and os.path.exists(stamp) and open(stamp).read() == want:
        return want
    tmp = TOOL + ".%d" % os.getpid()
    cmd = ["/usr/bin/clang++-18", "-O1", "-std=c++17", "-fno-rtti", "-I" + LLVM + "/include", SRC, "-o", tmp,
           LLVM + "/lib/libclang-cpp.so.18.1", LLVM + "/lib/libLLVM.so", "-Wl,-rpath," + LLVM + "/lib"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise Broken("cannot build the fact extractor: " + r.stderr[-2000:])
    os.replace(tmp, TOOL)
    open(stamp, "w").write(want)
    return want


def flags():
    return [f.replace("{R}", REPO) for f in FLAGS]


def _key(tool_hash, tu):
    return _sha(tool_hash, "\n".join(flags()), tu)


def _valid(meta):
    for dep, h in meta["deps"].items():
        try:
            if hashlib.sha256(open(dep, "rb").read()).hexdigest() != h:
                return False
        except OSError:
            return False
    return True


def parse_tu(tool_hash, tu):
    cdir = os.path.join(BUILD, "facts")
    os.makedirs(cdir, exist_ok=True)
    k = _key(tool_hash, tu)
    out, metaf = os.path.join(cdir, k + ".json"), os.path.join(cdir, k + ".meta")
    if os.path.exists(out) and os.path.exists(metaf):
        try:
            if _valid(json.load(open(metaf))):
                return out
        except Exception:
            pass
    tmp = out + ".%d.tmp" % os.getpid()
    r = subprocess.run([TOOL, REPO + "/", tmp, tu, "--"] + flags(), capture_output=True, text=True)
    if r.returncode or not os.path.exists(tmp):
        raise Broken("parse of %s failed: %s" % (tu, r.stderr[-500:]))
    d = json.load(open(tmp))
    bad = [e for e in d["errors"] if not (TOLERATED[0] in e and TOLERATED[1] in e)]
    if bad:
        os.unlink(tmp)
        raise Broken("parse of %s: %s" % (tu, "; ".join(bad[:3])))
    deps = {p: hashlib.sha256(open(p, "rb").read()).hexdigest() for p in d["deps"]}
    os.replace(tmp, out)
    json.dump({"deps": deps, "tu": tu}, open(metaf + ".%d" % os.getpid(), "w"))
    os.replace(metaf + ".%d" % os.getpid(), metaf)
    return out


EXCLUDE = ("/tests/", "/examples/", "_autogen", "BulletOpenGL", "qhull", "/_build/", "PQP++", "COLLADA", "tinyxml2",
           "OSG", "Win32", "/Import/URDF", "/Dynamics/dynamics.cpp", "pugixml", "GraspEditor", "/mjcf/", "/Util/", "stb_image", "rapidxml",
           "/Dummy/", "/Workspace/WorkspaceData.cpp", "/AbstractFunctionR1Ori.cpp", "/SimpleAbstractFunctionR1Ori.cpp", "/SimpleAbstractFunctionR1R6.cpp")


def expand(globs):
    """Globs are relative to the repository; vendored code, tests and files the build leaves out are excluded."""
    res = []
    for g in globs:
        m = sorted(glob.glob(os.path.join(REPO, g), recursive=True))
        m = [x for x in m if not any(e in x[len(REPO):] for e in EXCLUDE)]
        if not m:
            raise Broken("no source file matches %s" % g)
        for x in m:
            if x not in res:
                res.append(x)
    return res


class Func:
    __slots__ = ("id", "info", "file", "line", "end", "params", "blocks", "entry", "exit", "vars", "q", "cls", "name", "lambda_parent", "_preds", "_top", "_inner", "tryof", "trys")

    def __init__(self, d, info):
        self.id = d["id"]
        self.info = info
        self.file = d["file"]
        self.line = d["line"]
        self.end = d["end"]
        self.params = d.get("params", [])
        self.blocks = {int(k): v for k, v in d["blocks"].items()}
        self.entry = d["entry"]
        self.exit = d["exit"]
        self.vars = d["vars"]
        self.q = info["q"]
        self.cls = info.get("cls")
        self.name = self.q.rsplit("::", 1)[-1]
        self.lambda_parent = None
        self._preds = None
        self.tryof = {int(k): v for k, v in d.get("tryof", {}).items()}
        self.trys = {int(k): v for k, v in d.get("trys", {}).items()}

    @property
    def rel(self):
        return self.file[len(REPO) + 1:] if self.file.startswith(REPO) else self.file

    def where(self, line=None):
        return "%s:%d" % (self.rel, line or self.line)

    def sig(self):
        return "%s(%s)" % (self.q, ", ".join(short(p) for p in self.info["p"]))


def short(t):
    return t.replace("VirtualRobot::", "").replace("boost::", "").replace("std::", "")


class DB:
    def __init__(self):
        self.fns, self.classes, self.funcs = {}, {}, {}
        self.byq = {}
        self.tus = []
        self.overriders = {}
        self._subs = None

    def load(self, paths):
        for p in paths:
            d = json.load(open(p))
            self.fns.update({k: v for k, v in d["fns"].items() if k not in self.fns})
            for k, v in d["classes"].items():
                self.classes.setdefault(k, v)
            for f in d["funcs"]:
                if f["id"] not in self.funcs:
                    if f.get("nocfg"):
                        raise Broken("no CFG for " + f["id"])
                    self.funcs[f["id"]] = Func(f, d["fns"][f["id"]])
        for f in self.funcs.values():
            self.byq.setdefault(f.q, []).append(f)
        for u, i in self.fns.items():
            for o in i.get("ov", []):
                self.overriders.setdefault(o, set()).add(u)
        return self

    def all_overriders(self, u):
        r, w = set(), [u]
        while w:
            x = w.pop()
            for y in self.overriders.get(x, ()):
                if y not in r:
                    r.add(y)
                    w.append(y)
        return r

    def find(self, q, nparams=None, types=None, opt=False):
        """definitions with qualified name q (without a leading namespace match also allowed: suffix '::q')"""
        r = [f for f in self.byq.get(q, [])]
        if not r:
            r = [f for k, l in self.byq.items() if k.endswith("::" + q) for f in l]
        if nparams is not None:
            r = [f for f in r if len(f.params) == nparams]
        if types is not None:
            r = [f for f in r if all(t in p for t, p in zip(types, f.info["p"]))]
        if not r and not opt:
            raise Broken("anchor function %s not found" % q)
        return r

    def methods_of(self, cls):
        return [f for f in self.funcs.values() if f.cls == cls]

    def bases(self, cls):
        """cls and all its (in-tree) base classes"""
        r, w = [], [cls]
        while w:
            c = w.pop(0)
            if c in r:
                continue
            r.append(c)
            if c in self.classes:
                w += self.classes[c]["bases"]
        return r

    def derived(self, cls):
        """cls and all classes derived from it"""
        if self._subs is None:
            self._subs = {}
            for c, i in self.classes.items():
                for b in i["bases"]:
                    self._subs.setdefault(b, set()).add(c)
        r, w = [], [cls]
        while w:
            c = w.pop(0)
            if c in r:
                continue
            r.append(c)
            w += sorted(self._subs.get(c, ()))
        return r


def load(globs):
    th = ensure_tool()
    tus = expand(globs)
    jobs = max(1, min(os.cpu_count() or 1, 8))
    with ThreadPoolExecutor(jobs) as ex:
        paths = list(ex.map(lambda t: parse_tu(th, t), tus))
    db = DB().load(paths)
    db.tus = tus
    return db


# ---------------------------------------------------------------- expression helpers
def kids(e):
    """direct sub-expressions of an expression node"""
    k = e[0]
    if k in ("L", "V", "E", "F", "T", "S"):
        return []
    if k == "M":
        return [e[3]]
    if k == "C":
        return ([e[4]] if e[4] else []) + e[5]
    if k == "N":
        return e[5]
    if k in ("K",):
        return [e[6]]
    if k == "dyn":
        return [e[4]]
    if k == "P":
        return [e[3]] if e[3] else []
    if k == "def":
        return [e[3]] if e[3] else []
    if k == "new":
        return [x for x in (e[4], e[5]) if x]
    if k == "del":
        return [e[3]]
    if k == "thr":
        return [e[3]] if e[3] else []
    if k == "I":
        return [e[3], e[4]]
    if k == "U":
        return [e[4]]
    if k in ("A", "B"):
        return [e[4], e[5]]
    if k == "?":
        return [e[3], e[4], e[5]]
    if k == "li":
        return [x for x in e[3] if x]
    if k == "G":
        return [x for x in e[4] if x]
    if k == "lam":
        return []
    if k == "DS":
        return [d[1] for d in e[3] if d[1]]
    if k == "R":
        return [e[3]] if e[3] else []
    if k == "init":
        return [e[4]] if e[4] else []
    return []


def walk(e):
    if not isinstance(e, list):
        return
    yield e
    for x in kids(e):
        if x:
            yield from walk(x)


def strip(e):
    """drop value-preserving wrappers: casts kept only when they change the value category of interest"""
    while e and e[0] in ("P", "def", "K"):
        e = e[3] if e[0] in ("P", "def") else e[6]
    return e


def fn_exprs(f):
    """every expression tree that is a CFG element of f (sub-elements appear again inside their parents)"""
    for b in f.blocks.values():
        for e in b["e"]:
            yield e
        if b.get("c"):
            pass


def top_elems(f):
    """CFG elements of f that are not part of another element (each source expression exactly once)"""
    r = getattr(f, "_top", None)
    if r is None:
        inner = set()
        for b in f.blocks.values():
            for e in b["e"]:
                for x in walk(e):
                    if x is not e and isinstance(x[1], int) and x[1]:
                        inner.add(x[1])
        r = f._top = [(bid, e) for bid, b in f.blocks.items() for e in b["e"] if not (isinstance(e[1], int) and e[1] in inner)]
    return r


def all_nodes(f):
    for bid, e in top_elems(f):
        for x in walk(e):
            yield x


def calls(f):
    for x in all_nodes(f):
        if x[0] in ("C", "N"):
            yield x
