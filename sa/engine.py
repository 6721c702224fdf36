"""Path-sensitive dataflow over the resolved program: typestate-style propagation (ESP) on control-flow graphs with
bounded inlining of helpers, alias-normalised lvalues, hash-consed value terms, branch facts and difference bounds.
Rules plug in an automaton and call/assignment hooks; nothing in here is specific to one property."""
import heapq, re
from facts import Broken, strip, walk, kids, all_nodes, top_elems

K0, K1 = ("k", 0), ("k", 1)
SMART = re.compile(r"(?:boost|std)::(?:shared_ptr|unique_ptr|scoped_ptr|intrusive_ptr|weak_ptr|__shared_ptr\w*)\b")
MAXTERM = 60


def tsize(t, cap=MAXTERM):
    n, w = 0, [t]
    while w:
        x = w.pop()
        if isinstance(x, tuple):
            n += 1
            if n > cap:
                return n
            w.extend(x)
    return n


_ORD = {}


def ordk(t):
    """a total order on terms: order of first appearance (deterministic for a given source tree and hash seed)"""
    r = _ORD.get(t)
    if r is None:
        r = _ORD[t] = len(_ORD)
    return r


def mentions(t, pred):
    w = [t]
    while w:
        x = w.pop()
        if isinstance(x, tuple):
            if pred(x):
                return True
            w.extend(x)
        elif isinstance(x, frozenset):
            w.extend(x)
    return False


# ------------------------------------------------------------------ linear terms
def lin(t):
    """-> (const, {atom: coef})"""
    if t[0] == "k" and isinstance(t[1], (int, float)):
        return t[1], {}
    if t[0] == "lin":
        return t[1], dict(t[2])
    return 0, {t: 1}


def mklin(c, d):
    d = {k: v for k, v in d.items() if v != 0}
    if not d:
        return ("k", c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    if len(d) == 1:
        return ("lin", c, tuple(d.items()))
    return ("lin", c, tuple(sorted(d.items(), key=lambda i: ordk(i[0]))))


def ladd(a, b, s=1):
    ca, da = lin(a)
    cb, db = lin(b)
    d = dict(da)
    for k, v in db.items():
        d[k] = d.get(k, 0) + s * v
    return mklin(ca + s * cb, d)


def lmul(a, b):
    if a[0] == "k" and isinstance(a[1], (int, float)):
        a, b = b, a
    if b[0] == "k" and isinstance(b[1], (int, float)):
        c, d = lin(a)
        return mklin(c * b[1], {k: v * b[1] for k, v in d.items()})
    return ("op", "*") + tuple(sorted((a, b), key=ordk))


def isconst(t):
    return t[0] == "k"


def NOT(t):
    if t[0] == "not":
        return t[1]
    if t[0] == "k":
        return K0 if t[1] else K1
    return ("not", t)


def rel(op, a, b, dom="i"):
    """normal form: ('<',a,b,dom), ('==',a,b) and their negations"""
    if op == ">":
        return rel("<", b, a, dom)
    if op == ">=":
        return NOT(rel("<", a, b, dom)) if dom == "i" else ("<=", b, a, dom)
    if op == "<=":
        return NOT(rel("<", b, a, dom)) if dom == "i" else ("<=", a, b, dom)
    if op == "!=":
        return NOT(rel("==", a, b, dom))
    if op == "==":
        if a == b:
            return K1
        if isconst(a):
            a, b = b, a
        if isconst(b):
            if isconst(a):
                return K1 if a[1] == b[1] else K0
            if b[1] == 0 or b[1] is False:
                return NOT(("t", a))
            if b[1] == 1 and a[0] in ("t", "not", "<", "<=", "==", "call", "res") and dom == "b":
                return truth(a)
        elif ordk(a) > ordk(b):
            a, b = b, a
        return ("==", a, b)
    if isconst(a) and isconst(b) and not isinstance(a[1], str) and not isinstance(b[1], str):
        return K1 if (a[1] < b[1] if op == "<" else a[1] <= b[1]) else K0
    return (op, a, b, dom)


def truth(t):
    if t[0] in ("not", "<", "<=", "==", "t"):
        return t
    if t[0] == "k":
        return K1 if t[1] else K0
    if t[0] in ("a", "new", "this", "lam", "str"):
        return K1
    return ("t", t)


class St:
    __slots__ = ("env", "facts", "auto", "memo", "trail", "_k")

    def __init__(self, env, facts, auto, memo, trail=None):
        self.env, self.facts, self.auto, self.memo, self.trail = env, facts, auto, memo, trail
        self._k = None

    def copy(self):
        return St(dict(self.env), dict(self.facts), self.auto, dict(self.memo), self.trail)

    def key(self):
        if self._k is None:
            self._k = (self.auto, frozenset(self.env.items()), frozenset(self.facts.items()), frozenset(self.memo.items()))
        return self._k

    def touch(self):
        self._k = None

    def steps(self, n=14):
        r, t = [], self.trail
        while t:
            r.append(t[0])
            t = t[1]
        r.reverse()
        return r[-n:]


class Ctx:
    __slots__ = ("fn", "path", "this", "eng", "depth", "caps", "dyn")

    def __init__(self, fn, path, this, depth, caps=None, dyn=None):
        self.fn, self.path, self.this, self.depth, self.caps, self.dyn = fn, path, this, depth, caps, dyn

    def lvar(self, vid):
        v = self.fn.vars.get(vid)
        if v and (v.get("k") == "global" or v.get("static")):
            return ("g", vid)
        if self.caps and vid in self.caps and vid not in self.fn.params:
            return self.caps[vid]
        return ("v", self.path, vid)


class Call:
    __slots__ = ("usr", "info", "recv", "args", "node", "site", "ctx", "line", "q", "name")


class Arg:
    __slots__ = ("node", "eng", "st", "ctx", "_v", "_l")

    def __init__(self, eng, st, ctx, node):
        self.node, self.eng, self.st, self.ctx = node, eng, st, ctx
        self._v = self._l = None

    @property
    def val(self):
        if self._v is None:
            self._v = self.eng.val(self.st, self.ctx, self.node)
        return self._v

    @property
    def lv(self):
        if self._l is None:
            self._l = self.eng.lv(self.st, self.ctx, self.node)
        return self._l


class Rule:
    """override what is needed"""
    depth = 5
    cap = 24
    focus = None
    max_inline_blocks = 120
    edges = False  # call on_edge for every control-flow edge taken

    def on_edge(self, eng, st, ctx, li, src, b):
        return st

    def algo_open(self, eng, st, ctx, c, n):
        pass

    def algo_iter(self, eng, st, ctx, c, n, it):
        pass

    def algo_done(self, eng, st, ctx, c, n, its):
        pass

    def initial(self):
        return ()

    def atomic(self, eng, usr, info):
        return False

    def relevant(self, eng, usr, info):
        """inline even when large"""
        return False

    def on_call(self, eng, st, c):
        return None

    def on_enter(self, eng, st, ctx):
        return st

    def on_assign(self, eng, st, ctx, lv, val, node):
        pass

    def on_decl(self, eng, st, ctx, lv, typ, init):
        pass

    def on_dtor(self, eng, st, ctx, lv, line):
        pass

    def on_unwind(self, eng, st, ctx):
        pass

    def on_branch(self, eng, st, ctx, cond, pol):
        pass

    def on_elem(self, eng, st, ctx, e):
        pass

    def purge(self, auto, stale):
        """drop automaton parts that mention values from an earlier loop iteration"""
        return auto

    def merge_key(self, st):
        return st.auto

    def merge_auto(self, a, b):
        return a


class LoopInfo:
    def __init__(self, fn):
        self.order = {}
        succs = {b: [s for s in v["s"] if s is not None] for b, v in fn.blocks.items()}
        if fn.tryof:
            for b, v in fn.blocks.items():
                for d in sorted({fn.tryof[e[1]] for e in v["e"] if isinstance(e[1], int) and e[1] in fn.tryof}):
                    if d != b and d not in succs[b]:
                        succs[b].append(d)
        seen, post, onst = set(), [], set()
        back = []
        stack = [(fn.entry, iter(succs[fn.entry]))]
        seen.add(fn.entry)
        onst.add(fn.entry)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s in onst:
                    back.append((b, s))
                elif s not in seen:
                    seen.add(s)
                    onst.add(s)
                    stack.append((s, iter(succs[s])))
                    break
            else:
                stack.pop()
                onst.discard(b)
                post.append(b)
        for i, b in enumerate(reversed(post)):
            self.order[b] = i
        preds = {}
        for b in seen:
            for s in succs[b]:
                preds.setdefault(s, []).append(b)
        self.preds = preds
        self.headers = {}
        for src, h in back:
            body = self.headers.setdefault(h, {h})
            w = [src]
            while w:
                x = w.pop()
                if x in body:
                    continue
                body.add(x)
                w += preds.get(x, [])
        # RPO must keep loop bodies before loop exits
        self.back = set(back)
        # sids consumed outside their block stay memoised until the consuming block is done
        self.cross, self.inblock = set(), {}
        where = {}
        for bid, b in fn.blocks.items():
            for e in b["e"]:
                if isinstance(e[1], int) and e[1]:
                    where[e[1]] = bid
        self.consumes = {}
        for bid, b in fn.blocks.items():
            c = set()
            for e in b["e"]:
                for x in walk(e):
                    if x is not e and isinstance(x[1], int) and x[1]:
                        c.add(x[1])
                        if where.get(x[1]) != bid:
                            self.cross.add(x[1])
            self.consumes[bid] = c
        self.where = where


UNDECIDED = []    # entry functions given up on; a check with no violation and a non-empty list gives no verdict


class Budget(Exception):
    pass


THOROUGH = False  # helpers one level deeper, larger budgets


class Engine:
    def __init__(self, db, rule, dyn=None, budget=400000):
        self.db, self.rule = db, rule
        self.reports = {}
        self.obligations = 0
        self.done = {}
        self.visited_fns = set()
        self._ecache = {}
        self._nn = {}
        self.rcls = {}
        self.steps = 0
        self.budget = budget
        if THOROUGH and not getattr(rule, "_deeper", False):
            rule._deeper = True
            rule.depth += 1
        if THOROUGH:
            self.LEVELS = tuple((c, b and 4 * b) for c, b in self.LEVELS)
        self.cache = {}
        self.dyn = dyn

    # ---------------------------------------------------------------- reporting
    def report(self, st, ctx, line, key, msg):
        k = (ctx.fn.rel, ctx.fn.q, key)
        if k not in self.reports:
            chain = "" if not ctx.path else " (reached from %s)" % " -> ".join(p[0] for p in ctx.path)
            self.reports[k] = {"where": "%s:%d" % (ctx.fn.rel, line), "fn": ctx.fn.sig(), "key": key, "msg": msg + chain, "path": st.steps() if st else []}

    # ---------------------------------------------------------------- types
    def etype(self, ctx, e):
        k = e[0]
        if k == "L":
            return {"int": "int", "bool": "bool", "float": "double", "null": "ptr", "str": "const char *"}.get(e[3], "?")
        if k == "V":
            v = ctx.fn.vars.get(e[3])
            return v["t"] if v else "?"
        if k == "M":
            return e[5] if len(e) > 5 else e[4]
        if k in ("B", "A"):
            return e[6]
        if k == "U":
            return e[5]
        if k == "K":
            return e[4]
        if k in ("P", "def"):
            return self.etype(ctx, e[3]) if e[3] else "?"
        if k == "C":
            i = self.db.fns.get(e[3])
            return i["ret"] if i else "?"
        if k == "N":
            return e[4]
        if k == "I":
            return re.sub(r"\s*(\*|\[\d*\])\s*(const)?$", "", e[5])
        if k == "?":
            return self.etype(ctx, e[4])
        if k == "E":
            return "enum"
        return "?"

    # ---------------------------------------------------------------- store
    def read(self, st, lv):
        seen = 0
        while True:
            v = st.env.get(lv)
            if v is None:
                break
            if v[0] == "ref":
                lv = v[1]
                seen += 1
                if seen > 20:
                    return ("cyc",)
                continue
            return v
        k = lv[0]
        if k == "t":
            return lv[2] if len(lv) > 2 else ("res", lv[1])
        if k == "f":
            b = st.env.get(lv[1])
            if b is not None and b[0] not in ("ref",):
                return ("fld", b, lv[2])
            d = st.env.get(("F", lv[2]))
            if d is not None and self.may_escape(lv):
                return ("hv", d, lv)
        elif k == "i":
            b = self.read(st, lv[1])
            if b[0] == "init" and not st.env.get(("F*",)):
                pass
            return ("elt", b, lv[2])
        elif k == "d":
            t = lv[1]
            d = st.env.get(("F", "*"))
            if d is not None:
                return ("hv", d, lv)
        return ("init", lv)

    @staticmethod
    def root(lv):
        while lv[0] in ("f", "i"):
            lv = lv[1]
        return lv

    def may_escape(self, lv):
        r = self.root(lv)
        return r[0] in ("d", "g")

    def norm(self, st, lv):
        """resolve reference bindings along the lvalue"""
        for _ in range(20):
            v = st.env.get(lv)
            if v is not None and v[0] == "ref":
                lv = v[1]
            else:
                break
        if lv[0] == "f":
            return ("f", self.norm(st, lv[1]), lv[2])
        if lv[0] == "i":
            return ("i", self.norm(st, lv[1]), lv[2])
        if lv[0] == "d" and lv[1][0] == "a":
            return self.norm(st, lv[1][1])
        return lv

    @staticmethod
    def prefix(p, lv):
        while True:
            if lv == p:
                return True
            if lv[0] in ("f", "i"):
                lv = lv[1]
            else:
                return False

    def write(self, st, lv, val, site):
        lv = self.norm(st, lv)
        if tsize(val) > MAXTERM:
            val = ("res", site)
        st.touch()
        env = st.env
        k = lv[0]
        # sub-objects of lv and containers of lv
        kill = []
        alias = []
        for o in env:
            if o[0] in ("F", "F*"):
                continue
            if o is lv or o == lv:
                continue
            if o[0] in ("f", "i") and self.prefix(lv, o):
                kill.append(o)
            elif k == "f" and o[0] == "f" and o[2] == lv[2] and self.mayalias(lv[1], o[1]):
                alias.append(o)
            elif k == "i" and o[0] == "i" and self.mayalias(lv, o):
                alias.append(o)
            elif k == "d" and o[0] == "d" and self.mayalias(lv, o):
                # two distinct reference parameters of one function are assumed to name distinct objects
                if not (lv[1][0] == "param" and o[1][0] == "param"):
                    alias.append(o)
        for o in kill:
            del env[o]
        for o in alias:
            env[o] = ("hv", site, o)
        p = lv
        while p[0] in ("f", "i"):
            p = p[1]
            if p in env and env[p][0] != "ref":
                env[p] = ("upd", site, env[p][1] if env[p][0] == "upd" and tsize(env[p]) < 30 else 0)
            elif lv[0] == "i" or p[0] in ("v", "f", "d", "g", "i") and self.has_init(st, p):
                env[p] = ("upd", site, 0)
        env[lv] = val

    def has_init(self, st, p):
        return False

    def mayalias(self, a, b):
        if a == b:
            return True
        ra, rb = self.root(a), self.root(b)
        if a[0] == "i" and b[0] == "i" and a[1] == b[1]:
            ia, ib = a[2], b[2]
            if isconst(ia) and isconst(ib):
                return False
            d = ladd(ia, ib, -1)
            if isconst(d) and d[1] != 0:
                return False
            return True
        if ra == rb:
            if a[0] == "i" and b[0] == "i":
                return self.mayalias(a[1], b[1]) if a[1] != b[1] else True
            if a[0] == "f" and b[0] == "f" and a[2] != b[2]:
                return False
            return a[0] == b[0] and a[0] in ("i",)
        for x in (ra, rb):
            if x[0] in ("v", "t"):
                return False
            if x[0] == "d" and x[1][0] == "new":
                return False
        if ra[0] == "g" and rb[0] == "g":
            return False
        return ra[0] == "d" or rb[0] == "d"

    def havoc(self, st, lv, site):
        lv = self.norm(st, lv)
        self.write(st, lv, ("hv", site, lv), site)

    def havoc_fields(self, st, fields, site):
        if not fields:
            return
        st.touch()
        env = st.env
        for f in fields:
            env[("F", f)] = site
        kill = []
        for o in env:
            if o[0] in ("f", "i"):
                x = o
                while x[0] in ("f", "i"):
                    if x[0] == "f" and x[2] in fields:
                        kill.append((o, x))
                        break
                    x = x[1]
        for o, x in kill:
            if self.may_escape(o) or o[1][0] in ("v", "t") and False:
                if o in env:
                    if o == x:
                        env[o] = ("hv", site, o)
                    else:
                        del env[o]
            elif self.root(o)[0] in ("v", "t", "g"):
                # local object: only reachable by the callee when passed along (handled as an argument)
                pass

    # ---------------------------------------------------------------- lvalues and values
    def lv(self, st, ctx, e):
        k = e[0]
        if isinstance(e[1], int) and e[1] and (ctx.path, e[1]) in st.memo:
            m = st.memo[(ctx.path, e[1])]
            if m[0] == "lv":
                return m[1]
            if k not in ("V", "M", "I"):
                return ("t", (ctx.path, e[1]), m[1])
        if k == "V":
            return self.norm(st, ctx.lvar(e[3]))
        if k == "M":
            return self.norm(st, ("f", self.lv(st, ctx, e[3]), e[4]))
        if k == "T":
            return ("t", ("this", ctx.path), ("a", ctx.this) if ctx.this else ("this",))
        if k == "I":
            b = e[3]
            bt = e[5]
            if "[" in bt and "(*" not in bt:
                base = self.lv(st, ctx, b)
            else:
                v = self.val(st, ctx, b)
                base = v[1] if v[0] == "a" else ("d", v)
            return self.norm(st, ("i", base, self.val(st, ctx, e[4])))
        if k == "U":
            if e[3] == "*":
                v = self.val(st, ctx, e[4])
                return self.deref(st, v)
            if e[3] in ("++", "--"):
                return self.lv(st, ctx, e[4])
            return ("t", (ctx.path, "u", e[1] or e[2]), self.val(st, ctx, e))
        if k == "A":
            return self.lv(st, ctx, e[4])
        if k in ("P",):
            return self.lv(st, ctx, e[3])
        if k == "def":
            return self.lv(st, ctx, e[3])
        if k == "K":
            return self.lv(st, ctx, e[6]) if "BitCast" in e[3] else ("t", (ctx.path, "k", e[1] or e[2]), self.val(st, ctx, e))
        if k == "dyn":
            v = self.val(st, ctx, e)
            return self.deref(st, v)
        if k == "B" and e[3] == ",":
            return self.lv(st, ctx, e[5])
        if k == "?":
            t = self.decide(st, truth(self.cond(st, ctx, e[3])))
            if t is True:
                return self.lv(st, ctx, e[4])
            if t is False:
                return self.lv(st, ctx, e[5])
        if k == "C":
            r = self.proxy(st, ctx, e)
            if r is not None:
                return r
        return ("t", (ctx.path, e[1] or ("l", e[2])), self.val(st, ctx, e))

    def deref(self, st, v):
        if v[0] == "a":
            return self.norm(st, v[1])
        if v[0] == "dyn" and False:
            return ("d", v[2])
        return ("d", v)

    def tocall(self, e):
        """a call node's callee info, or None"""
        return self.db.fns.get(e[3])

    def intree(self, usr):
        return usr in self.db.funcs or self.is_repo(usr)

    def is_repo(self, usr):
        c = self.db.__dict__.setdefault("_isrepo", {})
        r = c.get(usr)
        if r is None:
            r = c[usr] = self._is_repo(usr)
        return r

    def _is_repo(self, usr):
        i = self.db.fns.get(usr)
        if i is None:
            return usr.startswith("lambda@")
        c = i.get("cls")
        if c is not None:
            return c in self.db.classes or c.split("<")[0].split("::")[0] in ("VirtualRobot", "Saba", "GraspStudio", "SimDynamics", "MathPlanning")
        return i["q"].split("::")[0] in ("VirtualRobot", "Saba", "GraspStudio", "SimDynamics") or usr in self.db.funcs

    def proxy(self, st, ctx, e):
        """lvalue denoted by an external accessor call (smart pointers, containers, Eigen element access), else None"""
        i = self.tocall(e)
        if i is None or not e[4]:
            return None
        n = i["q"].rsplit("::", 1)[-1]
        cls = i.get("cls") or ""
        if self.is_repo(e[3]):
            return None
        if n == "operator*" and not e[5]:
            v = self.val(st, ctx, e[4])
            return self.deref(st, v)
        if n in ("operator[]", "operator()", "at", "coeffRef", "coeff") and e[5]:
            idx = [self.val(st, ctx, a) for a in e[5]]
            base = self.lv(st, ctx, e[4])
            if "unique_ptr" in cls or "shared_array" in cls or "scoped_array" in cls:
                base = self.deref(st, self.val(st, ctx, e[4]))
            return self.norm(st, ("i", base, idx[0] if len(idx) == 1 else ("tup",) + tuple(idx)))
        if n in ("front", "back") and not e[5]:
            return self.norm(st, ("i", self.lv(st, ctx, e[4]), ("end", n)))
        if n in ("operator=", "operator+=", "operator-=", "operator*=", "operator/=", "operator<<", "operator,"):
            return self.lv(st, ctx, e[4])
        if i["ret"].rstrip().endswith("&") or cls.startswith("Eigen"):
            return self.norm(st, ("i", self.lv(st, ctx, e[4]), ("m", n) + tuple(self.val(st, ctx, a) for a in e[5])))
        return None

    def val(self, st, ctx, e):
        k = e[0]
        if isinstance(e[1], int) and e[1] and k not in ("V", "M", "I", "T") and (ctx.path, e[1]) in st.memo:
            m = st.memo[(ctx.path, e[1])]
            return m[1] if m[0] == "val" else self.read(st, m[1])
        if k == "L":
            if e[3] in ("int", "bool", "char"):
                return ("k", int(e[4]))
            if e[3] in ("null", "zero"):
                return K0
            if e[3] == "float":
                f = e[4]
                return ("k", int(f) if isinstance(f, float) and f == int(f) else f)
            return (e[3], str(e[4]))
        if k == "E":
            return ("k", e[4])
        if k in ("V", "M", "I"):
            if k == "M" and e[3][0] in ("C", "N") and False:
                pass
            return self.read(st, self.lv(st, ctx, e))
        if k == "F":
            return ("fn", e[3])
        if k == "T":
            return ("a", ctx.this) if ctx.this else ("this",)
        if k in ("P", "def"):
            return self.val(st, ctx, e[3]) if e[3] else ("unk",)
        if k == "K":
            v = self.val(st, ctx, e[6])
            to, fr = e[4], e[5]
            if e[3] in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean"):
                return truth(v)
            if e[3] == "FloatingToIntegral":
                if isconst(v) and isinstance(v[1], int):
                    return v
                return ("cast", "f2i", v)
            if e[3] == "IntegralCast":
                us = "unsigned" in to or to in ("size_t",)
                uf = "unsigned" in fr or fr == "bool" or fr == "char"
                if us and not uf:
                    if isconst(v) and isinstance(v[1], int) and v[1] >= 0:
                        return v
                    if self.prove_le(st, K0, v):
                        return v
                    return ("ucast", v)
                return v
            return v
        if k == "dyn":
            return ("dyn", e[3], self.val(st, ctx, e[4]))
        if k == "U":
            op = e[3]
            if op == "*":
                return self.read(st, self.lv(st, ctx, e))
            if op == "&":
                return ("a", self.lv(st, ctx, e[4]))
            if op == "!":
                return NOT(truth(self.val(st, ctx, e[4])))
            v = self.val(st, ctx, e[4])
            if op == "-":
                return lmul(v, ("k", -1))
            if op == "+":
                return v
            return ("op", op, v)
        if k == "A":
            return self.read(st, self.lv(st, ctx, e[4]))
        if k == "B":
            return self.binop(st, ctx, e)
        if k == "?":
            t = self.decide(st, truth(self.cond(st, ctx, e[3])))
            if t is True:
                return self.val(st, ctx, e[4])
            if t is False:
                return self.val(st, ctx, e[5])
            return ("ite", truth(self.val(st, ctx, e[3])), self.val(st, ctx, e[4]), self.val(st, ctx, e[5]))
        if k == "li":
            if len(e[3]) == 1 and e[3][0]:
                return self.val(st, ctx, e[3][0])
            return ("list",) + tuple(self.val(st, ctx, x) for x in e[3] if x)
        if k == "lam":
            return ("lam", e[3], (ctx.path,))
        if k == "N":
            return self.ctorval(st, ctx, e)
        if k == "new":
            return ("new", (ctx.path, e[1]), e[3])
        if k == "C":
            return self.callval(st, ctx, e)
        if k == "G":
            return ("g", e[3], ctx.path, e[2])
        if k == "thr":
            return ("unk",)
        return ("unk", k)

    def cond(self, st, ctx, e):
        return truth(self.val(st, ctx, e))

    def dom(self, ctx, a, b):
        ta, tb = self.etype(ctx, strip_p(a)), self.etype(ctx, strip_p(b))
        if any(t.replace("const ", "").strip() in ("float", "double", "long double", "float &", "double &") for t in (ta, tb)):
            return "f"
        if "bool" in ta or "bool" in tb:
            return "b"
        return "i"

    def binop(self, st, ctx, e):
        op = e[3]
        if op in ("&&", "||"):
            l = truth(self.val(st, ctx, e[4]))
            t = self.decide(st, l)
            if op == "&&":
                if t is False:
                    return K0
                r = truth(self.val(st, ctx, e[5]))
                u = self.decide(st, r)
                if t is True:
                    return r
                if u is False:
                    return K0
                return ("and", l, r)
            if t is True:
                return K1
            r = truth(self.val(st, ctx, e[5]))
            if t is False:
                return r
            return ("or", l, r)
        if op == ",":
            return self.val(st, ctx, e[5])
        a, b = self.val(st, ctx, e[4]), self.val(st, ctx, e[5])
        if op in ("<", "<=", ">", ">=", "==", "!="):
            return rel(op, a, b, self.dom(ctx, e[4], e[5]))
        return self.arith(op, a, b, e[6])

    @staticmethod
    def arith(op, a, b, t=""):
        if op in ("+", "-"):
            if a[0] in ("a",) or b[0] == "a":
                return ("op", op, a, b)
            if any(isinstance(x, tuple) and x[0] in ("str", "list") for x in (a, b)):
                return ("op", op, a, b)
            if op == "-" and ("unsigned" in t):
                r = ladd(a, b, -1)
                if isconst(r) and r[1] >= 0:
                    return r
                return ("usub", a, b)
            return ladd(a, b, 1 if op == "+" else -1)
        if op == "*":
            return lmul(a, b)
        if op == "/" and isconst(b) and isinstance(b[1], (int, float)) and b[1] == 1:
            return a
        if isconst(a) and isconst(b) and all(isinstance(x[1], int) for x in (a, b)):
            x, y = a[1], b[1]
            if op == "%" and y:
                return ("k", x % y if x >= 0 and y > 0 else -((-x) % y))
            if op == "/" and y and x >= 0 and y > 0 and "float" not in t and "double" not in t:
                return ("k", x // y)
            if op == "<<" and 0 <= y < 60:
                return ("k", x << y)
            if op == ">>" and 0 <= y < 60:
                return ("k", x >> y)
            if op == "&":
                return ("k", x & y)
            if op == "|":
                return ("k", x | y)
        return ("op", op, a, b)

    # ---------------------------------------------------------------- facts
    def decide(self, st, t):
        if t[0] == "k":
            return bool(t[1])
        if t[0] == "not":
            r = self.decide(st, t[1])
            return None if r is None else not r
        f = st.facts.get(t)
        if f is not None:
            return f
        if t[0] == "t":
            v = t[1]
            if v[0] in ("a", "new", "lam", "str", "fn"):
                return True
            if v[0] == "hv" or v[0] == "init":
                pass
            for s, want in ((("t", v), None),):
                pass
            # x == k fact with k != 0 makes x true
            for g, p in st.facts.items():
                if p and g[0] == "==" and (g[1] == v and isconst(g[2]) or g[2] == v and isconst(g[1])):
                    kk = g[2] if g[1] == v else g[1]
                    return bool(kk[1])
            if v[0] == "dyn":
                r = self.decide(st, ("t", v[2]))
                if r is False:
                    return False
            if v[0] in ("lin", "init", "phi", "hv", "call", "res", "elt", "fld", "usub", "ucast"):
                if self.prove_le(st, K1, v) or self.prove_le(st, v, ("k", -1)):
                    return True
            return None
        if t[0] == "==":
            a, b = t[1], t[2]
            if isconst(b):
                if st.facts.get(("t", a)) is False:
                    return b[1] == 0
                for g, p in st.facts.items():
                    if p and g[0] == "==" and g[1] == a and isconst(g[2]) and g[2] != b:
                        return False
            if a[0] == b[0] == "it" and {a[1], b[1]} == {"begin", "end"} and a[2] == b[2]:
                z = self.size_of(a[2])
                if self.prove_le(st, z, K0):
                    return True
                if self.prove_lt(st, K0, z):
                    return False
                return None
            d = ladd(a, b, -1)
            if isconst(d) and isinstance(d[1], (int, float)):
                return d[1] == 0
            if self.numeric(a) and self.numeric(b):
                if self.prove_lt(st, a, b) or self.prove_lt(st, b, a):
                    return False
            return None
        if t[0] in ("<", "<="):
            a, b, dom = t[1], t[2], t[3]
            if t[0] == "<":
                if self.prove_lt(st, a, b, dom):
                    return True
                if self.prove_le(st, b, a, dom):
                    return False
            else:
                if self.prove_le(st, a, b, dom):
                    return True
                if self.prove_lt(st, b, a, dom):
                    return False
            return None
        if t[0] == "and":
            a, b = self.decide(st, t[1]), self.decide(st, t[2])
            if a is False or b is False:
                return False
            return True if a and b else None
        if t[0] == "or":
            a, b = self.decide(st, t[1]), self.decide(st, t[2])
            if a or b:
                return True
            return False if a is False and b is False else None
        return None

    @staticmethod
    def numeric(t):
        return t[0] not in ("str", "lam", "new", "a", "fn", "list")

    def assume(self, st, t, pol):
        """-> new state or None"""
        if t[0] == "not":
            return self.assume(st, t[1], not pol)
        d = self.decide(st, t)
        if d is not None:
            return st if d == pol else None
        if t[0] == "and" and pol or t[0] == "or" and not pol:
            s = self.assume(st, t[1], pol)
            return self.assume(s, t[2], pol) if s else None
        if t[0] == "and" and not pol or t[0] == "or" and pol:
            a, b = self.decide(st, t[1]), self.decide(st, t[2])
            if a is pol is False or a == (not pol):
                return self.assume(st, t[2], pol)
            if b == (not pol):
                return self.assume(st, t[1], pol)
        if t[0] == "t" and t[1][0] == "ite":
            c, x, y = t[1][1:]
            dx, dy = self.decide(st, truth(x)), self.decide(st, truth(y))
            if dx is not None and dx != pol:
                s = self.assume(st, c, False)
                return self.assume(s, truth(y), pol) if s else None
            if dy is not None and dy != pol:
                s = self.assume(st, c, True)
                return self.assume(s, truth(x), pol) if s else None
        n = st.copy()
        n.facts[t] = pol
        if t[0] == "t" and pol and t[1][0] == "dyn":
            n.facts[("t", t[1][2])] = True
        return n

    # difference bounds -------------------------------------------------
    def nonneg(self, st, t):
        if t[0] in ("size", "ucast", "usub"):
            return True
        if t[0] in ("param", "init"):
            r = self._nn.get(t)
            if r is None:
                r = self._nn[t] = bool(re.match(r"(const )?(unsigned|size_t|std::size_t)\b[^*\[]*$", self.type_of(t) or ""))
            return r
        return False

    def _edges(self, st):
        """x - y <= c edges from the facts, for integer and real comparisons"""
        E = {}
        c = self._ecache
        for f, p in st.facts.items():
            l = c.get((f, p))
            if l is None:
                l = c[(f, p)] = self._fact_edges(st, f, p)
            for k, w in l:
                if k not in E or E[k] > w:
                    E[k] = w
        return E

    def _fact_edges(self, st, f, p):
        E = []

        def add(a, b, c):  # a - b <= c
            d = ladd(a, b, -1)
            k, m = lin(d)
            if len(m) > 2 or not m:
                return
            items = list(m.items())
            if len(items) == 1:
                (x, cx), = items
                if cx == 1:
                    E.append(((x, None), c - k))
                elif cx == -1:
                    E.append(((None, x), c - k))
            else:
                (x, cx), (y, cy) = items
                if cx == 1 and cy == -1:
                    E.append(((x, y), c - k))
                elif cx == -1 and cy == 1:
                    E.append(((y, x), c - k))

        if f[0] in ("<", "<=") and len(f) == 4:
            a, b, dom = f[1], f[2], f[3]
            if not (self.numeric(a) and self.numeric(b)):
                return E
            one = 1 if dom != "f" else 0
            if f[0] == "<":
                if p:
                    add(a, b, -one)
                    if a[0] == "ucast":
                        add(K0, a[1], 0)
                        add(a[1], b, -one)
                else:
                    add(b, a, 0)
                    if b[0] == "ucast":
                        add(b[1], a, 0)
                        add(K0, b[1], 0)
            elif p:
                add(a, b, 0)
                if a[0] == "ucast":
                    add(a[1], b, 0)
                    add(K0, a[1], 0)
            else:
                add(b, a, -one)
        elif f[0] == "==" and p and self.numeric(f[1]) and self.numeric(f[2]):
            add(f[1], f[2], 0)
            add(f[2], f[1], 0)
        elif f[0] == "t" and self.nonneg(st, f[1]):
            if p:
                add(K1, f[1], 0)
            else:
                add(f[1], K0, 0)
        elif f[0] == "t" and p is False and self.numeric(f[1]):
            add(f[1], K0, 0)
            add(K0, f[1], 0)
        return E

    def prove_le(self, st, a, b, dom="i", strict=False):
        if not (self.numeric(a) and self.numeric(b)):
            return False
        d = ladd(a, b, -1)
        k, m = lin(d)
        if not isinstance(k, (int, float)):
            return False
        if not m:
            return k < 0 if strict else k <= 0
        goal = -k  # sum(m) <= goal
        if strict and dom != "f":
            goal -= 1
        if strict and dom == "f":
            # look for an exact strict fact only
            return st.facts.get(("<", a, b, "f")) is True or st.facts.get(("<=", b, a, "f")) is False
        if len(m) == 1:
            (x, c), = m.items()
            if c not in (1, -1):
                return self._bigprove(st, m, goal)
            src, dst = (x, None) if c == 1 else (None, x)
        elif len(m) == 2:
            (x, cx), (y, cy) = m.items()
            if {cx, cy} != {1, -1}:
                return self._bigprove(st, m, goal)
            src, dst = (x, y) if cx == 1 else (y, x)
        else:
            return self._bigprove(st, m, goal)
        E = self._edges(st)
        nodes = {src, dst, None}
        for (p, q) in E:
            nodes.add(p)
            nodes.add(q)
        for n in list(nodes):
            if n is not None:
                if self.nonneg(st, n):
                    if (None, n) not in E or E[(None, n)] > 0:
                        E[(None, n)] = 0
                if n[0] == "min":
                    for x in n[1:]:
                        self._put(E, n, x)
                if n[0] == "max":
                    for x in n[1:]:
                        self._put(E, x, n)
        adj = {}
        for (p, q), c in E.items():
            adj.setdefault(p, []).append((q, c))
        dist = {src: 0}
        for _ in range(len(nodes) + 1):
            ch = False
            for p in list(dist):
                for q, c in adj.get(p, ()):
                    if q not in dist or dist[q] > dist[p] + c:
                        dist[q] = dist[p] + c
                        ch = True
            if not ch:
                break
        return dst in dist and dist[dst] <= goal

    @staticmethod
    def _put(E, x, y):
        d = ladd(x, y, -1)
        k, m = lin(d)
        it = list(m.items())
        if len(it) == 1:
            (p, c), = it
            key = (p, None) if c == 1 else (None, p) if c == -1 else None
        elif len(it) == 2 and {it[0][1], it[1][1]} == {1, -1}:
            key = (it[0][0], it[1][0]) if it[0][1] == 1 else (it[1][0], it[0][0])
        else:
            return
        if key and (key not in E or E[key] > -k):
            E[key] = -k

    def _bigprove(self, st, m, goal):
        # sums of nonneg terms with negative coefficients
        if all(c < 0 and self.nonneg(st, x) for x, c in m.items()):
            return goal >= 0
        if len(m) >= 3:
            for x, c in m.items():
                if c < 0 and self.nonneg(st, x):
                    r = ("lin", 0, tuple((y, d) for y, d in m.items() if y != x))
                    if self.prove_le(st, r, ("k", goal)):
                        return True
        return False

    def prove_lt(self, st, a, b, dom="i"):
        return self.prove_le(st, a, b, dom, True)

    # ---------------------------------------------------------------- call values (pure re-evaluation)
    def is_smart(self, t):
        return bool(SMART.match(t.replace("const ", "").strip()))

    def ctorval(self, st, ctx, e):
        t, args = e[4], e[5]
        if len(args) == 0:
            return K0 if self.is_smart(t) else ("ctor", t)
        if len(e) > 6 and e[6] == "copy":
            return self.val(st, ctx, args[0])
        if self.is_smart(t):
            return self.val(st, ctx, args[0])
        real = [a for a in args if a[0] != "def"]
        if len(real) == 1 and (t.startswith("std::__cxx11::basic_string") or "iterator" in t):
            return self.val(st, ctx, real[0])
        return ("ctor", t) + tuple(self.val(st, ctx, a) for a in args if a[0] != "def")

    def callval(self, st, ctx, e):
        """value of a call that has not been executed as an element of its own (nested pure use)"""
        r = self.model(st, ctx, e, pure=True)
        if r is not None:
            return r
        p = self.proxy(st, ctx, e)
        if p is not None:
            return self.read(st, p)
        return self.opaque_value(st, ctx, e, self.tocall(e), (ctx.path, e[1] or e[2]))

    def readset(self, usr):
        return self.summ(usr)[1]

    def opaque_value(self, st, ctx, e, info, site):
        if info is None:
            return ("res", site)
        usr = e[3]
        args = tuple(self.val(st, ctx, a) for a in e[5])
        recv = None
        if e[4]:
            rl = self.lv(st, ctx, e[4])
            rl = self.norm(st, rl)
            recv = ("a", rl)
        if self.is_repo(usr):
            pure = info.get("const") or self.is_pure(usr)
            if not pure or info["ret"] == "void":
                return ("res", site)
            dirty = frozenset((f, st.env[("F", f)]) for f in self.readset(usr) if ("F", f) in st.env)
            own = frozenset((f, st.env[("f", recv[1], f)]) for f in self.readset(usr) if recv and ("f", recv[1], f) in st.env and not any(x[0] == f for x in dirty))
            base = self.read(st, recv[1]) if recv and recv[1][0] in ("v", "t") else None
            return ("call", usr, recv, args, dirty, own, base)
        n = info["q"].rsplit("::", 1)[-1]
        if e[4] is None:
            if info["ret"] == "void" or n in ("rand", "time", "clock", "random", "drand48"):
                return ("res", site)
            return ("call", info["q"], None, args)
        if info.get("const") or n in ("begin", "end", "size", "length", "find", "count", "c_str", "get"):
            return ("call", info["q"], self.read(st, recv[1]), args)
        return ("res", site)

    def is_pure(self, usr):
        mods, reads, unk = self.summ(usr)
        return not mods and not unk

    # ---------------------------------------------------------------- modification summaries
    def summ(self, usr):
        c = self.db.__dict__.get("_summ")
        if c is None:
            self._summaries()
            c = self.db.__dict__["_summ"]
        r = c.get(usr)
        return r if r is not None else NOSUMM

    def _summaries(self):
        db = self.db
        c = db.__dict__.setdefault("_summ", {})
        direct, callees = {}, {}
        for u, f in db.funcs.items():
            direct[u], callees[u] = direct_effects(db, f, self)
        # resolve virtual calls to all overriders
        changed = True
        cur = {u: (set(m), set(r), k) for u, (m, r, k) in direct.items()}
        tg = {}
        allc = set()
        for u in callees:
            allc |= callees[u]
        for t in allc:
            s = {t} if t in db.funcs else set()
            s |= {o for o in db.all_overriders(t) if o in db.funcs}
            tg[t] = s
        rev = {}
        for u in callees:
            for t in callees[u]:
                for x in tg[t]:
                    rev.setdefault(x, set()).add(u)
        db.__dict__['_rev'] = rev
        w = list(cur)
        inq = set(w)
        while w:
            x = w.pop()
            inq.discard(x)
            m, r, k = cur[x]
            for u in rev.get(x, ()):
                M, R, Kk = cur[u]
                n0 = len(M) + len(R)
                M |= m
                R |= r
                if len(M) + len(R) != n0:
                    if u not in inq:
                        inq.add(u)
                        w.append(u)
        for u, (m, r, k) in cur.items():
            c[u] = (frozenset(m), frozenset(r), k)
        for t in set(db.fns) - set(cur):
            s = {o for o in db.all_overriders(t) if o in db.funcs}
            if s:
                M, R = set(), set()
                for x in s:
                    M |= cur[x][0]
                    R |= cur[x][1]
                c[t] = (frozenset(M), frozenset(R), False)
        for t in list(cur):
            s = {o for o in db.all_overriders(t) if o in cur}
            if s:
                M, R = set(cur[t][0]), set(cur[t][1])
                for x in s:
                    M |= cur[x][0]
                    R |= cur[x][1]
                c[t] = (frozenset(M), frozenset(R), False)

    # ---------------------------------------------------------------- models of library calls
    def model(self, st, ctx, e, pure=False):
        """value of well-known library calls without side effects; None if not modelled"""
        i = self.tocall(e)
        if i is None or self.is_repo(e[3]):
            return None
        q = i["q"]
        n = q.rsplit("::", 1)[-1]
        cls = i.get("cls") or ""
        a = e[5]
        if e[4]:
            if self.is_smart(cls):
                if n in ("operator->", "get", "lock") or n.startswith("operator boost::") or n.startswith("operator ") and not a:
                    v = self.val(st, ctx, e[4])
                    return truth(v) if "bool" in n else v
                if n == "operator!":
                    return NOT(truth(self.val(st, ctx, e[4])))
                if n == "expired":
                    return NOT(truth(self.val(st, ctx, e[4])))
                return None
            if n == "operator->" and not a:
                return self.val(st, ctx, e[4])
            if n in ("size", "length", "rows") and not a:
                v = self.read(st, self.lv(st, ctx, e[4]))
                return self.size_of(v)
            if n == "empty" and not a:
                v = self.read(st, self.lv(st, ctx, e[4]))
                return NOT(truth(self.size_of(v)))
            if n in ("begin", "end", "cbegin", "cend") and not a and not cls.startswith("Eigen"):
                v = self.read(st, self.lv(st, ctx, e[4]))
                return ("it", n.lstrip("c"), v)
            return None
        if n in ("fabs", "abs", "fabsf") and len(a) == 1:
            return ("call", "abs", None, (self.val(st, ctx, a[0]),))
        if n in ("min", "max") and len(a) == 2:
            v = sorted((self.val(st, ctx, a[0]), self.val(st, ctx, a[1])), key=ordk)
            return (n,) + tuple(v)
        if n in ("operator==", "operator!=") and len(a) == 2:
            x, y = self.val(st, ctx, a[0]), self.val(st, ctx, a[1])
            return rel("==" if n == "operator==" else "!=", x, y)
        if n in ("operator<", "operator>", "operator<=", "operator>=") and len(a) == 2:
            return rel(n[8:], self.val(st, ctx, a[0]), self.val(st, ctx, a[1]), "f")
        if n in ("dynamic_pointer_cast",):
            return ("dyn", i["ret"], self.val(st, ctx, a[0]))
        if n in ("static_pointer_cast", "const_pointer_cast", "move", "forward"):
            return self.val(st, ctx, a[0])
        if n in ("make_shared", "make_unique"):
            return ("new", (ctx.path, e[1]), i["ret"])
        return None

    @staticmethod
    def size_of(v):
        if v == ("k", 0):
            return K0
        if v[0] == "ctor" and len(v) == 2:
            return K0
        if v[0] == "pb":  # push_back result
            return ladd(Engine.size_of(v[1]), K1)
        return ("size", v)

    # ---------------------------------------------------------------- execution
    LEVELS = ((None, 2500), (6, 4000), (2, 6000), (1, None))

    def run(self, fn, auto=None, this="default", env=None, facts=None):
        """analyse fn as an entry point; returns its exits [(kind, state, value)]. Path sensitivity is adaptive: when a function has
        too many paths the analysis restarts with fewer states kept apart per program point (states with different automaton states
        are always kept apart)."""
        cap0, b0 = self.rule.cap, self.budget
        rep, ob = dict(self.reports), self.obligations
        try:
            for cap, bud in self.LEVELS:
                self.rule.cap = cap0 if cap is None else min(cap, cap0)
                self.budget = b0 if bud is None else min(bud, b0)
                self.reports, self.obligations, self.steps = dict(rep), ob, 0
                try:
                    return self._run(fn, auto, this, env, facts)
                except Budget:
                    if bud is None or self.budget == b0:
                        UNDECIDED.append(fn.sig())
                        return []
        finally:
            self.rule.cap, self.budget = cap0, b0

    def _run(self, fn, auto=None, this="default", env=None, facts=None):
        a = self.rule.initial() if auto is None else auto
        th = ("d", ("this",)) if fn.cls and not fn.info.get("static") and not fn.info.get("lambda") else None
        if this != "default":
            th = this
        st = St(dict(env or {}), dict(facts or {}), a, {})
        if th is not None:
            st.facts[("t", ("this",))] = True
        ctx = Ctx(fn, (), th, 0)
        for p in fn.params:
            v = fn.vars.get(p) or {}
            if v.get("ref"):
                st.env[("v", (), p)] = ("ref", ("d", ("param", p)))
            else:
                st.env[("v", (), p)] = ("param", p)
        self.entry_ctx = ctx
        return self.exec_fn(ctx, [st])

    def exec_fn(self, ctx, states):
        fn = ctx.fn
        self.visited_fns.add(fn.id)
        li = fn_loops(fn)
        pend = {}
        headers = {}
        exits = []
        q = []

        def push(b, st, src):
            if self.rule.edges:
                st = self.rule.on_edge(self, st, ctx, li, src, b)
                if st is None:
                    return
            if b in li.headers:
                back = (src, b) in li.back
                for s2 in self.header_join(ctx, li, b, st, back, headers):
                    enqueue(b, s2)
            else:
                enqueue(b, st)

        def enqueue(b, st):
            d = pend.setdefault(b, {})
            k = st.key()
            if k in d:
                return
            d[k] = st
            if len(d) == 1:
                heapq.heappush(q, (li.order.get(b, 10 ** 6), b))

        for st in states:
            for s2 in self.aslist(self.rule.on_enter(self, st, ctx)):
                push(fn.entry, s2, None)
        seen = {}
        while q:
            _, b = heapq.heappop(q)
            d = pend.pop(b, None)
            if not d:
                continue
            sts = list(d.values())
            done = seen.setdefault(b, set())
            sts = [s for s in sts if s.key() not in done]
            if len(sts) > self.rule.cap:
                sts = self.merge_states(ctx, b, sts)
                sts = [s for s in sts if s.key() not in done]
            for s in sts:
                done.add(s.key())
            if len(done) > 40 * self.rule.cap:
                raise Budget("state explosion in %s block %d" % (fn.q, b))
            for s in sts:
                self.exec_block(ctx, li, b, s, push, exits)
        return self.summarise(ctx, exits)

    @staticmethod
    def aslist(x):
        return x if isinstance(x, list) else [x]

    def drop_local(self, ctx, st, val):
        p = ctx.path
        n = len(p)
        st.touch()
        for k in [k for k in st.env if k[0] not in ("F", "F*") and self._ctx_of(k) is not None and self._ctx_of(k)[:n] == p and (n > 0)]:
            del st.env[k]
        for k in [k for k in st.memo if k[0][:n] == p]:
            del st.memo[k]

    def _ctx_of(self, lv):
        r = self.root(lv)
        if r[0] == "v":
            return r[1]
        if r[0] == "t":
            s = r[1]
            return s[0] if isinstance(s, tuple) and s and isinstance(s[0], tuple) else None
        return None

    def summarise(self, ctx, exits):
        res = {}
        for kind, st, v in exits:
            if kind == "throw":
                self.rule.on_unwind(self, st, ctx)
            if ctx.depth > 0:
                if isinstance(v, tuple) and v and v[0] == "lvret":
                    r = self.root(v[1])
                    if r[0] == "v" and r[1] == ctx.path:
                        v = self.read(st, v[1])
                        v = ("valret", v)
                self.drop_local(ctx, st, v)
            res.setdefault((kind, v, st.key()), (kind, st, v))
        out = list(res.values())
        if ctx.depth > 0 and len(out) > self.rule.cap:
            groups = {}
            for kind, st, v in out:
                kv = v if v is None or (v[0] == "valret" and isconst(v[1])) else "?"
                groups.setdefault((kind, kv, self.rule.merge_key(st)), []).append((st, v))
            out = []
            for (kind, kv, _), l in groups.items():
                vs = {v for _, v in l}
                v = kv if kv != "?" else (vs.pop() if len(vs) == 1 else ("valret", ("res", (ctx.path, "ret"))))
                out.append((kind, self.merge2(ctx, "ret", [s for s, _ in l]), v))
        return out

    def phi(self, ctx, b, lv):
        return ("phi", ctx.path, b, lv)

    def merge2(self, ctx, b, sts):
        first = sts[0]
        env, facts = {}, dict(first.facts)
        keys = set(first.env)
        for s in sts[1:]:
            keys &= set(s.env) | {k for k in keys if k[0] in ("F", "F*")}
            facts = {f: p for f, p in facts.items() if s.facts.get(f) == p}
        allk = set()
        for s in sts:
            allk |= set(s.env)
        for k in allk:
            vs = {s.env.get(k) for s in sts}
            if k[0] in ("F", "F*"):
                vs.discard(None)
                env[k] = vs.pop() if len(vs) == 1 else ("m",) + tuple(sorted(vs, key=ordk))[:1]
                continue
            if None in vs:
                vs = {s.env[k] if k in s.env else self.read(s, k) for s in sts}
            if len(vs) == 1:
                env[k] = vs.pop()
            elif any(v[0] == "ref" for v in vs):
                continue
            else:
                env[k] = self.phi(ctx, b, k)
        memo = {k: v for k, v in first.memo.items() if all(s.memo.get(k) == v for s in sts[1:])}
        for s in sts:
            for k in s.memo:
                if k not in memo:
                    memo[k] = ("val", ("res", (k[0], k[1], "m", b)))
        for k, v in env.items():
            if v == self.phi(ctx, b, k) and all(s.env.get(k, K0)[0] == "pb" for s in sts):
                facts[("t", ("size", v))] = True
        # bounds that hold for every merged value
        out = St(env, facts, first.auto, memo, first.trail)
        for s in sts[1:]:
            out.auto = self.rule.merge_auto(out.auto, s.auto)
        return out

    def merge_states(self, ctx, b, sts):
        def flags(s):
            return frozenset((k, v) for k, v in s.env.items() if k[0] == "v" and k[1] == ctx.path and isconst(v) and self.is_flag(ctx, k))

        blk = ctx.fn.blocks.get(b) if not isinstance(b, tuple) else None
        c = blk.get("c") if blk and len(blk["s"]) == 2 else None

        def outcome(s):
            # a condition that was evaluated earlier and is tested here keeps its outcome
            return self.decide(s, self.cond(s.copy(), ctx, c)) if c and c[0] == "B" and c[3] in ("&&", "||") else None

        def retv(s):
            # constant results stay apart
            r = s.memo.get((ctx.path, "ret"))
            return r if r and isinstance(r[1], tuple) and isconst(r[1]) else None
        for keys in ((self.rule.merge_key, flags, retv, outcome), (self.rule.merge_key, retv, outcome)):
            g = {}
            for s in sts:
                g.setdefault(tuple(k(s) for k in keys), []).append(s)
            if len(g) <= self.rule.cap * 2:
                break
        res = []
        for key, l in g.items():
            m = l[0] if len(l) == 1 else self.merge2(ctx, b, l)
            if len(l) > 1 and key[-1] is not None and c[1]:
                m.memo[(ctx.path, c[1])] = ("val", K1 if key[-1] else K0)
                m.touch()
            res.append(m)
        return res

    def is_flag(self, ctx, k):
        v = ctx.fn.vars.get(k[2])
        return bool(v) and v["t"].replace("const ", "") in ("bool",) or bool(v) and self.is_smart(v["t"]) or bool(v) and v["t"].endswith("*")

    def header_join(self, ctx, li, b, st, back, headers):
        """widening at a loop head; returns the states to (re)process"""
        body = li.headers[b]
        n = len(ctx.path)

        def loopterm(x):
            if x and x[0] == "phi" and len(x) == 4:
                if x[1] == ctx.path:
                    h = x[2]
                    while isinstance(h, tuple):
                        h = h[1] if len(h) > 1 else None
                    return h in body
                return isinstance(x[1], tuple) and x[1][:n] == ctx.path and len(x[1]) > n and len(x[1][n]) > 2 and x[1][n][2] in body
            if x and x[0] in ("res", "hv", "new", "upd", "ite") and len(x) > 1:
                return in_body(x[1])
            return False

        def in_body(site):
            # site: (path, sid) or deeper
            if isinstance(site, tuple) and len(site) >= 1 and isinstance(site[0], tuple):
                path = site[0]
                if path[:n] == ctx.path:
                    if len(path) == n:
                        return len(site) > 1 and li.where.get(site[1]) in body
                    return isinstance(path[n], tuple) and len(path[n]) > 2 and path[n][2] in body
            return False

        if back:
            # values produced in the iteration that just ended are not comparable with those of the next one
            cur = {k: v for k, v in st.env.items()}
            def stale(x):
                if not loopterm(x):
                    return False
                if x[0] == "phi" and x[1] == ctx.path and x[2] == b:
                    return cur.get(x[3]) != x
                return True
            pre = st
            ns = St({}, {}, st.auto, {}, st.trail)
            changed = {}
            for k, v in st.env.items():
                if k[0] in ("v",) and k[1][:n] == ctx.path and len(k[1]) > n:
                    continue
                if mentions(k, stale):
                    continue
                if v[0] != "ref" and v[0] != "phi" and mentions(v, stale) or v[0] == "phi" and stale(v):
                    changed[k] = v
                    ns.env[k] = self.phi(ctx, b, k)
                else:
                    ns.env[k] = v
            for f, p in st.facts.items():
                if not mentions(f, stale) and not any(mentions(f, lambda x, c=c: x == self.phi(ctx, b, c)) for c in changed):
                    ns.facts[f] = p
            for k, v in changed.items():
                if v[0] == "pb":
                    ns.facts[("t", ("size", self.phi(ctx, b, k)))] = True
            # a value bound by facts keeps interval information through the rename
            ns.auto = self.rule.purge(st.auto, stale)
        else:
            pre, ns, changed = st, st.copy(), {}
        flags = frozenset((k, v) for k, v in ns.env.items() if isconst(v) and v[1] in (0, 1) and (k[0] == "v" and k[1] == ctx.path and self.is_flag_b(ctx, k)))
        gk = (self.rule.merge_key(ns), flags)
        old = headers.setdefault(b, {})
        if gk not in old:
            if len(old) > 24:
                gk = (self.rule.merge_key(ns), None)
            if gk not in old:
                ns.touch()
                init = {k: v for k, v in ns.env.items()}
                self.carry_bounds(ctx, b, pre, ns, changed, init)
                old[gk] = (ns, init)
                return [ns]
        o, init = old[gk]
        # join
        env = {}
        allk = set(o.env) | set(ns.env)
        newphi = {}
        for k in allk:
            x, y = o.env.get(k), ns.env.get(k)
            if k[0] in ("F", "F*"):
                env[k] = x if y is None or x == y else (y if x is None else ("m", (ctx.path, b)))
                continue
            if x is None or y is None:
                if k[0] == "v" and k[1] == ctx.path and (x is None):
                    continue  # declared inside the loop
                if x is None and y is None:
                    continue
                x = self.read(o, k) if x is None else x
                y = self.read(ns, k) if y is None else y
            if x == y:
                env[k] = x
            elif x[0] == "ref" or y[0] == "ref":
                continue
            else:
                env[k] = self.phi(ctx, b, k)
                newphi[k] = True
        facts = {f: p for f, p in o.facts.items() if ns.facts.get(f) == p}
        # a fact kept from one side may be implied on the other
        for (s1, s2) in ((o, ns), (ns, o)):
            for f, p in s1.facts.items():
                if f not in facts and f[0] in ("<", "<=") and self.decide(s2, f) is p:
                    facts[f] = p
        facts = {f: p for f, p in facts.items() if not any(mentions(f, lambda x, c=c: x == self.phi(ctx, b, c)) for c in newphi if o.env.get(c) != self.phi(ctx, b, c))}
        for k in newphi:
            def nonempty(s1):
                v = s1.env.get(k, K0)
                return v[0] == "pb" or s1.facts.get(("t", ("size", v))) is True
            if nonempty(o) and nonempty(ns):
                facts[("t", ("size", self.phi(ctx, b, k)))] = True
        memo = {}
        j = St(env, facts, self.rule.merge_auto(o.auto, ns.auto), memo, o.trail)
        # induction bounds
        for k in env:
            if env[k] == self.phi(ctx, b, k):
                ph = env[k]
                ov = o.env.get(k)
                if ov is None:
                    ov = self.read(o, k)
                nv = pre.env.get(k) if back else ns.env.get(k)
                if nv is None:
                    nv = self.read(pre if back else ns, k)
                iv = init.get(k)
                if ov[0] == "ref" or nv[0] == "ref" or not self.numeric(ov) or not self.numeric(nv):
                    continue
                cands = [c for c in (iv, K0) if c is not None and c[0] != "ref" and self.numeric(c) and not mentions(c, loopterm)]
                psrc = pre if back else ns
                for c in cands:
                    if self.prove_le(o, c, ov) and self.prove_le(psrc, c, nv):
                        j.facts[NOT_(rel("<", ph, c))] = True if rel("<", ph, c)[0] == "x" else None
                        self._setfact(j, NOT(rel("<", ph, c)))
                    if self.prove_le(o, ov, c) and self.prove_le(psrc, nv, c):
                        self._setfact(j, NOT(rel("<", c, ph)))
        for f in [f for f, p in j.facts.items() if p is None]:
            del j.facts[f]
        if j.key() == o.key():
            return []
        old[gk] = (j, init)
        return [j]

    def is_flag_b(self, ctx, k):
        v = ctx.fn.vars.get(k[2])
        return bool(v) and v["t"].replace("const ", "") in ("bool",)

    def carry_bounds(self, ctx, b, pre, ns, changed, init):
        for k in changed:
            pass

    @staticmethod
    def _setfact(st, t):
        if t[0] == "not":
            if t[1][0] != "k":
                st.facts[t[1]] = False
        elif t[0] != "k":
            st.facts[t] = True

    # ---------------------------------------------------------------- exceptions inside try blocks
    def maythrow(self, ctx, e, st):
        """state in which the call e, inside a try block, has thrown (None: it cannot throw)"""
        if e[0] not in ("C", "N") or not e[3]:
            return None
        if not can_throw(self.db, e[3]):
            return None
        n = st.copy()
        if e[0] == "C" and self.is_repo(e[3]):
            self.havoc_fields(n, self.summ(e[3])[0], (ctx.path, e[1]))
        return n

    def handler_locals(self, ctx, fn, disp, st):
        """destroy the locals declared in the try block that is being left"""
        ds = []
        for blk in fn.blocks.values():
            for e in blk["e"]:
                if e[0] == "DS" and e[1] in fn.tryof:
                    t = fn.tryof[e[1]]
                    while t >= 0 and t != disp:
                        t = fn.trys.get(t, -1)
                    if t == disp:
                        ds += [(e[2], d[0]) for d in e[3]]
        for line, v in sorted(ds, reverse=True):
            l = ctx.lvar(v)
            if l in st.env:
                self.rule.on_dtor(self, st, ctx, l, line)
                del st.env[l]
                st.touch()

    # ---------------------------------------------------------------- blocks
    def exec_block(self, ctx, li, b, st, push, exits):
        self.steps += 1
        if self.steps > self.budget:
            raise Budget("analysis budget exceeded in %s" % ctx.fn.q)
        fn = ctx.fn
        blk = fn.blocks[b]
        states = [st.copy()]
        for e in blk["e"]:
            nxt = []
            for s in states:
                disp = fn.tryof.get(e[1]) if fn.tryof else None
                outs = self.exec_elem(ctx, b, e, s.copy() if disp is not None else s)
                if disp is not None and not any(o[0] == "throw" for o in outs):
                    t = self.maythrow(ctx, e, s)
                    if t is not None:
                        outs.append(("throw", t, None))
                for kind, s2, v in outs:
                    if kind == "go":
                        nxt.append(s2)
                    elif kind == "throw" and disp is not None:
                        self.handler_locals(ctx, fn, disp, s2)
                        push(disp, s2, b)
                    else:
                        exits.append((kind, s2, v))
            states = nxt
            if not states:
                break
            if len(states) > self.rule.cap * 2:
                d = {}
                for s in states:
                    d[s.key()] = s
                states = list(d.values())
                if len(states) > self.rule.cap * 2:
                    states = self.merge_states(ctx, ("x", b), states)
        if not states:
            return
        if blk.get("noret"):
            for s in states:
                exits.append(("noret", s, None))
            return
        cons = li.consumes[b]
        succ = blk["s"]
        for s in states:
            live = [x for x in succ if x is not None]
            if b == fn.exit:
                exits.append(("ret", s, s.memo.pop((ctx.path, "ret"), None)))
                s.touch()
                continue
            if not live:
                exits.append(("noret", s, None))
                continue
            if b in fn.trys:
                # exception dispatch: any of the handlers, or none of them
                for x in live:
                    if x == fn.exit:
                        up = fn.trys[b]
                        if up >= 0:
                            push(up, s.copy(), b)
                        else:
                            exits.append(("throw", s.copy(), None))
                    else:
                        push(x, s.copy(), b)
                continue
            if "sw" in blk:
                v = self.val(s, ctx, blk["sw"])
                outs = []
                seenc = []
                deft = None
                for x in live:
                    c = fn.blocks[x].get("case")
                    if c and isinstance(c[0], int):
                        t = rel("==", v, ("k", c[0]))
                        seenc.append(t)
                        n = self.assume(s, t, True) if t[0] != "k" else (s if t[1] else None)
                        if n:
                            outs.append((x, n))
                    else:
                        deft = x
                if deft is not None:
                    n = s
                    for t in seenc:
                        n = n and (self.assume(n, t, False) if t[0] != "k" else (None if t[1] else n))
                    if n:
                        outs.append((deft, n))
            elif "c" in blk and len(succ) == 2:
                t = self.cond(s, ctx, blk["c"])
                outs = []
                for x, pol in ((succ[0], True), (succ[1], False)):
                    if x is None:
                        continue
                    n = self.assume(s, t, pol)
                    if n is None:
                        continue
                    if n is s and len(succ) == 2:
                        n = s.copy()
                    n.trail = ("%s:%s:%s" % (fn.rel.rsplit("/", 1)[-1], blk.get("tl", 0), "T" if pol else "F"), n.trail)
                    for n2 in self.aslist(self.rule.on_branch(self, n, ctx, t, pol) or n):
                        outs.append((x, n2))
            else:
                outs = [(x, s) for x in live]
            for x, n in outs:
                n = n.copy()
                for k in [k for k in n.memo if k[0] == ctx.path and k[1] != "ret" and (k[1] not in li.cross or k[1] in cons and (blk.get("t") not in ("ConditionalOperator", "BinaryOperator")))]:
                    del n.memo[k]
                push(x, n, b)

    def exec_elem(self, ctx, b, e, st):
        self.rule.on_elem(self, st, ctx, e)
        k = e[0]
        sid = e[1]
        if k == "C":
            return self.exec_call(ctx, b, e, st)
        if k == "N":
            return self.exec_ctor(ctx, b, e, st)
        if k == "A":
            l = self.lv(st, ctx, e[4])
            v = self.val(st, ctx, e[5])
            if e[3] != "=":
                op = e[3][:-1]
                v = self.arith(op, self.read(st, l), v, e[6])
                if op in ("|", "&") and "bool" in self.etype(ctx, e[4]):
                    pass
            return self.assign(ctx, e, st, l, v, sid)
        if k == "U" and e[3] in ("++", "--", "p++", "p--"):
            l = self.lv(st, ctx, e[4])
            old = self.read(st, l)
            new = ladd(old, K1, 1 if "+" in e[3] else -1) if self.numeric(old) and old[0] != "it" else ("op", "inc", old)
            r = self.assign(ctx, e, st, l, new, sid)
            if e[3][0] == "p":
                for _, s, _ in r:
                    s.memo[(ctx.path, sid)] = ("val", old)
                    s.touch()
            return r
        if k == "DS":
            for vid, init, t in e[3]:
                l = ctx.lvar(vid)
                var = ctx.fn.vars.get(vid) or {}
                if var.get("static"):
                    continue
                if var.get("ref") and init is not None:
                    tgt = self.lv(st, ctx, init)
                    st.env[l] = ("ref", self.norm(st, tgt))
                    st.touch()
                else:
                    v = self.val(st, ctx, init) if init is not None else ("uninit", (ctx.path, sid))
                    for o in [o for o in st.env if o[0] in ("f", "i") and self.prefix(l, o)]:
                        del st.env[o]
                    if tsize(v) > MAXTERM:
                        v = ("res", (ctx.path, sid))
                    st.env[l] = v
                    st.touch()
                    if init is not None and init[0] == "N":
                        self.copy_fields(st, ctx, init, l)
                self.rule.on_decl(self, st, ctx, l, t, init)
            return [("go", st, None)]
        if k == "R":
            if e[3] is not None:
                if ctx.fn.info["ret"].rstrip().endswith("&"):
                    st.memo[(ctx.path, "ret")] = ("lvret", self.norm(st, self.lv(st, ctx, e[3])))
                else:
                    v = self.val(st, ctx, e[3])
                    st.memo[(ctx.path, "ret")] = ("valret", v)
                st.touch()
            return [("go", st, None)]
        if k == "thr":
            return [("throw", st, None)]
        if k == "new":
            st.memo[(ctx.path, sid)] = ("val", ("new", (ctx.path, sid), e[3]))
            st.touch()
            return [("go", st, None)]
        if k == "init":
            if ctx.this is not None and e[4] is not None and "::" in e[3] and not e[3].startswith("base:"):
                l = ("f", ctx.this, e[3])
                v = self.val(st, ctx, e[4])
                self.rule.on_assign(self, st, ctx, l, v, e)
                self.write(st, l, v, (ctx.path, e[2]))
            return [("go", st, None)]
        if k == "dtor":
            self.rule.on_dtor(self, st, ctx, ctx.lvar(e[3]), e[2])
            return [("go", st, None)]
        if k in ("?",) or k == "B" and e[3] in ("&&", "||"):
            if sid:
                st.memo[(ctx.path, sid)] = ("val", self.val(st, ctx, e))
                st.touch()
            return [("go", st, None)]
        if k in ("dyn",):
            st.memo[(ctx.path, sid)] = ("val", self.val(st, ctx, e))
            st.touch()
            return [("go", st, None)]
        return [("go", st, None)]

    def copy_fields(self, st, ctx, n, l):
        if len(n) > 6 and n[6] == "copy" and n[5]:
            src = self.norm(st, self.lv(st, ctx, n[5][0]))
            for o in list(st.env):
                if o[0] in ("f", "i") and o != src and self.prefix(src, o) and st.env[o][0] != "ref":
                    st.env[self.rebase(o, src, l)] = st.env[o]

    def rebase(self, o, src, l):
        if o == src:
            return l
        return (o[0], self.rebase(o[1], src, l), o[2])

    def assign(self, ctx, e, st, l, v, sid):
        r = self.rule.on_assign(self, st, ctx, self.norm(st, l), v, e)
        outs = []
        for s in self.aslist(r) if r is not None else [st]:
            self.write(s, l, v, (ctx.path, sid))
            if sid:
                s.memo[(ctx.path, sid)] = ("lv", self.norm(s, l))
            s.touch()
            outs.append(("go", s, None))
        return outs

    # ---------------------------------------------------------------- calls
    def targets(self, ctx, st, e, info, recv):
        """definitions a call may reach: (list, exact)"""
        usr = e[3]
        db = self.db
        if len(e) > 6 and e[6] == 1:
            ovs = [o for o in db.all_overriders(usr)]
            if recv is not None and self.dyn and recv == self.entry_ctx.this:
                t = self.resolve_dyn(usr, self.dyn)
                if t:
                    return [t], True
            t = self.rule.resolve(self, st, ctx, e, info, recv) if hasattr(self.rule, "resolve") else None
            if t:
                return t, True
            if not ovs:
                return ([usr] if usr in db.funcs else []), True
            sc = self.static_class(recv)
            if sc is not None:
                ds = [d for d in {sc} | set(db.derived(sc)) if not (db.classes.get(d) or {}).get("abstract")]
                if ds and len(ds) <= 40:
                    l = sorted({self.resolve_dyn(usr, d) for d in ds} - {None})
                    if l:
                        return l, len(l) == 1
            l = [u for u in ovs + [usr] if u in db.funcs]
            return l, len(l) == 1 and False
        return ([usr] if usr in db.funcs else []), True

    def static_class(self, recv):
        """class an entry-level receiver was declared with (this or a parameter of the analysed function)"""
        if recv is None or recv[0] != "d":
            return None
        if recv == self.entry_ctx.this:
            c = self.entry_ctx.fn.cls
            return c if c in self.db.classes else None
        o = self.rcls.get(recv)
        t = self.type_of(recv[1])
        m = re.search(r"<([\w:]+)>", t) if "ptr<" in t else re.match(r"(?:const )?([\w:]+)(?: const)? ?[&*]*$", t)
        if m and m.group(1) in self.db.classes:
            n = m.group(1)
            return n if o is None or o in self.db.bases(n) else o
        return o

    def note_class(self, recv, e):
        """remember the declared class of the object a receiver lvalue denotes (the narrowest one seen)"""
        e = strip(e)
        t = None
        if e[0] == "U" and e[3] == "*":
            x = strip(e[4])
            if x[0] == "C":
                i = self.db.fns.get(x[3])
                m = re.search(r"<(?:const )?([\w:]+)>$", (i or {}).get("cls") or "")
                if i and m and i["q"].rsplit("::", 1)[-1] in ("operator->", "operator*"):
                    t = m.group(1)
            if t is None and len(e) > 5:
                t = e[5]
        if t:
            m = re.match(r"(?:const )?([\w:]+)(?: const)? ?[&*]*$", t)
            if m and m.group(1) in self.db.classes:
                n, o = m.group(1), self.rcls.get(recv)
                if o is None or o in self.db.bases(n):
                    self.rcls[recv] = n

    def type_of(self, v):
        """declared type of an entry value: parameters and the initial content of parameters and fields"""
        if v[0] == "param":
            return (self.entry_ctx.fn.vars.get(v[1]) or {}).get("t", "")
        if v[0] == "init":
            return self.type_of_lv(v[1])
        if v[0] == "elt":
            return self.elem_type(self.type_of(v[1]))
        return ""

    @staticmethod
    def elem_type(t):
        t = t.replace("const ", "").rstrip("& ")
        m = re.match(r"std::(?:vector|set|list|deque)<(.*)>$", t)
        return m.group(1).split(", std::")[0] if m else ""

    def type_of_lv(self, lv):
        if lv[0] == "d" and lv[1][0] == "param":
            return self.type_of(lv[1])
        if lv[0] == "v" and lv[1] == ():
            return (self.entry_ctx.fn.vars.get(lv[2]) or {}).get("t", "")
        if lv[0] == "i":
            return self.elem_type(self.type_of_lv(lv[1]))
        if lv[0] == "f":
            c, n = lv[2].rsplit("::", 1)
            for f in (self.db.classes.get(c) or {}).get("fields", ()):
                if f["n"] == n:
                    return f["t"]
        return ""

    def resolve_dyn(self, usr, cls):
        """most derived override of usr for dynamic class cls"""
        cands = {usr} | self.db.all_overriders(usr)
        for c in self.db.bases(cls):
            for u in cands:
                i = self.db.fns.get(u)
                if i and i.get("cls") == c and u in self.db.funcs:
                    return u
        return None

    def mkcall(self, ctx, st, e, recv, site, name=None):
        c = Call()
        c.usr = e[3]
        c.info = self.db.fns.get(e[3])
        c.q = c.info["q"] if c.info else ""
        c.name = name or c.q.rsplit("::", 1)[-1]
        c.recv = recv
        c.node = e
        c.site = site
        c.ctx = ctx
        c.line = e[2]
        c.args = [Arg(self, st, ctx, a) for a in e[5]]
        return c

    def finish(self, st, ctx, sid, ret):
        if sid:
            st.memo[(ctx.path, sid)] = ret
            st.touch()
        return ("go", st, None)

    def exec_call(self, ctx, b, e, st):
        sid = e[1]
        info = self.tocall(e)
        site = (ctx.path, sid)
        recv = self.norm(st, self.lv(st, ctx, e[4])) if e[4] and e[3] else None
        if recv is not None and self.is_repo(e[3]):
            self.note_class(recv, e[4])
        c = self.mkcall(ctx, st, e, recv, site)
        r = self.rule.on_call(self, st, c)
        if r == "skip":
            return [self.finish(st, ctx, sid, ("val", ("res", site)))]
        if r == "throw":
            return [("throw", st, None)]
        if isinstance(r, list):
            return [self.finish(s, ctx, sid, v if v[0] in ("lv", "val") else ("val", v)) for s, v in r]
        if info is None:
            # call through a function object
            tgt = self.val(st, ctx, e[4]) if e[4] else ("unk",)
            if tgt[0] == "lam":
                return self.inline(ctx, b, e, st, tgt[1], None, c, lamval=tgt)
            for a in c.args:
                self.havoc_arg(st, ctx, a, "?&", site)
            return [self.finish(st, ctx, sid, ("val", ("res", site)))]
        if info.get("lambda") and e[4] is not None:
            tgt = self.val(st, ctx, e[4])
            if tgt[0] == "lam" and tgt[1] in self.db.funcs:
                return self.inline(ctx, b, e, st, tgt[1], None, c, lamval=tgt)
        if not self.is_repo(e[3]):
            return self.exec_external(ctx, b, e, st, info, c)
        if not self.rule.atomic(self, e[3], info) and r != "opaque":
            tgts, exact = self.targets(ctx, st, e, info, recv)
            if exact and len(tgts) == 1 and self.can_inline(ctx, tgts[0]):
                return self.inline(ctx, b, e, st, tgts[0], recv, c)
            if not exact and 1 < len(tgts) <= 4 and all(self.can_inline(ctx, t) for t in tgts) and any(self.rule.relevant(self, t, self.db.fns[t]) for t in tgts):
                out = []
                for t in tgts:
                    out += self.inline(ctx, b, e, st.copy(), t, recv, self.mkcall(ctx, st, e, recv, site))
                return out
        return [self.opaque(ctx, e, st, info, c)]

    def opaque(self, ctx, e, st, info, c):
        site = c.site
        v = self.opaque_value(st, ctx, e, info, site)
        mods, reads, unk = self.summ(e[3])
        for a, pt in zip(c.args, info["p"]):
            self.havoc_arg(st, ctx, a, pt, site)
        self.havoc_fields(st, mods, site)
        if c.recv is not None and not info.get("const") and self.root(c.recv)[0] in ("v", "t"):
            if not self.is_pure(e[3]):
                for o in [o for o in st.env if o[0] in ("f", "i") and self.prefix(c.recv, o) and o != c.recv]:
                    del st.env[o]
                if c.recv in st.env and st.env[c.recv][0] != "ref":
                    self.write(st, c.recv, ("upd", site, 0), site)
        ret = info["ret"]
        if ret.rstrip().endswith("&") and not ret.startswith("const "):
            return self.finish(st, ctx, e[1], ("lv", ("d", v)))
        return self.finish(st, ctx, e[1], ("val", v))

    def havoc_arg(self, st, ctx, a, pt, site):
        pt = pt.strip()
        if pt.endswith("&") and not pt.startswith("const ") and not pt.endswith("&&") or pt == "?&":
            l = a.lv
            if l[0] != "t":
                self.havoc(st, l, site)
        elif pt.endswith("*") and not pt.startswith("const "):
            v = a.val
            if v[0] == "a" and v[1][0] != "t" and v[1] != (self.entry_ctx.this if hasattr(self, "entry_ctx") else None):
                self.havoc(st, v[1], site)

    def can_inline(self, ctx, usr):
        f = self.db.funcs.get(usr)
        if f is None or ctx.depth >= self.rule.depth:
            return False
        if usr == ctx.fn.id or any(p[1] == usr for p in ctx.path) or usr == self.entry_ctx.fn.id:
            return False
        nb = len(f.blocks)
        if self.rule.focus is not None:
            return nb <= 3 or usr in self.rule.focus and nb <= self.rule.max_inline_blocks
        if nb <= 10:
            return True
        return nb <= self.rule.max_inline_blocks and self.rule.relevant(self, usr, f.info)

    def inline(self, ctx, b, e, st, usr, recv, c, lamval=None, elemargs=None):
        fn = self.db.funcs[usr]
        path = ctx.path + ((ctx.fn.name, usr, b, e[1]),)
        caps = None
        this = recv
        if lamval is not None:
            this = ctx.this
            caps = {}
            lp = lamval[2][0]
            for v in set(fn.vars) - set(fn.params):
                if fn.vars[v].get("k") in ("local", "param"):
                    # captured variables keep their defining context
                    caps[v] = ("v", lp, v)
            own = {d[0] for blk in fn.blocks.values() for x in blk["e"] if x[0] == "DS" for d in x[3]}
            caps = {v: l for v, l in caps.items() if v not in own}
        nctx = Ctx(fn, path, this, ctx.depth + 1, caps)
        n = st.copy()
        args = elemargs if elemargs is not None else c.args
        for p, a in zip(fn.params, args):
            v = fn.vars.get(p) or {}
            if isinstance(a, tuple):
                n.env[("v", path, p)] = a
            elif v.get("ref"):
                l = self.norm(n, self.lv(n, ctx, a.node))
                n.env[("v", path, p)] = ("ref", l)
            else:
                n.env[("v", path, p)] = self.val(n, ctx, a.node)
                if a.node[0] == "N":
                    self.copy_fields(n, ctx, a.node, ("v", path, p))
        n.touch()
        key = (usr, path, this, n.key())
        if key in self.cache:
            exits = self.cache[key]
        else:
            exits = self.exec_fn(nctx, [n])
            self.cache[key] = exits
        out = []
        for kind, s, v in exits:
            s = s.copy()
            s.trail = s.trail if s.trail is not None else st.trail
            if kind == "ret":
                if v is None:
                    r = ("val", ("unk",))
                elif v[0] == "lvret":
                    r = ("lv", v[1])
                else:
                    r = ("val", v[1])
                out.append(self.finish(s, ctx, e[1], r))
            else:
                out.append((kind, s, None))
        return out

    def exec_ctor(self, ctx, b, e, st):
        c = self.mkcall(ctx, st, e, None, (ctx.path, e[1]), name="ctor")
        r = self.rule.on_call(self, st, c)
        if isinstance(r, list):
            return [self.finish(s, ctx, e[1], v if v[0] in ("lv", "val") else ("val", v)) for s, v in r]
        v = self.ctorval(st, ctx, e)
        info = self.db.fns.get(e[3])
        if info and not (len(e) > 6) and not self.is_smart(e[4]):
            for a, pt in zip(c.args, info["p"]):
                self.havoc_arg(st, ctx, a, pt, c.site)
            if self.is_repo(e[3]):
                self.havoc_fields(st, self.summ(e[3])[0], c.site)
        return [self.finish(st, ctx, e[1], ("val", v))]

    ALGO = {"any_of", "all_of", "none_of", "for_each", "find_if", "count_if", "transform", "accumulate", "remove_if", "find_if_not"}

    def exec_external(self, ctx, b, e, st, info, c):
        sid = e[1]
        n = c.name
        cls = info.get("cls") or ""
        lam = [a for a in c.args if strip_all(a.node)[0] == "lam" or a.val[0] == "lam"]
        if lam and n in self.ALGO:
            return self.exec_algo(ctx, b, e, st, c, lam[0].val, n)
        m = self.model(st, ctx, e)
        if m is not None:
            return [self.finish(st, ctx, sid, ("val", m))]
        site = c.site
        if e[4] is not None:
            if n == "operator=" and len(c.args) == 1:
                v = c.args[0].val
                r = self.rule.on_assign(self, st, ctx, c.recv, v, e)
                outs = []
                for s in self.aslist(r) if r is not None else [st]:
                    self.write(s, c.recv, v, site)
                    outs.append(self.finish(s, ctx, sid, ("lv", c.recv)))
                return outs
            if n in ("operator++", "operator--") and not cls.startswith("Eigen"):
                old = self.read(st, c.recv)
                new = ("next", old, K1 if n == "operator++" else ("k", -1)) if tsize(old) < 20 else ("res", site)
                r = self.assign(ctx, e, st, c.recv, new, sid)
                if e[5]:
                    for _, s, _ in r:
                        s.memo[(ctx.path, sid)] = ("val", old)
                        s.touch()
                return r
            if n in ("reset",) and self.is_smart(cls):
                v = c.args[0].val if c.args else K0
                r = self.rule.on_assign(self, st, ctx, c.recv, v, e)
                self.write(st, c.recv, v, site)
                return [self.finish(st, ctx, sid, ("val", ("unk",)))]
            if n == "clear" and not c.args:
                self.rule.on_assign(self, st, ctx, c.recv, ("ctor", "clear"), e)
                self.write(st, c.recv, ("ctor", "clear"), site)
                return [self.finish(st, ctx, sid, ("val", ("unk",)))]
            if n in ("push_back", "emplace_back") and c.recv[0] != "t":
                old = self.read(st, c.recv)
                for a, pt in zip(c.args, info["p"]):
                    self.havoc_arg(st, ctx, a, pt, site)
                new = ("pb", old, site) if tsize(old) < 30 else ("upd", site, 0)
                r = self.assign(ctx, e, st, c.recv, new, sid)
                return r
            p = self.proxy(st, ctx, e)
            if p is not None:
                return [self.finish(st, ctx, sid, ("lv", p))]
            v = self.opaque_value(st, ctx, e, info, site)
            for a, pt in zip(c.args, info["p"]):
                self.havoc_arg(st, ctx, a, pt, site)
            const = info.get("const") or n in ("begin", "end", "find", "rbegin", "rend", "data", "get", "str", "c_str")
            if not const and c.recv is not None and c.recv[0] != "t":
                r = self.rule.on_assign(self, st, ctx, c.recv, ("hv", site, c.recv), e)
                self.havoc(st, c.recv, site)
            return [self.finish(st, ctx, sid, ("val", v))]
        if n == "swap" and len(c.args) == 2:
            x, y = c.args[0].val, c.args[1].val
            lx, ly = c.args[0].lv, c.args[1].lv
            self.write(st, lx, y, site)
            self.write(st, ly, x, site)
            return [self.finish(st, ctx, sid, ("val", ("unk",)))]
        v = self.opaque_value(st, ctx, e, info, site)
        first = None
        for a, pt in zip(c.args, info["p"]):
            self.havoc_arg(st, ctx, a, pt, site)
            if first is None and pt.rstrip().endswith("&") and not pt.startswith("const "):
                first = a.lv
        if n.startswith("operator") and first is not None and info["ret"].rstrip().endswith("&"):
            return [self.finish(st, ctx, sid, ("lv", first))]
        return [self.finish(st, ctx, sid, ("val", v))]

    def exec_algo(self, ctx, b, e, st, c, lamval, n):
        """std algorithm with a lambda: zero, one or more applications to an arbitrary element"""
        usr = lamval[1]
        site = c.site
        if usr not in self.db.funcs:
            return [self.finish(st, ctx, e[1], ("val", ("res", site)))]
        fn = self.db.funcs[usr]
        cont = []  # states after k applications that continue
        hit = []
        frontier = [st]
        for it in range(2):
            nxt = []
            for s in frontier:
                self.rule.algo_done(self, (s0 := s.copy()), ctx, c, n, it)
                cont.append(s0)
            for s in frontier:
                args = []
                for p in fn.params:
                    v = fn.vars.get(p) or {}
                    el = ("elt", c.args[0].val, ("it#", site, it))
                    args.append(("ref", ("d", ("it", site, it))) if v.get("ref") else ("fld", ("d", ("it", site, it)), "*"))
                s1 = s.copy()
                self.rule.algo_open(self, s1, ctx, c, n)
                for kind, s2, _ in self.inline(ctx, b, e, s1, usr, None, c, lamval=lamval, elemargs=args):
                    if kind != "go":
                        hit.append((kind, s2, None))
                        continue
                    self.rule.algo_iter(self, s2, ctx, c, n, it)
                    r = s2.memo.get((ctx.path, e[1]), ("val", ("unk",)))
                    rv = r[1] if r[0] == "val" else self.read(s2, r[1])
                    if n in ("any_of", "none_of", "all_of", "find_if", "find_if_not"):
                        stop_on = n not in ("all_of", "find_if_not")
                        t = truth(rv)
                        s3 = self.assume(s2, t, stop_on)
                        if s3:
                            val = {"any_of": K1, "none_of": K0, "all_of": K0}.get(n, ("res", site))
                            hit.append(self.finish(s3.copy(), ctx, e[1], ("val", val)))
                        s4 = self.assume(s2, t, not stop_on)
                        if s4:
                            nxt.append(s4.copy())
                    else:
                        nxt.append(s2)
            frontier = nxt
        for s in frontier:
            self.rule.algo_done(self, s, ctx, c, n, 2)
        cont += frontier
        res = list(hit)
        d = {}
        for s in cont:
            val = {"any_of": K0, "none_of": K1, "all_of": K1}.get(n, ("res", site))
            s = s.copy()
            r = self.finish(s, ctx, e[1], ("val", val))
            d[s.key()] = r
        return res + list(d.values())


def NOT_(t):
    return ("x",)


def strip_p(e):
    while e and e[0] in ("P", "def", "K"):
        if e[0] == "K":
            return e if not e[6] else strip_p(e[6]) if e[3] in ("IntegralToFloating", "FloatingCast") else e
        e = e[3]
    return e


def strip_all(e):
    while e and (e[0] in ("P", "def") or e[0] == "N" and len(e) > 6 and e[5]):
        e = e[3] if e[0] in ("P", "def") else e[5][0]
    return e


_LI = {}


THROWING = ("at", "stoi", "stol", "stof", "stod", "lexical_cast", "substr", "compare", "parse", "value", "stoul")


def can_throw(db, usr):
    c = db.__dict__.get("_throws")
    if c is None:
        c = db.__dict__["_throws"] = set()
        callers, work = {}, []
        for u, f in db.funcs.items():
            for blk in f.blocks.values():
                for e in blk["e"]:
                    if f.tryof.get(e[1]) is not None:
                        continue
                    if e[0] == "thr":
                        work.append(u)
                    elif e[0] in ("C", "N") and e[3]:
                        if e[3] in db.funcs:
                            callers.setdefault(e[3], []).append(u)
                        elif ext_throws(db, e[3]):
                            work.append(u)
        for u in list(db.fns):
            for o in db.fns[u].get("ov", ()):
                callers.setdefault(u, []).append(o)
        while work:
            u = work.pop()
            if u not in c:
                c.add(u)
                work += callers.get(u, ())
    return usr in c or usr not in db.funcs and ext_throws(db, usr)


def ext_throws(db, usr):
    i = db.fns.get(usr)
    if i is None:
        return True
    q = i["q"]
    return q.startswith(("boost::filesystem", "boost::lexical")) or q.rsplit("::", 1)[-1] in THROWING


def fn_loops(fn):
    k = id(fn)
    if k not in _LI:
        _LI[k] = LoopInfo(fn)
    return _LI[k]


# ------------------------------------------------------------------ direct effects of one function
MUT = {"push_back", "pop_back", "emplace_back", "insert", "erase", "clear", "resize", "assign", "push_front", "pop_front", "reset", "swap", "reserve",
       "emplace", "sort", "remove", "unique", "operator="}


def outer_field(fn, e, aliases, depth=0):
    """field (or variable) an lvalue expression designates storage of"""
    while e is not None and depth < 60:
        depth += 1
        k = e[0]
        if k == "M":
            return ("f", e[4])
        if k == "V":
            a = aliases.get(e[3])
            if a is not None:
                e = a
                continue
            return ("v", e[3])
        if k in ("P", "def"):
            e = e[3]
        elif k == "K":
            e = e[6]
        elif k == "I":
            e = e[3]
        elif k == "U":
            if e[3] == "*":
                e2 = e[4]
                if e2[0] == "T":
                    return ("f", "*this")
                return ("p", e2)
            e = e[4]
        elif k == "C":
            e = e[4]
            if e is None:
                return None
        elif k == "A":
            e = e[4]
        elif k == "dyn":
            e = e[4]
        else:
            return None
    return None


NOSUMM = (frozenset(), frozenset(), False)


def direct_effects(db, fn, eng):
    mods, reads, callees, unk = set(), set(), set(), False
    aliases = {}
    nodes = list(all_nodes(fn))
    for x in nodes:
        if x[0] == "DS":
            for vid, init, t in x[3]:
                v = fn.vars.get(vid) or {}
                if v.get("ref") and init is not None:
                    aliases[vid] = init

    def mod(e):
        o = outer_field(fn, e, aliases)
        if o and o[0] == "f":
            mods.add(o[1])
        elif o and o[0] == "p":
            # write through a pointer: the field holding the pointer's pointee is unknown; attribute to the pointer's field
            i = outer_field(fn, o[1], aliases)
            if i and i[0] == "f":
                mods.add(i[1] + "*")
            else:
                mods.add("*")

    for x in nodes:
        k = x[0]
        if k == "M":
            reads.add(x[4])
        elif k == "A":
            mod(x[4])
        elif k == "U" and x[3] in ("++", "--", "p++", "p--"):
            mod(x[4])
        elif k == "init":
            if "::" in x[3] and not x[3].startswith("base:"):
                mods.add(x[3])
        elif k in ("C", "N"):
            usr = x[3]
            i = db.fns.get(usr)
            recv = x[4] if k == "C" else None
            if i is None:
                continue
            if eng.is_repo(usr):
                callees.add(usr)
                if k == "C" and recv is not None and not i.get("const"):
                    # a mutating method on a member object
                    o = outer_field(fn, recv, aliases)
                    if o and o[0] == "f":
                        pass
            else:
                if recv is not None and not i.get("const"):
                    n = i["q"].rsplit("::", 1)[-1]
                    cls = i.get("cls") or ""
                    if n in MUT or n.startswith("operator") and n.endswith("=") and n not in ("operator==", "operator!=", "operator<=", "operator>="):
                        mod(recv)
                    elif n not in ("begin", "end", "find", "operator[]", "operator()", "at", "front", "back", "operator->", "operator*", "get", "size", "rbegin", "rend", "data",
                                   "c_str", "operator++", "operator--") and not cls.startswith("Eigen") and not SMART.match(cls):
                        mod(recv)
                    elif n in ("operator++", "operator--"):
                        mod(recv)
            for a, pt in zip(x[5], i["p"]):
                pt = pt.strip()
                if pt.endswith("&") and not pt.endswith("&&") and not pt.startswith("const "):
                    mod(a)
        elif k == "lam":
            callees.add(x[3])
    return (mods, reads, unk), callees
