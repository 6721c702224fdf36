from lib import *
GLOBS = ALL
EXPLANATION = """Two definite-assignment analyses over all constructors and functions. (1) Members: every member without a default initialiser whose declaration alone leaves it
undefined (numbers, pointers, enums, fixed-size Eigen objects, plain records and arrays of them) and that some public or virtual operation of the class, or code outside of it, may read before
assigning it itself, must be assigned on every path through every public constructor - initialiser list, body, helpers it calls (interprocedural assigned-on-return summaries), counted loops that
cover the whole array, and out-parameters when the callee assigns them on all its paths. (2) Locals without initialiser: a must-assigned dataflow selects the candidates, and each candidate is then
confirmed by the path-sensitive engine with correlated branches, so that "set in the branch that is tested later" is accepted; a callee that leaves its out-parameter alone on some path counts as
not assigning it unless it says so by returning false. The rule talks about reaching definitions only, not about names or places of the assignments."""
SKIP = re.compile(r"nanoflann|rapidxml|/Import/|/PQP|/tests/|/examples/|Compression")
FIXED = re.compile(r"^(const )?Eigen::(Matrix<[^<>]*, [1-9]\d*, [1-9]\d*(, .*)?>|Quaternion<.*>|AngleAxis<.*>|Transform<.*>|Array<[^<>]*, [1-9]\d*, [1-9]\d*.*>)$")


# member -> why it needs no value from the constructor
REVIEWED = {
    "VirtualRobot::PathSegment::position": "written by Path for every segment it takes over; segments are not handed out",
    "VirtualRobot::TimeOptimalTrajectory::TimeOptimalTrajectoryStep": "record private to the algorithm, filled in by it before use (N01)",
    "SimDynamics::ActuationMode::modes": "union with the raw flags the constructor assigns",
}


def tracked(f):
    """declarations that hold garbage until they are assigned"""
    if f.get("init"):
        return False
    return bool(f.get("scalar") or FIXED.match(f["t"]) or f.get("podrec") and not f["t"].startswith("std::"))


def loc(e):
    """abstract location of an lvalue expression: a field of this, a local, or a field of a local record"""
    e = strip(e)
    while e and e[0] in ("I",) or e and e[0] == "C" and e[4] is not None and re.search(r"operator(\[\]|\(\))|coeffRef|#block|F@x#|F@y#|F@z#|F@w#|F@(top|bottom|head|tail|diagonal|col|row|array|matrix|translation|linear|vec)\w*[#<>]", e[3]):
        e = strip(e[3] if e[0] == "I" else e[4])
    if not e:
        return None
    if e[0] == "M":
        b = strip(e[3])
        if b and b[0] == "U" and b[3] == "*" and strip(b[4])[0] == "T":
            return ("f", e[4])
        if b and b[0] == "T":
            return ("f", e[4])
        l = loc(b)
        if l and l[0] == "v":
            return ("vf", l[1], e[4])
        if l and l[0] == "f":
            return ("ff", l[1], e[4])
        return None
    if e[0] == "V":
        return ("v", e[3])
    if e[0] == "U" and e[3] in ("*", "&"):
        i = strip(e[4])
        if e[3] == "&":
            return loc(i)
        if i and i[0] == "U" and i[3] == "&":
            return loc(i[4])
    return None


def counted(f, h):
    """for (i = constant; i < larger constant; ...)"""
    c = f.blocks[h].get("c")
    if not c or c[0] != "B" or c[3] not in ("<", "<=", "!=", ">", ">="):
        return False
    v, k = strip(c[4]), strip(c[5])
    if v and v[0] == "L":
        v, k = k, v
    if not v or v[0] != "V" or not k or k[0] != "L" or k[3] != "int":
        return False
    return any(d[0] == v[3] and d[1] and strip(d[1])[0] == "L" and strip(d[1])[4] != k[4] for B in f.blocks.values() for e in B["e"] if e[0] == "DS" for d in e[3]) or \
        any(e[0] == "A" and e[3] == "=" and strip(e[4])[:4:3] == ["V", v[3]] and strip(e[5])[0] == "L" for B in f.blocks.values() for e in B["e"])


class Assign:
    def __init__(self, db):
        self.db, self.memo, self.ememo, self.foreign, self.uses = db, {}, {}, [], {}

    def summary(self, usr, stack=()):
        """fields of this that the method assigns on every way out"""
        if usr in self.memo:
            return self.memo[usr]
        f = self.db.funcs.get(usr)
        if f is None or usr in stack or len(stack) > 6:
            return frozenset()
        r = frozenset(l for l in self.run(f, stack + (usr,)) or () if l[0] in ("f", "ff"))
        if not stack:
            self.memo[usr] = r
        return r

    def effects(self, f, e, stack):
        """locations assigned by one element"""
        out = []
        if e[0] == "init":
            if str(e[3]).startswith(("base:", "deleg")):
                i = strip(e[4]) if e[4] else None
                if e[3] == "deleg":
                    out.append(("all",))
                return out
            i = strip(e[4]) if e[4] else None
            if i is None or i[0] == "N" and not i[5] and (FIXED.match(i[4]) or not e[5] and not self.inits(i)):
                return out
            return [("f", e[3])]
        for x in walk(e):
            if x[0] == "A" or x[0] == "U" and x[3] in ("++", "--", "p++", "p--"):
                l = loc(x[4])
                if l:
                    out.append(l)
            elif x[0] == "C" or x[0] == "N":
                i = self.db.fns.get(x[3])
                recv = x[4] if x[0] == "C" else None
                if recv is not None:
                    l = loc(recv)
                    r = strip(recv)
                    if r and r[0] == "U" and r[3] == "*":
                        r = strip(r[4])
                    if r and r[0] == "T":
                        out += self.summary(x[3], stack)
                    elif l and i and not i.get("const"):
                        out.append(l)
                    elif l and not i:
                        out.append(l)
                for k, a in enumerate(x[5]):
                    if not a:
                        continue
                    t = (i["p"][k] if i and k < len(i["p"]) else "?") if i else "?"
                    s = strip(a)
                    if "const " in t and ("&" in t or "*" in t) and not t.rstrip().endswith("*&"):
                        continue
                    if "&" in t or "*" in t or "[" in t or t == "?":
                        l = loc(s)
                        if l and l[0] == "v" and s[0] == "V" and self.partial(f, x, k, stack):
                            continue
                        if l:
                            out.append(l)
                    if s and s[0] == "T":
                        pass
        return out

    def ignored(self, f, x):
        """the result of the call is not looked at"""
        if f.id not in self.uses:
            n = {}
            for B in f.blocks.values():
                for t in list(B["e"]) + ([B["c"]] if B.get("c") else []):
                    for y in walk(t):
                        if y is not t and y[0] == "C" and y[1]:
                            n[y[1]] = 1
                    if t is B.get("c") and t[0] == "C" and t[1]:
                        n[t[1]] = 1
            self.uses[f.id] = n
        return x[1] not in self.uses[f.id]

    def partial(self, f, x, k, stack=()):
        """the call leaves its k-th argument alone when it fails"""
        g = self.db.funcs.get(x[3])
        return g is not None and (g.info["ret"] == "bool" or self.ignored(f, x)) and not self.fills(x[3], k, stack)

    def fills(self, usr, k, stack):
        """the callee assigns its k-th (reference) parameter on every way out"""
        g = self.db.funcs[usr]
        key = ("p", usr, k)
        if key not in self.memo:
            if usr in stack or len(stack) > 6 or k >= len(g.params):
                return True
            r = self.run(g, stack + (usr,))
            self.memo[key] = r is None or ("v", g.params[k]) in r
        return self.memo[key]

    def inits(self, n):
        i = self.db.fns.get(n[3])
        return bool(i) and not i.get("triv")

    def run(self, f, stack=()):
        """locations assigned on every path to the regular exit"""
        bl = f.blocks
        preds = {}
        for b, B in bl.items():
            for s in B["s"]:
                if s is not None:
                    preds.setdefault(s, []).append(b)
        entry = max(bl)
        exitb = min(bl)
        inn = {entry: frozenset()}
        outs = {}
        w = [entry]
        each = {b: [self.effects(f, e, stack) for e in B["e"]] for b, B in bl.items()}
        eff = {b: [l for x in v for l in x] for b, v in each.items()}
        li = fn_loops(f)
        once = {}
        for h, body in li.headers.items():
            if counted(f, h):
                out = [s for s in bl[h]["s"] if s is not None and s not in body]
                if len(out) == 1 and out[0] != h:
                    once[h] = out[0]
        backin = {}
        noret = {b for b, B in bl.items() if any(e[0] == "thr" for e in B["e"])}
        while w:
            b = w.pop()
            o = inn[b] | frozenset(eff[b])
            if outs.get(b) == o:
                continue
            outs[b] = o
            if b in noret:
                continue
            for s in bl[b]["s"]:
                if s is None:
                    continue
                if s in once and (b, s) in li.back:
                    backin[s] = o if s not in backin else backin[s] & o
                    outs.pop(s, None)
                    w.append(s)
                if once.get(b) == s:
                    # the body is executed at least once
                    if b not in backin:
                        continue
                    o2 = backin[b] | frozenset(eff[b])
                else:
                    o2 = o
                n = o2 if s not in inn else inn[s] & o2
                if s not in inn or n != inn[s]:
                    inn[s] = n
                    w.append(s)
                elif s not in outs:
                    w.append(s)
        self.inn, self.eff = inn, each
        return inn.get(exitb)



    # ------------------------------------------------------------------ reads
    def reads(self, e):
        """locations read by one element, except where the same element is evaluated elsewhere as an element of its own"""
        out = []

        def rd(x, top=False):
            if not x:
                return
            k = x[0]
            if not top and k in ("A", "C", "N", "U") and x[1] and not (k == "U" and x[3] in ("*", "&", "!", "-", "~")):
                return  # an element of its own
            if k == "A":
                if x[3] == "=":
                    lhs(x[4])
                else:
                    rd(x[4])
                rd(x[5])
                return
            if k == "U" and x[3] == "&":
                lhs(x[4])
                return
            if k in ("M", "V", "I"):
                l = loc(x)
                if l:
                    out.append((l, x[2]))
                if k == "I":
                    rd(x[4])
                if k == "M" and l is None:
                    other(x)
                    rd(x[3])
                return
            if k == "C" or k == "N":
                i = self.db.fns.get(x[3])
                if k == "C" and x[4] is not None:
                    n = i["q"].rsplit("::", 1)[-1] if i else ""
                    if i and not i.get("const") and loc(x[4]) and not (n.startswith("operator") and n[8:] in ("+=", "-=", "*=", "/=")):
                        lhs(x[4])
                    else:
                        rd(x[4])
                for j, a in enumerate(x[5]):
                    t = i["p"][j] if i and j < len(i["p"]) else "?"
                    if ("&" in t or "*" in t) and "const " not in t or t == "?":
                        if a and loc(strip(a)):
                            lhs(a)
                            continue
                    rd(a)
                return
            for y in kids(x):
                rd(y)

        def other(x):
            self.foreign.append((x[4], x[2]))

        def lhs(x):
            x = strip(x)
            if x and x[0] == "I":
                lhs(x[3])
                rd(x[4])
            elif x and x[0] == "C":
                rd(x)if not loc(x) else [rd(a) for a in x[5]]
            elif x and x[0] == "M":
                lhs(x[3])
            elif x and x[0] == "U" and x[3] == "*" and not loc(x):
                rd(x[4])
        rd(e, True)
        return out

    def flow(self, f, stack=()):
        """state at the entry of every block"""
        self.run(f, stack)
        return self.inn

    def exposed(self, usr, stack=()):
        """fields of this that a method may read before it has assigned them: {field: (function, line)}"""
        if usr in self.ememo:
            return self.ememo[usr]
        f = self.db.funcs.get(usr)
        if f is None or usr in stack or len(stack) > 8:
            return {}
        out = {}
        self.run(f, (usr,))
        inn, eff = self.inn, self.eff
        for b, B in f.blocks.items():
            if b not in inn:
                continue
            cur = set(inn[b])
            for e, ef in zip(list(B["e"]) + ([B["c"]] if B.get("c") else []), eff[b] + [()]):
                for l, ln in self.reads(e):
                    if l[0] in ("f", "v", "vf") and l not in cur:
                        out.setdefault(l, (f, ln))
                for x in walk(e):
                    if x[0] == "C" and x[4] is not None:
                        r = strip(x[4])
                        if r and r[0] == "U" and r[3] == "*":
                            r = strip(r[4])
                        if r and r[0] == "T":
                            for l, w in self.exposed(x[3], stack + (usr,)).items():
                                if l[0] == "f" and l not in cur:
                                    out.setdefault(l, w)
                cur |= set(ef)
        self.ememo[usr] = out
        return out

class Local(Rule):
    """path-sensitive confirmation for locals without initialiser"""
    depth = 2
    cap = 16

    def __init__(self, a, what):
        self.a, self.what = a, what

    def relevant(self, eng, usr, info):
        return False

    def on_decl(self, eng, st, ctx, lv, typ, init):
        # the declaration of a fixed-size vector or matrix gives it no value
        i = strip(init) if init is not None else None
        if i is not None and i[0] == "N" and not i[5] and not ctx.depth and lv[0] == "v" and any(ctx.lvar(w) == lv for w in self.what):
            eng.havoc(st, lv, i[1])
            st.env[lv] = ("uninit", (ctx.path, i[1]))

    def on_elem(self, eng, st, ctx, e):
        if ctx.depth:
            return
        self.fn = ctx.fn
        for l, ln in self.a.reads(e):
            if l[0] == "v" and l[1] in self.what:
                v = st.env.get(ctx.lvar(l[1]))
                if v is not None and v[0] == "uninit" and not any(o[0] in ("f", "i") and eng.prefix(ctx.lvar(l[1]), o) for o in st.env):
                    eng.report(st, ctx, ln, "local used before it has a value: " + l[1].split("@")[0], "%s is read although nothing was assigned to it on this path" % l[1].split("@")[0])


    def on_call(self, eng, st, c):
        if c.ctx.depth or not c.usr or c.usr not in self.a.db.funcs:
            return None
        ls = []
        for k, x in enumerate(c.args):
            s = strip(x.node)
            if s and s[0] == "V" and s[3] in self.what and re.search(r"[^\w]&$|&$", c.info["p"][k]) and "const" not in c.info["p"][k] and self.a.partial(c.ctx.fn, c.node, k):
                ls.append(c.ctx.lvar(s[3]))
        if not ls:
            return None
        if c.info["ret"] != "bool":
            return [(st, ("val", ("res", c.site)))]
        t, f = st.copy(), st.copy()
        for l in ls:
            eng.havoc(t, l, c.site)
        return [(t, ("val", K1)), (f, ("val", K0))]


def unset_locals(f):
    un = {}
    for B in f.blocks.values():
        for e in B["e"]:
            if e[0] != "DS":
                continue
            for d in e[3]:
                v = f.vars.get(d[0]) or {}
                t = v.get("t", "")
                if v.get("static"):
                    continue
                i = strip(d[1]) if d[1] else None
                if i is None and SCALAR.match(t) or i is not None and i[0] == "N" and not i[5] and FIXED.match(i[4]):
                    un[d[0]] = t
    return un


SCALAR = re.compile(r"(const )?(unsigned |signed )?(int|float|double|bool|char|short|long|size_t|unsigned)\b[^&\[]*$|[^&\[]*\*$")


def run(db, tier):
    res = Result()
    a = Assign(db)
    fs = [f for f in sorted(db.funcs.values(), key=lambda f: (f.file, f.line)) if not SKIP.search(f.file)]
    used = {}
    for f in fs:
        for l, (g, ln) in a.exposed(f.id).items():
            if l[0] == "f" and (is_public(f) or f.info.get("virtual")):
                if f.name != (f.cls or "").rsplit("::", 1)[-1].split("<")[0] and not f.name.startswith("~"):
                    used.setdefault(l[1], (f, g, ln))
    for n, ln in a.foreign:
        used.setdefault(n, (None, None, ln))
    for f in fs:
        c = db.classes.get(f.cls or "")
        if not c or f.name != (f.cls or "").rsplit("::", 1)[-1].split("<")[0]:
            continue
        fl = [x for x in c["fields"] if tracked(x)]
        r = a.run(f, (f.id,))
        if r is None:
            continue
        res.count("constructors")
        for x in fl:
            res.count("members")
            q = f.cls + "::" + x["n"]
            if q in REVIEWED or f.cls in REVIEWED:
                res.count("reviewed")
                continue
            if ("all",) in r or ("f", q) in r or q not in used or not is_public(f):
                continue
            u = used[q]
            res.add(f, f.where(), "member not initialised: " + x["n"], "%s %s used by %s" % (x["t"], x["n"], u[0] and u[0].q), [])
    for f in fs:
        if f.cls == "VirtualRobot::TimeOptimalTrajectory":
            continue  # relies on numerical invariants of the phase plane search (N01)
        un = unset_locals(f)
        res.count("locals_without_initialiser", len(un))
        bad = {l[1] for l in a.exposed(f.id) if l[0] == "v" and l[1] in un}
        if bad:
            res.count("confirmed_path_by_path")
            eng = Engine(db, Local(a, bad))
            eng.run(f)
            res.take(eng)
    res.floors = {"constructors": 130, "members": 300, "locals_without_initialiser": 200}
    return res
