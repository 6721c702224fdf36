from lib import *
import engine as E
GLOBS = ALL
EXPLANATION = """Three questions about every pointer (shared or raw) dereference, path by path. (A) For each parameter whose default argument is null, the function is analysed with that argument left out; every callee the argument is handed to is
analysed with it; no dereference of it may be reachable. (B) In every function: a pointer that this very call has tested and found null, or a local that was declared null and not assigned, is not dereferenced on that path.
(C) A member that holds null
when an optional constructor or setup argument was left out (visualization, collision model, reference frame of the Jacobian, ...) is not dereferenced by any public method of the class or of a class derived from it, same-object callees included,
when it still holds null. A dereference that happened proves the pointer non-null afterwards; correlated tests are followed path by path."""
THIS = ("d", ("this",))
SKIP = re.compile(r"nanoflann|rapidxml|/Import/|/PQP|/tests/|/examples/|Compression")


class Null(Rule):
    """reports dereferences of values that are null on the path. The automaton holds the null values this rule is about: the optional argument that was
    left out, (frame, value) for values the frame itself has tested and found null, and (frame, local) for locals declared null and not assigned since"""
    depth = 4
    cap = 16

    def __init__(self, left_out=None, exact=True):
        self.out, self.want, self.exact = left_out, (), exact

    def initial(self):
        return frozenset()

    def merge_key(self, st):
        return frozenset(x for x in st.auto if x[0] == ()) if self.exact else ()

    def merge_auto(self, a, b):
        return a & b

    def purge(self, auto, stale):
        return frozenset(x for x in auto if not mentions(x, stale))

    def relevant(self, eng, usr, info):
        return usr in self.want

    def on_call(self, eng, st, c):
        # a callee that gets the left out argument is analysed with it
        self.want = ()
        if self.out is not None and (any(self.given_null(st, a.val) for a in c.args) or self.follow(c.node)):
            self.want = {c.usr} | eng.db.all_overriders(c.usr)
        return None

    def follow(self, node):
        return False

    def given_null(self, st, v):
        return self.out is not None and isinstance(v, tuple) and v in (("param", self.out), ("init", ("d", ("param", self.out))))

    def on_branch(self, eng, st, ctx, cond, pol):
        c = cond
        while isinstance(c, tuple) and c and c[0] == "not":
            c, pol = c[1], not pol
        if isinstance(c, tuple) and len(c) == 2 and c[0] == "t" and not pol:
            self.found_null(st, ctx, c[1])
        elif isinstance(c, tuple) and len(c) == 3 and c[0] == "==" and pol and K0 in c[1:]:
            self.found_null(st, ctx, c[1] if c[2] == K0 else c[2])
        return None

    def found_null(self, st, ctx, v):
        if isinstance(v, tuple) and v and v[0] not in ("k", "a"):
            st.auto = st.auto | {(ctx.path, v)}
            st.touch()

    def on_decl(self, eng, st, ctx, lv, typ, init):
        i = strip(init) if init is not None else None
        if st.env.get(lv) == K0 and lv[0] == "v" and (i is None or i[0] == "N" and not i[5] or i[0] == "L"):
            st.auto = st.auto | {(ctx.path, lv)}
            st.touch()

    def on_assign(self, eng, st, ctx, lv, val, node):
        x = (ctx.path, lv)
        if x in st.auto:
            st.auto = st.auto - {x}
            st.touch()

    def on_elem(self, eng, st, ctx, e):
        for p, ln in derefs(e):
            eng.obligations += 1
            try:
                v = eng.val(st, ctx, p)
            except KeyError:
                continue
            why = None
            if self.given_null(st, v):
                why = "%s is optional and is dereferenced here although it was left out" % self.out.split("@")[0]
            elif v == K0:
                s = base(p)
                if s[0] == "V" and (ctx.path, ctx.lvar(s[3])) in st.auto:
                    why = "this pointer was declared null and never assigned on this path"
            elif (ctx.path, v) in st.auto and st.facts.get(("t", v)) is False:
                why = "this pointer was found to be null on this path"
            elif isinstance(v, tuple) and v != K0 and v[0] not in ("k", "a") and eng.decide(st, ("t", v)) is None:
                st.facts[("t", v)] = True  # it was used
                st.touch()
            if why:
                eng.report(st, ctx, ln, "null %s dereferenced" % show(p), why)


class Member(Null):
    """an object whose constructor was not given an optional pointer: the member that would hold it is null"""
    depth = 3

    def __init__(self, fld, exact=True):
        super().__init__(fld, exact)
        self.null = ("init", ("f", THIS, fld))

    def follow(self, node):
        return own(node)

    def given_null(self, st, v):
        return v == self.null


def own(n):
    """call on the same object"""
    if n[0] != "C" or n[4] is None:
        return False
    r = strip(n[4])
    return r[0] == "T" or r[0] == "U" and r[3] == "*" and strip(r[4])[0] == "T"


def base(p):
    p = strip(p)
    while p[0] == "C" and p[4] is not None and re.search(r"operator(->|\*)|F@get#", p[3]):
        p = strip(p[4])
    return p


def show(p):
    p = base(p)
    if p[0] == "V":
        return p[3].split("@")[0]
    if p[0] == "M":
        return p[4].rsplit("::", 1)[-1]
    if p[0] == "C":
        return "result of " + re.sub(r".*@F@(\w+).*", r"\1", p[3])
    return p[0]


def derefs(e):
    """pointer expressions dereferenced by this element itself"""
    out = []

    def rd(x, top=False):
        if not x or not isinstance(x, list) or not isinstance(x[0], str):
            return
        k = x[0]
        if not top and k in ("A", "C", "N") and x[1]:
            return
        if k == "B" and x[3] in ("&&", "||") or k in ("?", "lam"):
            return
        if k == "U" and x[3] == "*":
            i = strip(x[4])
            if i[0] != "T":
                out.append((i, x[2]))
        for y in kids(x):
            rd(y)
    rd(e, True)
    return out


def pnull(p):
    return {("t", ("param", p)): False, ("t", ("init", ("d", ("param", p)))): False}


def analyse(db, f, res, what, out, facts):
    """one run; a function with too many paths is analysed again without its callees"""
    for depth, exact in ((Null.depth if out else 1, True), (1, False), (0, False)):
        r = Null(out, exact)
        r.depth = depth
        eng = Engine(db, r)
        n = len(E.UNDECIDED)
        eng.run(f, facts=facts)
        if len(E.UNDECIDED) == n:
            res.count(what, eng.obligations)
            res.take(eng)
            return
        del E.UNDECIDED[n:]
    res.count("too_many_paths")
    res.sample("not decided: " + f.sig())


class Stored(Rule):
    """members the left out arguments are stored in"""
    depth = 1
    cap = 8

    def __init__(self, vals):
        self.vals = vals

    def initial(self):
        return frozenset()

    def merge_key(self, st):
        return ()

    def merge_auto(self, a, b):
        return a | b

    def on_call(self, eng, st, c):
        if own(c.node) and c.usr in eng.db.funcs:
            n = frozenset(m for m in st.auto if not touching(eng.db, eng.db.funcs[c.usr], m, 2, True))
            if n != st.auto:
                st.auto = n
                st.touch()
        return None

    def on_assign(self, eng, st, ctx, lv, val, node):
        if lv[0] == "f" and lv[1] == THIS:
            n = st.auto - {lv[2]} | ({lv[2]} if val in self.vals else set())
            if n != st.auto:
                st.auto = n
                st.touch()


def optional_members(db, f):
    """members that hold null when the optional arguments of this constructor or setup method are left out"""
    opt = [f.params[k] for k in f.info["pd"] if k < len(f.params)]
    facts = {}
    for p in opt:
        facts.update(pnull(p))
    eng = Engine(db, Stored({("param", p) for p in opt} | {("init", ("d", ("param", p))) for p in opt}))
    n = len(E.UNDECIDED)
    out = set()
    for _, st, _ in eng.run(f, facts=facts):
        out |= st.auto
    del E.UNDECIDED[n:]
    return out


def elems(f):
    return (e for B in f.blocks.values() for e in B["e"])


def touching(db, f, fld, depth=3, write=False):
    """the function or a callee on the same object reads (assigns) the member"""
    for e in elems(f):
        for n in walk(e):
            if n[0] == "M" and n[4] == fld and not write:
                return True
            if n[0] == "A" and write and strip(n[4])[0] == "M" and strip(n[4])[4] == fld:
                return True
            if n[0] == "C" and write and n[4] is not None and strip(n[4])[0] == "M" and strip(n[4])[4] == fld and re.search(r"@F@(operator=|reset)#", n[3]):
                return True
            if depth and own(n) and n[3] in db.funcs and touching(db, db.funcs[n[3]], fld, depth - 1, write):
                return True
    return False


def analyse_member(db, f, res, fld):
    for depth, exact in ((Member.depth, True), (1, False), (0, False)):
        r = Member(fld, exact)
        r.depth = depth
        eng = Engine(db, r)
        n = len(E.UNDECIDED)
        eng.run(f, facts={("t", r.null): False})
        if len(E.UNDECIDED) == n:
            res.count("methods_with_member_left_out")
            res.take(eng)
            return
        del E.UNDECIDED[n:]
    res.count("too_many_paths")
    res.sample("not decided: " + f.sig())


def run(db, tier):
    Engine(db, Rule()).summ("")
    fs = [f for f in sorted(db.funcs.values(), key=lambda f: (f.file, f.line)) if not SKIP.search(f.file)]

    def work(f, res):
        res.count("functions")
        if any(derefs(e) for B in f.blocks.values() for e in B["e"]):
            analyse(db, f, res, "dereferences", None, None)
        for k in f.info.get("pd") or []:
            if k < len(f.params):
                res.count("optional_parameters")
                analyse(db, f, res, "dereferences_with_argument_left_out", f.params[k], pnull(f.params[k]))
    flds = set()
    for f in fs:
        if f.cls and f.info.get("acc") == "public" and f.info.get("pd") and not f.info.get("static"):
            flds |= optional_members(db, f)
    todo = [(f, fld) for fld in sorted(flds) for f in fs if f.info.get("acc") == "public" and f.cls and (f.cls == fld.rsplit("::", 1)[0] or fld.rsplit("::", 1)[0] in db.bases(f.cls))
            and not f.info.get("ctor") and not f.info.get("static") and not f.info.get("lambda")]

    def job(x, res):
        if isinstance(x, tuple):
            if touching(db, x[0], x[1]):
                analyse_member(db, x[0], res, x[1])
        else:
            work(x, res)
    res = pmap(todo + fs, job)
    res.count("optional_members", len(flds))
    for m in sorted(flds):
        res.sample("may be left out: " + m)
    res.floors = {"functions": 2500, "dereferences": 30000, "optional_parameters": 80, "methods_with_member_left_out": 110, "dereferences_with_argument_left_out": 6000}
    return res
