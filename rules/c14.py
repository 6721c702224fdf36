from lib import *
GLOBS = ALL
EXPLANATION = """May-dataflow over every control-flow graph: each local iterator, and each local reference or pointer to a container element, carries the container it points into (as an access path); every operation that can
invalidate it, directly or through the calls it makes (may-modify summaries computed to a fixpoint over the call graph, overriders included, with paths through back pointers folded), marks it stale, by the invalidation
rules of the container's type. Using a stale one (advancing, comparing, dereferencing, passing it on) is a violation, as is an iterator or character pointer obtained from a temporary, and an index that is advanced after
the element at the index was erased (the next element would be skipped)."""
CONT = re.compile(r"^(const )?std::(__cxx11::)?(__debug::)?(vector|deque|list|map|set|multimap|multiset|basic_string|unordered_map|unordered_set)<")
SEQ = {"vector", "deque", "basic_string"}
ITER = re.compile(r"(__normal_iterator|_Rb_tree_(const_)?iterator|_List_(const_)?iterator|_Deque_iterator|_Node_(const_)?iterator|reverse_iterator)<")
GROW = {"push_back", "emplace_back", "insert", "resize", "reserve", "assign", "emplace", "push_front", "emplace_front", "append", "operator+=", "shrink_to_fit", "swap", "operator="}
CUT = {"erase", "clear", "pop_back", "pop_front", "remove", "remove_if", "unique", "splice", "merge", "resize", "assign", "swap", "operator="}
ACCESS = {"operator[]", "at", "front", "back"}
POS = {"begin", "end", "find", "lower_bound", "upper_bound", "insert", "erase", "cbegin", "cend", "rbegin", "rend", "emplace", "emplace_hint", "equal_range"}
PASS = {"operator->", "operator*", "get", "lock", "shared_from_this", "base", "operator+", "operator-", "operator++", "operator--", "operator+=", "operator-=", "move", "forward", "next", "prev",
        "advance", "static_pointer_cast", "dynamic_pointer_cast", "addressof"}
SEARCH = {"find", "find_if", "lower_bound", "upper_bound", "min_element", "max_element", "remove", "remove_if", "unique", "partition", "adjacent_find", "next", "prev", "rotate", "search"}
DEPTH = 7


def ctype(cls):
    m = CONT.match(cls or "")
    return m.group(4) if m else None


def uname(q):
    """unqualified name, template arguments dropped (operators kept)"""
    d, out = 0, ""
    if "operator" in q:
        i = q.rindex("operator")
        if i == 0 or q[i - 1] == ":":
            return q[i:]
    for c in reversed(q):
        if c == ">":
            d += 1
        elif c == "<":
            d -= 1
        elif d == 0:
            if c == ":":
                break
            out = c + out
    return out


def bare(e):
    """expression without conversions and copies (iterator to const_iterator, copies of iterators)"""
    e = strip(e)
    while e and e[0] == "N" and e[5] and (len(e[5]) == 1 or ITER.search(str(e[4]))):
        e = strip(e[5][0])
    return e


class View:
    """access paths of one function"""

    def __init__(self, A, f):
        self.A, self.db, self.f = A, A.db, f
        self.refs = {}
        self.busy = set()
        for _, e in top_elems(f):
            for x in walk(e):
                if x[0] == "DS":
                    for d in x[3]:
                        v = f.vars.get(d[0]) or {}
                        if d[1] is not None and (v.get("ref") or "*" in str(v.get("t")) or "shared_ptr" in str(v.get("t"))[:24] or "weak_ptr" in str(v.get("t"))[:22]):
                            self.refs.setdefault(d[0], d[1])
        self.assigned = {strip(x[4])[3] for _, e in top_elems(f) for x in walk(e) if x[0] == "A" and strip(x[4]) and strip(x[4])[0] == "V"}

    def path(self, e, depth=0):
        e = strip(e)
        if not e or depth > 12:
            return None
        k = e[0]
        if k == "T":
            return ("this",)
        if k == "V":
            v = e[3]
            i = self.f.vars.get(v) or {}
            if v in self.refs and v not in self.busy and not (v in self.assigned and not i.get("ref")):
                self.busy.add(v)
                p = self.path(self.refs[v], depth + 1)
                self.busy.discard(v)
                if p is not None:
                    return p
            return ("v", v)
        if k == "M":
            p = self.path(e[3], depth + 1)
            return self.step(p, e[4])
        if k == "U" and e[3] in ("*", "&"):
            return self.path(e[4], depth + 1)
        if k == "I":
            return self.step(self.path(e[3], depth + 1), "[]")
        if k == "dyn":
            return self.path(e[4], depth + 1)
        if k == "N" and e[5]:
            return self.path(e[5][0], depth + 1) if len(e[5]) == 1 and ("shared_ptr" in e[4] or "iterator" in e[4] or "weak_ptr" in e[4]) else None
        if k == "C":
            i = self.db.fns.get(e[3]) or {}
            n = uname(i.get("q", ""))
            if e[4] is not None and n in ACCESS:
                return self.step(self.path(e[4], depth + 1), "[]")
            it = self.A.is_iter(self.f, e[4]) if e[4] is not None else False
            if it and n in ("operator*", "operator->"):
                o = self.origins(e[4], depth + 1)
                return self.step(o[0], "[]") if o else None
            if n in PASS:
                b = e[4] if e[4] is not None else (e[5][0] if e[5] else None)
                return self.path(b, depth + 1) if b is not None else None
            g = self.A.getter(e[3])
            if g is not None:
                return self.subst(g, e, depth)
        return None

    def step(self, p, s):
        if p is None or len(p) > DEPTH:
            return None
        return p + (s,)

    def subst(self, g, call, depth=0):
        """path g of the callee seen from the caller"""
        if g[0] == "this":
            b = self.path(call[4], depth + 1) if call[4] is not None else None
            r = g[1:]
        elif g[0] == "p":
            if g[1] >= len(call[5]):
                return None
            b = self.path(call[5][g[1]], depth + 1)
            r = g[2:]
        else:
            return None
        if b is None:
            return None
        r = self.A.fold(b + r)
        return r if len(r) <= DEPTH + 1 else None

    def origins(self, e, depth=0, st=None):
        """containers an iterator expression may point into: list of paths, plus stale marks through st"""
        e = strip(e)
        if not e or depth > 12:
            return []
        if e[0] == "V":
            if st is not None and e[3] in st:
                return [o for o, s in st[e[3]]]
            if e[3] in self.A.inits(self.f) and e[3] not in self.busy:
                self.busy.add(e[3])
                r = self.origins(self.A.inits(self.f)[e[3]], depth + 1, st)
                self.busy.discard(e[3])
                return r
            return []
        if e[0] == "N":
            return self.origins(e[5][0], depth + 1, st) if len(e[5]) >= 1 else []
        if e[0] == "?":
            return self.origins(e[4], depth + 1, st) + self.origins(e[5], depth + 1, st)
        if e[0] == "C":
            i = self.db.fns.get(e[3]) or {}
            n = uname(i.get("q", ""))
            if e[4] is not None and ctype(i.get("cls")) and n in POS:
                p = self.path(e[4], depth + 1)
                if p is None and self.A.temp(e[4]):
                    return [("temp",)]
                return [p] if p else []
            b = e[4] if e[4] is not None else (e[5][0] if e[5] else None)
            if b is not None and (n in PASS or i.get("q", "").startswith("std::") and n in SEARCH):
                return self.origins(b, depth + 1, st)
        return []


class Analysis:
    def __init__(self, db):
        self.db = db
        self.views, self._init, self._get = {}, {}, {}
        self.mods = {}
        self.fieldt = {}
        for c, i in db.classes.items():
            for n, t in (i.get("fields") or {}).items() if isinstance(i.get("fields"), dict) else [(x["n"], x["t"]) for x in i.get("fields", [])]:
                self.fieldt[c + "::" + n] = str(t)

    def view(self, f):
        if f.id not in self.views:
            self.views[f.id] = View(self, f)
        return self.views[f.id]

    def inits(self, f):
        if f.id not in self._init:
            self._init[f.id] = {d[0]: d[1] for _, e in top_elems(f) for x in walk(e) if x[0] == "DS" for d in x[3] if d[1] is not None}
        return self._init[f.id]

    def is_iter(self, f, e):
        e = strip(e)
        if not e:
            return False
        if e[0] == "V":
            return bool(ITER.search(str((f.vars.get(e[3]) or {}).get("t"))))
        if e[0] == "C":
            return bool(ITER.search(str((self.db.fns.get(e[3]) or {}).get("ret"))))
        if e[0] == "N":
            return bool(ITER.search(str(e[4])))
        if e[0] == "M":
            return len(e) > 5 and bool(ITER.search(str(e[5])))
        return False

    def temp(self, e):
        """expression denotes a container created by a call returning by value"""
        e = strip(e)
        while e and e[0] == "N" and len(e[5]) == 1:
            e = strip(e[5][0])
        if e and e[0] == "C":
            r = str((self.db.fns.get(e[3]) or {}).get("ret", ""))
            return bool(CONT.match(r)) and not r.rstrip().endswith(("&", "*"))
        return False

    def getter(self, usr):
        """path a getter that returns a reference, pointer or shared pointer stands for"""
        if usr in self._get:
            return self._get[usr]
        self._get[usr] = None
        g = self.db.funcs.get(usr)
        if g is None:
            return None
        t = g.info.get("ret", "")
        if not (t.endswith("&") or t.endswith("*") or "shared_ptr" in t[:30] or "weak_ptr" in t[:30]):
            return None
        ps = set()
        for _, e in top_elems(g):
            for x in walk(e):
                if x[0] == "R" and x[3] is not None:
                    p = self.view(g).path(x[3])
                    ps.add(self.root(g, p))
        if len(ps) == 1:
            self._get[usr] = ps.pop()
        return self._get[usr]

    def root(self, f, p):
        if p is None:
            return None
        if p[0] == "this":
            return p
        if p[0] == "v" and p[1] in f.params:
            return ("p", f.params.index(p[1])) + p[2:]
        return None

    def fold(self, p):
        """drop (children, [], parent): the way to an element and back to its owner"""
        p = tuple(p)
        ch = True
        while ch:
            ch = False
            for i in range(len(p) - 2):
                a, b, c = p[i:i + 3]
                if b == "[]" and "::" in str(a) and "::" in str(c) and self.back(c, a):
                    p = p[:i] + p[i + 3:]
                    ch = True
                    break
        return p

    def back(self, c, a):
        """field c of an element points to the owner of field a"""
        t = self.fieldt.get(c, "")
        owner = a.rsplit("::", 1)[0]
        leafc = c.rsplit("::", 1)[1]
        return ("weak_ptr<" in t or t.endswith("*")) and re.search(r"\b%s\b" % re.escape(owner), t) is not None and leafc != a.rsplit("::", 1)[1]

    # ------------------------------------------------------------ what a call may modify
    def direct(self, f, x):
        """(path, kind, call) of the container that node x modifies structurally; kind: 'grow', 'cut', 'all' """
        v = self.view(f)
        if x[0] == "C" and x[4] is not None:
            i = self.db.fns.get(x[3]) or {}
            ct = ctype(i.get("cls"))
            n = uname(i.get("q", ""))
            if ct and (n in GROW or n in CUT):
                p = v.path(x[4])
                if p is not None:
                    return p, ct, n
            if ct in ("map", "unordered_map") and n == "operator[]" and ct == "unordered_map":
                p = v.path(x[4])
                if p is not None:
                    return p, ct, "insert"
        return None

    def targets(self, x):
        u = x[3]
        r = [u] if u in self.db.funcs else []
        i = self.db.fns.get(u) or {}
        if i.get("virt"):
            r += [o for o in self.db.all_overriders(u) if o in self.db.funcs]
        return r

    def summaries(self):
        calls_of, rev = {}, {}
        for f in self.db.funcs.values():
            m = set()
            cs = []
            for _, e in top_elems(f):
                for x in walk(e):
                    d = self.direct(f, x)
                    if d:
                        p = self.root(f, d[0])
                        if p:
                            m.add((p, d[1], d[2]))
                    if x[0] == "C":
                        for t in self.targets(x):
                            cs.append((x, t))
                            rev.setdefault(t, set()).add(f.id)
            self.mods[f.id] = m
            calls_of[f.id] = cs
        work = [u for u, m in self.mods.items() if m]
        todo = set()
        for u in work:
            todo |= rev.get(u, set())
        while todo:
            u = todo.pop()
            f = self.db.funcs[u]
            new = set(self.mods[u])
            for x, t in calls_of[u]:
                for p, ct, n in self.mods[t]:
                    q = self.view(f).subst(p, x)
                    q = self.root(f, q)
                    if q:
                        new.add((q, ct, n))
            if new != self.mods[u] and len(new) < 400:
                self.mods[u] = new
                todo |= rev.get(u, set())

    # ------------------------------------------------------------ dataflow
    def check(self, f, res):
        v = self.view(f)
        track = {n for n, i in f.vars.items() if i.get("k") != "param" and ITER.search(str(i.get("t"))) and not str(i.get("t")).startswith("std::pair")}
        elems = {}
        for n, init in self.inits(f).items():
            i = f.vars.get(n) or {}
            t = str(i.get("t"))
            if (i.get("ref") or t.endswith("*")) and n not in track:
                c = self.element_of(f, init)
                if c is not None:
                    elems[n] = c
        strs = {n for n, init in self.inits(f).items() if str((f.vars.get(n) or {}).get("t")) == "const char *" and self.temp_chars(init)}
        for n in strs:
            res.add(f, f.where(), "%s points into a temporary" % f.vars[n]["n"], "the character pointer outlives the temporary string it points into")
        idx = set()
        for _, e in top_elems(f):
            for x in walk(e):
                d = self.direct(f, x)
                if d and d[1] in SEQ and d[2] == "erase":
                    for a in x[5]:
                        for y in walk(a):
                            if y[0] == "V" and re.match(r"^(const )?(unsigned|int|long|size_t|short)", str((f.vars.get(y[3]) or {}).get("t"))):
                                idx.add(y[3])
        sub = {}
        for _, e in top_elems(f):
            for x in walk(e):
                if x[0] == "C" and x[4] is not None and x[5] and uname((self.db.fns.get(x[3]) or {}).get("q", "")) in ("operator[]", "at"):
                    y, p = strip(x[5][0]), v.path(x[4])
                    if y and y[0] == "V" and p and (f.vars.get(y[3]) or {}).get("k") != "param" and ctype((self.db.fns.get(x[3]) or {}).get("cls")) in SEQ:
                        sub.setdefault(p, set()).add(y[3])
        v.sub = sub
        idx |= {i for s in sub.values() for i in s}
        srch = any(self.search(x) for _, e in top_elems(f) for x in walk(e) if x[0] == "C")
        if not track and not elems and not idx and not srch:
            return
        res.count("functions_with_positions")
        res.count("positions_tracked", len(track) + len(elems) + len(idx))
        inn = {f.entry: {}}
        work = [f.entry]
        seen = 0
        reports = {}
        while work and seen < 6000:
            seen += 1
            b = work.pop(0)
            st = {k: set(x) for k, x in inn[b].items()}
            sids = v.__dict__.setdefault("sids", {e[1] for bl in f.blocks.values() for e in bl["e"] if isinstance(e[1], int) and e[1]})
            for e in f.blocks[b]["e"]:
                self.node(f, v, e, st, track, elems, idx, sids, reports, res)
            succ = f.blocks[b]["s"]
            out = st
            for si, s in enumerate(succ):
                if s is None or s not in f.blocks:
                    continue
                st = self.refine(f, v, f.blocks[b].get("c"), si == 0, out) if len(succ) == 2 else out
                old = inn.get(s)
                if old is None:
                    inn[s] = {k: set(x) for k, x in st.items()}
                    work.append(s)
                else:
                    ch = False
                    for k in [k for k in old if isinstance(k, tuple) and k not in st]:
                        del old[k]
                        ch = True
                    for k, x in st.items():
                        if isinstance(k, tuple):
                            continue
                        if not x <= old.get(k, set()):
                            old.setdefault(k, set()).update(x)
                            ch = True
                    if ch and s not in work:
                        work.append(s)
        for (var, what), (line, msg) in sorted(reports.items()):
            res.add(f, f.where(line), what, msg)

    def temp_chars(self, e):
        e = strip(e)
        if e and e[0] == "C" and e[4] is not None:
            i = self.db.fns.get(e[3]) or {}
            if uname(i.get("q", "")) in ("c_str", "data") and ctype(i.get("cls")) == "basic_string":
                return self.temp(e[4])
        return False

    def element_of(self, f, e):
        """container (path, type) of the element the expression denotes"""
        e = strip(e)
        d = 0
        while e and d < 8:
            d += 1
            if e[0] == "U" and e[3] in ("&", "*"):
                e = strip(e[4])
            elif e[0] == "M":
                e = strip(e[3])
                # a member of an element reached through a pointer stays valid
                if e and e[0] in ("U", "C") and not self.in_place(f, e):
                    return None
            elif e[0] == "C" and e[4] is not None:
                i = self.db.fns.get(e[3]) or {}
                n = uname(i.get("q", ""))
                ct = ctype(i.get("cls"))
                if ct and n in ACCESS:
                    p = self.view(f).path(e[4])
                    return (p, ct) if p else None
                if n in ("operator*", "operator->") and self.is_iter(f, e[4]):
                    o = self.view(f).origins(e[4])
                    t = re.search(r"_(Rb|List|Node|Deque)", str(self.itype(f, e[4])))
                    ct = {"Rb": "map", "List": "list", "Node": "unordered_map", "Deque": "deque"}.get(t.group(1)) if t else "vector"
                    return (o[0], ct) if len(o) == 1 and o[0] != ("temp",) else None
                return None
            else:
                return None
        return None

    def in_place(self, f, e):
        if e[0] == "U":
            return False
        i = self.db.fns.get(e[3]) or {}
        n = uname(i.get("q", ""))
        return bool(ctype(i.get("cls")) and n in ACCESS) or n in ("operator*", "operator->") and e[4] is not None and self.is_iter(f, e[4])

    def itype(self, f, e):
        e = strip(e)
        if e[0] == "V":
            return (f.vars.get(e[3]) or {}).get("t")
        if e[0] == "C":
            return (self.db.fns.get(e[3]) or {}).get("ret")
        return e[4] if e[0] == "N" else ""

    def node(self, f, v, e, st, track, elems, idx, sids, reports, res):
        # uses directly below this element (deeper ones were elements of their own)
        direct = []

        def rec(y, top):
            if not isinstance(y, list) or not y:
                return
            if not top and isinstance(y[1], int) and y[1] in sids:
                return
            if y[0] == "V":
                direct.append(y)
            for z in kids(y):
                if z:
                    rec(z, False)
        rec(e, True)
        target = None
        if e[0] == "A":
            t = strip(e[4])
            target = t[3] if t and t[0] == "V" and e[3] == "=" else None
        elif e[0] == "C" and e[4] is not None and uname((self.db.fns.get(e[3]) or {}).get("q", "")) == "operator=":
            t = strip(e[4])
            target = t[3] if t and t[0] == "V" else None
        for y in direct:
            n = y[3]
            if n == target and not (n in elems):
                continue
            for o, s in st.get(n, ()):
                if s == "E":
                    if self.derefs(f, e, y):
                        res.count("searches_used")
                        reports.setdefault((n, "unchecked " + f.vars[n]["n"]), (y[2], "%s is used although the search may have found nothing" % f.vars[n]["n"]))
                elif s and (n in track or n in elems):
                    nm = f.vars[n]["n"]
                    if nm.startswith("__"):
                        nm = "the loop over the container"
                    reports.setdefault((n, "stale " + (nm if not nm.startswith("the ") else "loop")), (y[2], "%s is used after the container it points into may have been changed (line %s)" % (nm, s)))
        if e[0] == "C":
            i = self.db.fns.get(e[3]) or {}
            n = uname(i.get("q", ""))
            t = None
            if n in ("operator*", "operator->") and e[4] is not None and self.search(e[4]) and self.is_iter(f, e[4]):
                t = e[4]
            elif n == "erase" and ctype(i.get("cls")) and len(e[5]) == 1:
                a = bare(e[5][0])
                if self.search(a) and self.is_iter(f, a):
                    t = a
                elif a and a[0] == "V" and any(s == "E" for o, s in st.get(a[3], ())):
                    reports.setdefault((a[3], "unchecked " + f.vars[a[3]]["n"]), (e[2], "%s is erased although the search may have found nothing" % f.vars[a[3]]["n"]))
            if t is not None and not self.present(f, v, t, st):
                reports.setdefault((e[2], "unchecked search"), (e[2], "the result of a search that may have found nothing is used"))
        # definitions
        if e[0] == "DS":
            for d in e[3]:
                if d[1] is None:
                    continue
                if d[0] in track:
                    self.define(f, v, d[0], d[1], st, reports, e[2])
                elif d[0] in elems:
                    st[d[0]] = {(elems[d[0]][0], 0)}
                elif d[0] in idx:
                    st.pop(d[0], None)
        elif target is not None and target in track:
            self.define(f, v, target, e[5] if e[0] == "A" else e[5][0], st, reports, e[2])
        elif target is not None and target in idx:
            st.pop(target, None)
        elif target is not None and target in elems and not (f.vars.get(target) or {}).get("ref"):
            st.pop(target, None)
        # indices
        if idx and e[0] == "U" and e[3] in ("++", "p++", "--", "p--"):
            t = strip(e[4])
            if t and t[0] == "V" and t[3] in idx:
                if "+" in e[3]:
                    for o, s in st.get(t[3], ()):
                        reports.setdefault((t[3], "element behind the erased one skipped by " + f.vars[t[3]]["n"]), (e[2], "the index is advanced although the element at the index was erased (line %s)" % s))
                st.pop(t[3], None)
        # modifications
        d = self.direct(f, e)
        if d:
            res.count("modifications")
            self.invalidate(f, v, d[0], d[1], d[2], e, st, track, elems)
            if d[2] == "erase" and d[1] in SEQ:
                for y in walk(e):
                    if y[0] == "V" and y[3] in idx and len(e[5]) == 1:
                        st[y[3]] = {(d[0], e[2])}
        elif e[0] == "C":
            for t in self.targets(e):
                for p, ct, n in self.mods.get(t, ()):
                    q = v.subst(p, e)
                    if q:
                        res.count("call_modifications")
                        if n in ("erase", "remove") and ct in SEQ:
                            for i in v.sub.get(q, ()):
                                st[i] = {(q, e[2])}
                        self.invalidate(f, v, q, ct, n, e, st, track, elems, call=True)

    def derefs(self, f, e, y):
        """element e dereferences, erases at or advances the iterator y"""
        if e[0] != "C":
            return False
        i = self.db.fns.get(e[3]) or {}
        n = uname(i.get("q", ""))
        if n in ("operator*", "operator->", "operator++", "operator[]") and e[4] is not None and strip(e[4]) == y:
            return True
        if n == "erase" and ctype(i.get("cls")) and len(e[5]) == 1:
            return bare(e[5][0]) == y
        return False

    def refine(self, f, v, c, pos, st):
        """a comparison with end() decides whether the search was successful"""
        c = strip(c)
        while c and c[0] == "U" and c[3] == "!":
            c, pos = strip(c[4]), not pos
        if c and c[0] == "B" and (c[3] == "&&" and pos or c[3] == "||" and not pos):
            return self.refine(f, v, c[5], pos, self.refine(f, v, c[4], pos, st))
        if not c or c[0] != "C":
            return st
        n = uname((self.db.fns.get(c[3]) or {}).get("q", ""))
        if pos and n not in ("operator!=", "operator=="):
            t = self.tests(f, v, c)
            if t:
                st = dict(st)
                st.update({k: {("", 0)} for k in t})
            return st
        if n not in ("operator!=", "operator=="):
            return st
        ops = [strip(x) for x in ([c[4]] if c[4] is not None else []) + c[5]]
        ops = [bare(x) for x in ops]
        ops = [strip(x[4]) if x and x[0] == "C" and x[4] is not None and uname((self.db.fns.get(x[3]) or {}).get("q", "")) == "operator=" else x for x in ops]
        hit = [x for x in ops if x and x[0] == "V" and any(s == "E" for o, s in st.get(x[3], ()))]
        if len(hit) == 1 and (n == "operator!=") == pos:
            st = dict(st)
            st[hit[0][3]] = {(o, 0 if s == "E" else s) for o, s in st[hit[0][3]]}
        return st

    def search(self, e):
        """the expression is the result of a search that may have found nothing"""
        e = bare(e)
        if not e or e[0] != "C":
            return False
        i = self.db.fns.get(e[3]) or {}
        n = uname(i.get("q", ""))
        return n in ("find", "find_if", "lower_bound", "upper_bound") and (bool(ctype(i.get("cls"))) and "basic_string" not in i["cls"] or e[4] is None and i.get("q", "").startswith("std::"))

    def present(self, f, v, e, st):
        """a preceding test established that the element searched for exists"""
        e = bare(e)
        k = [bare(a) for a in e[5]]
        if e[4] is not None:
            p, k = v.path(e[4]), k[:1]
        else:
            o = v.origins(e)
            p, k = (o[0] if o else None), k[2:3]
        return p is not None and bool(k) and k[0] and k[0][0] == "V" and ("present", p, k[0][3]) in st

    def tests(self, f, v, c):
        """(container, key) pairs a boolean query looks at: a member function reading a container of its object, given the key"""
        g = self.db.funcs.get(c[3])
        if g is None or g.info.get("ret") != "bool" or not (g.info.get("const") or g.info.get("virt") or g.name.startswith(("has", "is", "contains"))):
            return set()
        keys = [y[3] for y in (bare(a) for a in c[5]) if y and y[0] == "V"]
        out = set()
        for _, t in top_elems(g):
            for x in walk(t):
                if x[0] == "M" and CONT.match(str(x[5]) if len(x) > 5 else ""):
                    p = self.root(g, self.view(g).path(x))
                    q = v.subst(p, c) if p else None
                    if q:
                        out |= {("present", q, k) for k in keys}
        return out

    def cokeyed(self, f, v, e):
        """the key searched for is a key of another map that is filled at exactly the same places"""
        e = bare(e)
        if e[4] is None or not e[5]:
            return False
        p2, k = v.path(e[4]), strip(e[5][0])
        if not (k and k[0] == "M" and str(k[4]).endswith("::first")):
            return False
        its = [y for y in walk(k) if y[0] == "V" and self.is_iter(f, y)]
        o = v.origins(its[0]) if its else []
        if p2 is None or len(o) != 1:
            return False
        at = {o[0]: set(), p2: set()}
        for b, x in [(b, x) for b, t in top_elems(f) for x in walk(t)]:
            if x[0] == "C" and x[4] is not None and uname((self.db.fns.get(x[3]) or {}).get("q", "")) in ("operator[]", "insert", "emplace", "erase", "clear", "operator="):
                p = v.path(x[4])
                if p in at:
                    at[p].add(b)
        return bool(at[p2]) and at[p2] == at[o[0]]

    def define(self, f, v, var, init, st, reports, line):
        o = v.origins(init, st=st)
        s = strip(init)
        while s and s[0] == "N" and len(s[5]) == 1:
            s = strip(s[5][0])
        if s and s[0] == "V" and s[3] in st:
            st[var] = set(st[s[3]])
            return
        if ("temp",) in o and not f.vars[var]["n"].startswith("__"):
            reports.setdefault((var, f.vars[var]["n"] + " points into a temporary"), (line, "the iterator points into a container that was returned by value and is gone"))
        st[var] = {(p, "E" if self.search(init) and not self.cokeyed(f, v, init) and not self.present(f, v, init, st) else 0) for p in o if p != ("temp",)}

    def invalidate(self, f, v, p, ct, n, e, st, track, elems, call=False):
        line = e[2]
        only = None
        if ct not in SEQ:
            if n not in CUT:
                if not (ct.startswith("unordered") and n in GROW):
                    return
            if n == "erase" and not call and e[5]:
                a = bare(e[5][0])
                if self.is_iter(f, a):
                    only = a[3] if a[0] == "V" else "none"
        before = set()
        if ct in SEQ and n == "erase" and not call:
            # the first erased position lies behind it + n: it stays valid
            for y in walk(e[5][0]) if e[5] else ():
                if y[0] == "C" and uname((self.db.fns.get(y[3]) or {}).get("q", "")) in ("operator+", "next"):
                    a = strip(y[4] if y[4] is not None else y[5][0])
                    if a and a[0] == "V":
                        before.add(a[3])
        for k in list(st):
            if isinstance(k, tuple) and k[1] == p and n not in GROW | {"pop_front", "pop_back"} - {"operator=", "assign", "swap", "resize"}:
                del st[k]
                continue
            if k not in track and k not in elems or k in before:
                continue
            if only is not None and k != only:
                # a reference obtained through the erased iterator cannot be told apart
                continue
            if ct in SEQ and n in ("pop_back",) and k in track:
                continue
            if k in elems and ct.startswith("unordered") and n in GROW and n not in CUT:
                continue
            new = set()
            for o, s in st[k]:
                new.add((o, line) if o == p and s in (0, "E") else (o, s))
            st[k] = new


def run(db, tier):
    res = Result()
    A = Analysis(db)
    A.summaries()
    res.count("functions", len(db.funcs))
    res.count("modifying_functions", sum(1 for m in A.mods.values() if m))
    for f in sorted(db.funcs.values(), key=lambda f: f.id):
        A.check(f, res)
    res.floors = {"functions": 1500, "functions_with_positions": 150, "positions_tracked": 400, "modifications": 80, "modifying_functions": 100}
    return res
