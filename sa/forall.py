"""'For every element' facts.  A rule derived from ForAll emits events ev(label, args) at the operations it cares about; when such an operation is applied to the current element of a loop on every
path through the loop body, and the loop starts at the first element, advances by one and ends only behind the last, the event is known for ("all", X) in place of the element, X being the container
(or ("upto", n) for a counted loop).  Nested loops compose, so a pair of nested loops yields ev(label, (all X, all Y)).  Loops are recognised from the control-flow graph (natural loops, counters that
advance), so for, while, iterator, range-for loops and the std algorithms with a lambda are the same."""
from engine import *
from facts import walk, strip


def loop_counters(fn, li):
    """header -> variables that are advanced inside the loop body"""
    d = li.__dict__.get("_counters")
    if d is None:
        d = li.__dict__["_counters"] = {}
        down = li.__dict__["_down"] = {}
        for h, body in li.headers.items():
            vs, dn, up = set(), set(), set()
            for b in body:
                for e in fn.blocks[b]["e"]:
                    for x in walk(e):
                        if x[0] == "U" and x[3] in ("++", "p++", "--", "p--"):
                            y = strip(x[4])
                            if y and y[0] == "V":
                                vs.add(y[3])
                                (dn if "--" in x[3] else up).add(y[3])
                        elif x[0] == "C" and len(x) > 5 and x[4] is not None and "operator++" in str(x[3]):
                            y = strip(x[4])
                            if y and y[0] == "V":
                                vs.add(y[3])
                        elif x[0] == "A" and strip(x[4]) and strip(x[4])[0] == "V" and x[3] in ("+=", "-="):
                            vs.add(strip(x[4])[3])
                            (dn if x[3] == "-=" else up).add(strip(x[4])[3])
            down[h] = dn - up
            d[h] = {v for v in vs if not (fn.vars.get(v) or {}).get("static")}
    return d


def bound_of(t):
    """container a bound expression stands for"""
    while t and t[0] in ("ucast", "usub", "cast", "icast") and len(t) > 1 and isinstance(t[1], tuple):
        t = t[1]
    if t[0] == "size":
        return t[1]
    return ("upto", t)


EXCUSED = ("#excused", ())


def inter(a, b):
    """events of both iterations; an event over all elements of X also counts where X is empty"""
    if EXCUSED in a and len(a) == 1:
        return b
    if EXCUSED in b and len(b) == 1:
        return a
    def inn(e, o):
        return e in o or any(x[0] == "#empty" and mentions(e, lambda t: t == ("all", x[1][0])) for x in o)
    return frozenset(e for e in a if inn(e, b)) | frozenset(e for e in b if inn(e, a))


class ForAll(Rule):
    """automaton: (frozenset of events, tuple of running loops, user part)
    running loop: (key, inits, common events or None, current events)"""
    edges = True
    refill = False  # an empty container may be filled later (otherwise that path does not exist)

    def initial(self):
        return (frozenset(), (), self.initial_user())

    def initial_user(self):
        return ()

    def events(self, st):
        return st.auto[0]

    def has(self, st, label, *want):
        for ev in st.auto[0]:
            if ev[0] == label and len(ev[1]) == len(want) and all(w is None or (w(a) if callable(w) else w == a) for a, w in zip(ev[1], want)):
                return True
        return False

    def excuse(self, eng, st, ctx, cur):
        """the element ends its iteration without further events and need not count"""
        return False

    # -------------------------------------------------------------- events
    def ev(self, eng, st, label, args):
        evs, loops, user = st.auto
        loops = list(loops)
        for i in range(len(loops) - 1, -1, -1):
            key, inits, common, cur = loops[i]
            hole = ("hole", key)
            n = tuple(subst(a, lambda x: self.is_elem(key, x), hole) for a in args)
            if n != tuple(args):
                loops[i] = (key, inits, common, cur | {(label, n)})
                break
        else:
            evs = evs | {(label, tuple(args))}
        st.auto = (evs, tuple(loops), user)
        st.touch()

    @staticmethod
    def is_elem(key, x):
        """term that stands for the current position of the loop"""
        if key[0] == "loop":
            return len(x) == 4 and x[0] == "phi" and x[1] == key[1] and x[2] == key[2] and x[3][0] == "v" and x[3][1] == key[1] and x[3][2] in key[3]
        return len(x) == 3 and x[0] == "it" and x[1] == key[1]

    def close(self, eng, st, i, X):
        """the loop has visited every element of X"""
        evs, loops, user = st.auto
        key, inits, common, cur = loops[i]
        if self.refill and common is not None and X is not None:
            # it is not empty after all
            evs = evs - {("#empty", (X,))}
        st.auto = (evs, loops[:i] + loops[i + 1:], user)
        st.touch()
        if X is None:
            return
        if common is None or common == frozenset([EXCUSED]):
            self.ev(eng, st, "#empty", (X,))
            return
        for label, n in sorted(common, key=str):
            self.ev(eng, st, label, tuple(subst(a, lambda x: x == ("hole", key), ("all", X)) for a in n))

    # -------------------------------------------------------------- loops
    def on_edge(self, eng, st, ctx, li, src, b):
        cs = loop_counters(ctx.fn, li)
        evs, loops, user = st.auto
        for i, l in enumerate(loops):
            if EXCUSED not in l[3] and self.excuse(eng, st, ctx, l[0]):
                st = st.copy()
                st.auto = (evs, loops[:i] + (l[:3] + (l[3] | {EXCUSED},),) + loops[i + 1:], user)
                st.touch()
                evs, loops, user = st.auto
        out = [i for i, l in enumerate(loops) if l[0][0] == "loop" and l[0][1] == ctx.path and b not in li.headers[l[0][2]]]
        if out:
            st = st.copy()
            for i in sorted(out, reverse=True):
                X = self.finished(eng, st, ctx, st.auto[1][i])
                self.close(eng, st, i, X)
        if b in li.headers:
            key = ("loop", ctx.path, b, frozenset(cs[b]))
            evs, loops, user = st.auto
            idx = [i for i, l in enumerate(loops) if l[0] == key]
            st = st.copy()
            if (src, b) in li.back and idx:
                i = idx[0]
                self.turn(eng, st, ctx, i)
                key, inits, common, cur = st.auto[1][i]
                ok = []
                for v, i0 in inits:
                    ph = eng.phi(ctx, b, ctx.lvar(v))
                    now = st.env.get(ctx.lvar(v))
                    if v in li.__dict__["_down"].get(b, ()):
                        if now is not None and now == ladd(ph, K1, -1):
                            ok.append((v, i0))
                    elif now is not None and (now == ladd(ph, K1) or now == ("next", ph, K1)):
                        ok.append((v, i0))
                st.auto = (evs, loops[:i] + ((key, tuple(ok), common, frozenset()),) + loops[i + 1:], user)
            elif not idx:
                inits = []
                for v in sorted(cs[b]):
                    l = ctx.lvar(v)
                    x = st.env.get(l)
                    if x is None or x[0] == "ref":
                        continue
                    inits.append((v, ("down", x) if v in li.__dict__["_down"].get(b, ()) else x))
                    st.env[l] = eng.phi(ctx, b, l)
                    if x == K0:
                        eng._setfact(st, NOT(rel("<", eng.phi(ctx, b, l), K0)))
                st.auto = (evs, loops + ((key, tuple(inits), None, frozenset()),), user)
            st.touch()
        return st

    def finished(self, eng, st, ctx, loop):
        key, inits, common, cur = loop
        for v, i0 in inits:
            ph = eng.phi(ctx, key[2], ctx.lvar(v))
            now = st.env.get(ctx.lvar(v))
            if i0[0] == "down" and now is not None and now != ph:
                # the counter goes down in the condition
                while now[0] in ("usub", "ucast"):
                    now = ladd(now[1], now[2], -1) if now[0] == "usub" else now[1]
                d = ladd(now, ph, -1)
                if d[0] == "k" and isinstance(d[1], int) and d[1] < 0:
                    for f, p in st.facts.items():
                        g = tuple(ladd(x[1], x[2], -1) if x[0] == "usub" else x for x in f[1:3]) if f[0] == "<" else None
                        if g and (g == (K0, now) and p is False or g == (now, K0) and p is True):
                            return ("range", ladd(K1 if p is False else K0, d, -1), ladd(i0[1], K1))
                        if f[0] == "==" and p is True and K0 in f[1:3] and now in [ladd(x[1], x[2], -1) if x[0] == "usub" else x for x in f[1:3]]:
                            return ("range", ladd(K1, d, -1), ladd(i0[1], K1))
            if now != ph:
                continue
            cand = []
            for f, p in st.facts.items():
                if i0[0] == "down" and f[0] == "<" and (f[1:3] == (K0, ph) and p is False or f[1:3] == (ph, K0) and p is True):
                    return ("range", K1 if p is False else K0, ladd(i0[1], K1))
                if i0[0] == "k" and i0 != K0 and f[0] == "<" and f[1] == ph and p is False:
                    return ("range", i0, f[2])
                if f[0] == "<" and f[1] == ph and p is False and i0 == K0 and f[2] != K0:
                    cand.append(bound_of(f[2]))
                if f[0] == "==" and p is True and ph in f[1:3]:
                    o = f[2] if f[1] == ph else f[1]
                    if o[0] == "it" and o[1] == "end" and i0[0] == "it" and i0[1] == "begin":
                        if samecont(o[2], i0[2]):
                            return i0[2]
                    elif o[0] not in ("it", "next", "k") and i0 == K0:
                        cand.append(bound_of(o))
            if cand:
                return sorted(cand, key=lambda x: x[0] == "upto")[0]
        return None

    # -------------------------------------------------------------- std algorithms
    def algo_open(self, eng, st, ctx, c, n):
        evs, loops, user = st.auto
        key = ("algo", c.site)
        if not any(l[0] == key for l in loops):
            st.auto = (evs, loops + ((key, (), None, frozenset()),), user)
            st.touch()

    def algo_iter(self, eng, st, ctx, c, n, it):
        self.turn(eng, st, ctx, [i for i, l in enumerate(st.auto[1]) if l[0] == ("algo", c.site)][0])

    def algo_done(self, eng, st, ctx, c, n, its):
        evs, loops, user = st.auto
        key = ("algo", c.site)
        idx = [i for i, l in enumerate(loops) if l[0] == key]
        a = [x.val for x in c.args[:2]]
        X = a[0][2] if len(a) == 2 and a[0][:2] == ("it", "begin") and a[1][:2] == ("it", "end") and samecont(a[0][2], a[1][2]) else None
        if idx:
            self.close(eng, st, idx[0], X)
        elif its == 0 and X is not None:
            self.ev(eng, st, "#empty", (X,))

    def turn(self, eng, st, ctx, i):
        """one iteration of loop i is complete"""
        evs, loops, user = st.auto
        key, inits, common, cur = loops[i]
        if EXCUSED in cur or self.excuse(eng, st, ctx, key):
            cur = frozenset([EXCUSED])
        common = cur if common is None else inter(common, cur)
        st.auto = (evs, loops[:i] + ((key, inits, common, frozenset()),) + loops[i + 1:], user)
        st.touch()

    # -------------------------------------------------------------- housekeeping
    def merge_auto(self, a, b):
        """what holds on both paths"""
        if a == b:
            return a
        other = {l[0]: l for l in b[1]}
        loops = []
        for key, inits, common, cur in a[1]:
            o = other.get(key)
            if o is None:
                continue
            c = common if o[2] is None else o[2] if common is None else inter(common, o[2])
            # an excused element lacks nothing
            n = inter(cur, o[3]) if (EXCUSED in cur) == (EXCUSED in o[3]) else o[3] if EXCUSED in cur else cur
            loops.append((key, tuple(i for i in inits if i in o[1]), c, n))
        return (inter(a[0], b[0]), tuple(loops), self.merge_user(a[2], b[2]))

    def merge_user(self, a, b):
        return a

    def purge(self, auto, stale):
        evs, loops, user = auto
        evs = frozenset(e for e in evs if not mentions(e, stale))
        loops = tuple((k, tuple((v, x if not mentions(x, stale) else ("unk",)) for v, x in i), c, frozenset(e for e in cur if not mentions(e, stale))) for k, i, c, cur in loops)
        return (evs, loops, self.purge_user(user, stale))

    def purge_user(self, user, stale):
        return user


def subst(t, pred, new):
    if not isinstance(t, tuple):
        return t
    if t and pred(t):
        return new
    r = tuple(subst(x, pred, new) for x in t)
    return r if r != t else t


def lvof(t):
    """location a container value was read from"""
    while isinstance(t, tuple) and t and t[0] in ("init", "hv", "m"):
        if t[0] == "init":
            return t[1]
        if t[0] == "hv" and len(t) > 2:
            return t[2]
        break
    return t


def samecont(a, b):
    return a == b or lvof(a) == lvof(b) or (a[0] == b[0] == "call" and a[1:4] == b[1:4])
