"""lockset analysis shared by the lock rules"""
from lib import *

GUARD = re.compile(r"(ConditionedLock|unique_lock|lock_guard|scoped_lock)\b")
MUTEX = re.compile(r"\b(recursive_)?(timed_)?mutex\b")


def lvmentions(t, pred):
    return mentions(t, lambda x: bool(x) and pred(x))


class LockSet(Rule):
    """automaton: multiset of explicitly locked mutexes; guards are found in the live local variables"""
    depth = 6
    factories = ("getScopedLock",)

    def initial(self):
        return ()

    def atomic(self, eng, usr, info):
        return info["q"].rsplit("::", 1)[-1] in self.factories

    def guards(self, st):
        for k, v in st.env.items():
            if k[0] == "v":
                if v[0] == "lockv":
                    yield ("lockv", v[1])
                elif v[0] == "ctor" and len(v) > 2 and GUARD.search(v[1]):
                    yield ("guard", v[2])
                elif v[0] == "new" and len(v) > 2 and GUARD.search(v[2]):
                    yield ("guard", v)

    def held(self, st):
        return bool(st.auto) or any(True for _ in self.guards(st))

    def on_call(self, eng, st, c):
        if c.info is None:
            return None
        if c.name in self.factories and c.recv is not None:
            return [(st, ("val", ("lockv", c.recv)))]
        if c.name in ("lock", "unlock", "try_lock") and c.recv is not None and not eng.is_repo(c.usr):
            cls = c.info.get("cls") or ""
            if GUARD.search(cls):
                if c.name == "unlock":
                    st.env[c.recv] = ("k", 0)
                else:
                    st.env[c.recv] = ("lockv", c.recv)
                st.touch()
                return "skip"
            if MUTEX.search(cls):
                self.mutex_op(eng, st, c, "recursive" in cls)
                return "skip"
        return None

    def mutex_op(self, eng, st, c, recursive):
        a = dict(st.auto)
        n = a.get(c.recv, 0)
        if c.name == "unlock":
            if n <= 0:
                self.bad_unlock(eng, st, c)
            a[c.recv] = n - 1
        else:
            if n > 0 and not recursive:
                self.bad_lock(eng, st, c)
            a[c.recv] = min(n + 1, 3)
        st.auto = tuple(sorted(((k, v) for k, v in a.items() if v > 0), key=lambda i: ordk(i[0])))
        st.touch()

    def bad_unlock(self, eng, st, c):
        pass

    def bad_lock(self, eng, st, c):
        pass

    def on_dtor(self, eng, st, ctx, lv, line):
        v = st.env.get(lv)
        if v is not None and (v[0] == "lockv" or v[0] == "ctor" and GUARD.search(v[1]) or v[0] == "new" and len(v) > 2 and GUARD.search(v[2])):
            st.env[lv] = ("k", 0)
            st.touch()


class Guarded(LockSet):
    """every access to one of the fields happens with a lock held"""
    def __init__(self, fields, rel, what, fresh_ok=True):
        self.fields, self.focus, self.what = fields, rel, what

    def relevant(self, eng, usr, info):
        return usr in self.focus

    def fresh(self, eng, l):
        return mentions(eng.root(l), lambda x: bool(x) and x[0] == "new")

    def on_elem(self, eng, st, ctx, e):
        if e[0] == "dtor":
            return
        for x in walk(e):
            if x[0] == "M" and x[4] in self.fields:
                l = eng.norm(st, ("f", eng.lv(st, ctx, x[3]), x[4]))
                if eng.root(l)[0] in ("v", "t") or self.fresh(eng, l):
                    continue
                eng.obligations += 1
                if not self.held(st):
                    n = x[4].rsplit("::", 1)[-1]
                    eng.report(st, ctx, x[2] or e[2], "unlocked access " + n, "accesses %s without holding %s" % (n, self.what))

