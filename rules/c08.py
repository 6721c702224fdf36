from lib import *
GLOBS = ALL
EXPLANATION = """Effect analysis of every function in the code base: (1) no function other than the generator factory PRNG64Bit calls or constructs a source of randomness or a
clock-derived seed (C rand family, std::random_device, a private std engine, Eigen's Random/setRandom, std::random_shuffle), and no class, variable or global holds a private engine;
(2) every standard distribution and shuffle draws from PRNG64Bit(); (3) PRNG64Bit returns one generator per thread; (4) the generator is reseeded only by functions that are handed a seed,
and only with that seed; a seed argument of a constructor, of setRandomSeed or of clone reaches the generator or the constructor it delegates to, in the position that takes the seed."""
BANNED = re.compile(r"^(::)?(std::)?(rand|srand|rand_r|random|srandom|drand48|erand48|lrand48|nrand48|mrand48|srand48|random_shuffle)$")
ENGINE = re.compile(r"\bstd::(mersenne_twister_engine|linear_congruential_engine|subtract_with_carry_engine|discard_block_engine|shuffle_order_engine|independent_bits_engine|random_device)\b")
DIST = re.compile(r"\bstd::\w+_distribution\b")
CLOCK = re.compile(r"(^|::)(time|clock|gettimeofday|clock_gettime|now|getpid|get_id)$")
FACTORY = "VirtualRobot::PRNG64Bit"


def callee(db, x):
    i = db.fns.get(x[3])
    return i["q"] if i else ""


def is_gen(db, f, e, depth=0):
    """the expression designates the shared generator: PRNG64Bit(), a reference to it, or a generator parameter (judged in the callers)"""
    e = strip(e)
    while e and e[0] == "U" and e[3] in ("*", "&"):
        e = strip(e[4])
    if not e or depth > 6:
        return False
    if e[0] == "C":
        return callee(db, e) == FACTORY
    if e[0] == "V":
        v = f.vars.get(e[3]) or {}
        if e[3] in f.params:
            return True
        for x in all_nodes(f):
            if x[0] == "DS":
                for vid, init, t in x[3]:
                    if vid == e[3] and v.get("ref") and init is not None:
                        return is_gen(db, f, init, depth + 1)
    return False


def is_engine_type(t):
    return bool(ENGINE.search(t or "")) and not (t or "").rstrip().endswith(("&", "*"))


def params_in(f, e):
    """parameters of f the expression is computed from (locals followed through their initialisers and assignments)"""
    defs = {}
    for x in all_nodes(f):
        if x[0] == "DS":
            for vid, init, t in x[3]:
                if init is not None:
                    defs.setdefault(vid, []).append(init)
        elif x[0] == "A":
            l = strip(x[4])
            if l and l[0] == "V":
                defs.setdefault(l[3], []).append(x[5])
    seen, w, r, clock = set(), [e], set(), False
    while w:
        y = w.pop()
        for x in walk(y):
            if x[0] == "V" and x[3] not in seen:
                seen.add(x[3])
                if x[3] in f.params:
                    r.add(f.params.index(x[3]))
                w += defs.get(x[3], [])
            elif x[0] in ("C", "N"):
                clock = clock or x
    return r, clock


class Seeds(Rule):
    """a nonzero seed argument is on every path handed to the generator or to the constructor delegated to"""
    depth = 4

    def __init__(self, seeds, rel):
        self.seeds, self.focus = seeds, rel

    def initial(self):
        return False

    def on_call(self, eng, st, c):
        if c.info is None:
            return None
        if c.name == "seed" and ENGINE.search(c.info.get("cls") or "") or c.usr in self.seeds:
            st.auto = True
            st.touch()
            return "skip"
        return None

    def on_elem(self, eng, st, ctx, e):
        for x in walk(e):
            if x[0] == "N" and x[3] in self.seeds:
                st.auto = True
                st.touch()


def run(db, tier):
    res = Result()
    seeds = {}  # usr -> set of parameter positions that reach the generator
    todo = []
    fac = db.find(FACTORY)
    for f in sorted(db.funcs.values(), key=lambda f: (f.file, f.line)):
        res.count("functions_scanned")
        isfac = f.q == FACTORY
        if not isfac:
            for vid, v in f.vars.items():
                if is_engine_type(v.get("t")) and v.get("k") != "other":
                    res.add(f, f.where(), "private engine " + (v.get("n") or ""), "holds a random engine of its own instead of using the seeded generator")
        for x in calls(f):
            q = callee(db, x)
            n = q.rsplit("::", 1)[-1]
            i = db.fns.get(x[3]) or {}
            cls = i.get("cls") or ""
            if isfac:
                continue
            if BANNED.match(q) and not cls:
                res.add(f, f.where(x[2]), "unseeded source " + n, "draws from %s, which the library's random seed does not control" % n)
            elif x[0] == "N" and ENGINE.search(x[4] if len(x) > 4 else "") and is_engine_type(x[4]):
                res.add(f, f.where(x[2]), "private engine", "constructs a random engine of its own instead of using the seeded generator")
            elif q.startswith("Eigen::") and n in ("Random", "setRandom"):
                res.add(f, f.where(x[2]), "unseeded source " + n, "draws from Eigen's %s, which the library's random seed does not control" % n)
            elif n == "operator()" and DIST.search(cls) and x[5]:
                res.count("distribution_draws")
                res.sample({"draw": f.where(x[2]), "distribution": cls[:60]})
                if not is_gen(db, f, x[5][0]):
                    res.add(f, f.where(x[2]), "draw from another generator", "a distribution draws from something other than the seeded generator")
            elif q in ("std::shuffle", "std::sample") and x[5]:
                if not is_gen(db, f, x[5][-1]):
                    res.add(f, f.where(x[2]), "draw from another generator", "shuffles with something other than the seeded generator")
            elif x[0] == "C" and x[4] is not None and ENGINE.search(cls) and n in ("operator()", "discard"):
                res.count("direct_draws")
                if not is_gen(db, f, x[4]):
                    res.add(f, f.where(x[2]), "draw from another generator", "draws from something other than the seeded generator")
            elif x[0] == "C" and x[4] is not None and ENGINE.search(cls) and n == "seed":
                res.count("seed_sites")
                p, other = params_in(f, x[5][0]) if x[5] else (set(), None)
                if not p or other:
                    res.add(f, f.where(x[2]), "reseeded without a seed", "reseeds the generator with something that is not the seed it was handed, which destroys reproducibility")
                else:
                    seeds.setdefault(f.id, set()).update(p)
        # delegated seeds are found in the fixpoint below
    for cname, ci in db.classes.items():
        for fl in ci.get("fields", []):
            t = fl[1] if isinstance(fl, list) else fl.get("t", "")
            if is_engine_type(t):
                res.add(cname, ci.get("file", cname), "private engine member " + str(fl[0] if isinstance(fl, list) else fl.get("n")), "class %s owns a random engine of its own" % cname)
    # the generator is one per thread
    for f in fac:
        tls = [v for v in f.vars.values() if ENGINE.search(v.get("t", "")) and v.get("static")]
        res.count("generator_factories")
        if not tls or not all(v.get("tls") for v in tls):
            res.add(f, f.where(), "generator shared between threads", "the generator is not one per thread: concurrent draws race and one thread's draws change another thread's sequence")
        rets = [x for bid, x in top_elems(f) if x[0] == "R"]
        if not rets or not all(x[3] and strip(x[3])[0] == "V" and (f.vars.get(strip(x[3])[3]) or {}).get("static") for x in rets):
            res.add(f, f.where(), "not the same generator", "does not return the thread's one generator object")
        for x in calls(f):
            q = callee(db, x)
            if q.endswith("::seed"):
                res.add(f, f.where(x[2]), "reseeded on access", "reseeds the generator on every access")
    # seeds handed to constructors and setters reach the generator
    changed = True
    while changed:
        changed = False
        for f in db.funcs.values():
            for x in calls(f):
                for pos in seeds.get(x[3], ()):
                    if pos < len(x[5]):
                        p, other = params_in(f, x[5][pos])
                        if p and not other and not p <= seeds.get(f.id, set()):
                            seeds.setdefault(f.id, set()).update(p)
                            changed = True
    C = "Saba::CSpace"
    need = []
    for f in db.funcs.values():
        if f.cls in db.derived(C):
            if f.info.get("ctor") and len(f.params) >= 5:
                need.append((f, len(f.params) - 1, "constructor"))
            elif f.name == "clone" and len(f.params) >= 4:
                need.append((f, len(f.params) - 1, "clone"))
            elif f.name == "setRandomSeed":
                need.append((f, 0, "setter"))
    for f, pos, what in need:
        res.count("seed_parameters")
        if pos not in seeds.get(f.id, set()):
            res.add(f, f.where(), "seed dropped", "the random seed it is given never reaches the generator")
        else:
            eng = Engine(db, Seeds({u for u in seeds if u != f.id}, set()))
            for kind, st, v in eng.run(f):
                if kind != "ret" or v and v[0] == "valret" and v[1] == ("ctor", "null"):
                    continue
                if v and (v[1] == K0 if v[0] == "valret" else False):
                    continue
                res.count("seed_paths")
                if not st.auto and eng.decide(st, truth(("param", f.params[pos]))) is not False and what != "clone":
                    res.add(f, f.where(), "seed dropped on a path", "a path ignores the nonzero random seed it is given", st.steps())
        extra = seeds.get(f.id, set()) - {pos}
        if extra:
            res.add(f, f.where(), "seeded with another argument", "seeds the generator with an argument that is not the random seed")
    res.floors = {"functions_scanned": 3000, "distribution_draws": 4, "direct_draws": 1, "seed_sites": 2, "seed_parameters": 3, "generator_factories": 1}
    return res
