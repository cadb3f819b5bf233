"""C22: identity of symbols and singletons over time, threads, pickling and copying."""
import copy
import gc
import itertools
import pickle
import random
import sys
from vp import sched
sched.install()
from vp.core import section, short
from unpythonic.symbol import sym, gensym, Symbol, gsym
from unpythonic.singleton import Singleton

UID = itertools.count()


def names(rng):
    u = next(UID)
    pool = [f"n{u}", f"m{u}", f"x y {u}", "", ("t", u), u, frozenset([u]), f"N{u}", f"n{u} "]
    return rng.sample(pool, rng.randrange(2, 6))


def roundtrip(rng, x):
    k = rng.randrange(5)
    if k == 0: return copy.copy(x)
    if k == 1: return copy.deepcopy(x)
    if k == 2: return copy.deepcopy([x, {1: x}])[rng.choice([0])]
    return pickle.loads(pickle.dumps(x, rng.randrange(pickle.HIGHEST_PROTOCOL + 1)))


@section(quick=2500, require={"sym": 2500, "roundtrip": 1000, "gensym": 1000, "reborn": 100})
def identities(ctx, rng):
    ns = names(rng)
    live = {}
    hist = []
    ctx.note(history=hist)
    gens = []
    pick = {}
    for _ in range(rng.randrange(5, 20)):
        n = rng.choice(ns)
        op = rng.choice(["sym", "sym", "rt", "drop", "pickle", "unpickle", "gensym", "grt"])
        hist.append((op, n))
        if op == "sym":
            s = sym(n)
            ctx.event("sym")
            if n in live: ctx.check(s is live[n], "sym of the same name is another object", n=n)
            for m, o in live.items():
                ctx.check((s is o) == (m == n), "symbols of different names are identical", n=n, m=m)
                ctx.same(s == o, m == n, "equality", n=n, m=m)
            ctx.check(s.name == n and type(s) is sym and isinstance(s, Symbol), "name of a symbol", n=n, got=s.name)
            ctx.same(str(s), str(n), "str"); ctx.same(repr(s), f'sym("{n}")', "repr")
            live[n] = s
        elif op == "rt" and n in live:
            ctx.event("roundtrip")
            ctx.check(roundtrip(rng, live[n]) is live[n], "a symbol does not survive copying or pickling", n=n)
        elif op == "drop" and n in live:
            del live[n]
            s = o = None
        elif op == "pickle" and n in live: pick[n] = pickle.dumps(live[n])
        elif op == "unpickle" and n in pick:
            s = pickle.loads(pick[n])
            ctx.event("reborn")
            ctx.check(s.name == n and (s is live[n] if n in live else s is sym(n)), "unpickled symbol", n=n)
            live[n] = s
        elif op == "gensym":
            lab = rng.choice(["cat", "cat", str(n)])
            g = gensym(lab)
            ctx.event("gensym")
            ctx.check(all(g is not h and g != h for h in gens) and all(g is not s for s in live.values()), "gensym returned an existing symbol")
            ctx.check(g.label == lab and isinstance(g, Symbol), "label of a gensym")
            ctx.check(lab in str(g), "str of a gensym")
            gens.append(g)
        elif op == "grt" and gens:
            g = rng.choice(gens)
            ctx.event("roundtrip")
            ctx.check(roundtrip(rng, g) is g, "a gensym does not survive copying or pickling")
            # a named symbol with the same uuid or label is something else
            ctx.check(sym(g.uid) is not g and sym(g.label) is not g, "a named symbol is a gensym")
    if gens:
        d = pickle.dumps(gens)
        lab = [g.label for g in gens]
        g2 = pickle.loads(d)
        ctx.check(all(a is b for a, b in zip(gens, g2)), "unpickled gensyms")
        if rng.random() < 0.3:
            ids = [g.uid for g in gens]
            g = h = g2 = None
            gens.clear()
            a, b = pickle.loads(d), pickle.loads(d)
            ctx.check(all(x is y for x, y in zip(a, b)) and [x.uid for x in a] == ids and [x.label for x in a] == lab, "gensyms revived from a pickle")
            ctx.event("reborn")
    ctx.seen([o for o, _ in hist])


@section(quick=400, require={"get": 1500, "switches": 1500, "gensym": 300})
def threads(ctx, rng):
    S = sched.Sched(rng, p=rng.choice([0.2, 0.5, 0.8]))
    u = next(UID)
    ns = [("T", u), f"t{u}", u + 0.5][:rng.choice([1, 2, 3])]
    keep = rng.random() < 0.5
    alive = {}      # (name) -> list of (object) currently held by some task
    bad, gens, pickles = [], [], {}
    cnt, gets = [0], [0]
    g0 = gensym("shared")
    gp, gid = pickle.dumps(g0), g0.uid
    g0 = None
    def worker(seed):
        r = random.Random(seed)
        mine = {}
        for _ in range(r.randrange(3, 8)):
            n = r.choice(ns)
            k = r.randrange(6)
            if k == 0:
                alive.setdefault(n, [])
                x = mine.pop(n, None)
                if x is not None:
                    alive[n][:] = [o for o in alive[n] if o[1] is not mine]
                x = None
                continue
            if k == 1:
                g = gensym("g"); gens.append(g); cnt[0] += 1; continue
            if k == 2:
                g = pickle.loads(gp)
                if g.uid != gid or g.label != "shared": bad.append("gensym state")
                held = [o for o, who in alive.setdefault("gp", [])]
                if any(o is not g for o in held): bad.append("two objects for one pickled gensym")
                alive["gp"].append((g, mine)); g = held = None; continue
            gets[0] += 1
            s = sym(n) if k < 5 else pickle.loads(pickle.dumps(mine.get(n) or sym(n)))
            held = [o for o, who in alive.setdefault(n, [])]
            if any(o is not s for o in held): bad.append(("two live symbols of one name", n))
            if s.name != n: bad.append(("name", n, s.name))
            if mine.get(n) is None:
                mine[n] = s; alive[n].append((s, mine))
            s = held = None
            sched.point()
    for _ in range(rng.choice([2, 3, 4])): S.spawn(worker, rng.random())
    S.run()
    ctx.check(not bad, "symbol identity across threads", bad=bad[:3])
    ctx.check(len(set(map(id, gens))) == len(gens) == len({g.uid for g in gens}), "gensyms not unique across threads")
    ctx.event("get", gets[0]); ctx.event("switches", S.switches); ctx.event("gensym", cnt[0])
    ctx.seen(S.switches, len(ns))


def newclasses(rng):
    """fresh singleton classes, importable for pickle from this module"""
    u = next(UID)
    mod = sys.modules[__name__]
    out = []
    def init(self, v=0, *, w=None): self.v, self.w = v, w
    base = type(Singleton)(f"S{u}a", (Singleton,), {"__init__": init, "__module__": __name__})
    sub = type(Singleton)(f"S{u}b", (base,), {"__module__": __name__})
    mix = type(Singleton)(f"S{u}c", (Singleton, dict), {"__module__": __name__, "__init__": lambda self, *a: dict.__init__(self)})
    other = type(Singleton)(f"S{u}d", (Singleton,), {"__module__": __name__, "__init__": lambda self: setattr(self, "v", 7)})
    for c in (base, sub, other, mix)[:rng.choice([2, 3, 4])]:
        setattr(mod, c.__name__, c)
        out.append(c)
    return out


@section(quick=1500, require={"made": 1200, "refused": 800, "unpickled": 80, "remade": 120})
def singletons(ctx, rng):
    classes = newclasses(rng)
    live, dumps, made = {}, {}, {}
    hist = []
    ctx.note(history=hist)
    try:
        for _ in range(rng.randrange(5, 20)):
            c = rng.choice(classes)
            op = rng.choice(["make", "make", "drop", "pickle", "unpickle", "copy", "set"])
            hist.append((op, c.__name__))
            if op == "make":
                n = next(UID)
                try:
                    x = c(n) if c in classes[:2] else c()
                except TypeError:
                    ctx.event("refused")
                    ctx.check(c in live, "construction refused though no instance exists")
                    if c in classes[:2]: ctx.check(live[c].v != n, "the refused construction changed the instance")
                else:
                    ctx.event("made")
                    ctx.check(c not in live, "a second instance was created, or the constructor returned the existing one")
                    if c in classes[:2]: ctx.same(x.v, n, "__init__ arguments")
                    if c in made: ctx.event("remade")
                    made[c] = 1
                    live[c] = x
                    x = None
            elif op == "drop":
                live.pop(c, None)
                x = None
                if len(c.__mro__) > 5: gc.collect()
            elif op == "set" and c in live: live[c].w = ("state", rng.randrange(100))
            elif op == "pickle" and c in live: dumps[c] = (pickle.dumps(live[c], rng.randrange(6)), dict(live[c].__dict__))
            elif op == "unpickle" and c in dumps:
                d, st = dumps[c]
                x = pickle.loads(d)
                ctx.event("unpickled")
                ctx.check(type(x) is c, "type of an unpickled singleton")
                if c in live: ctx.check(x is live[c], "unpickling made a second instance")
                ctx.check(all(x.__dict__.get(k) == v for k, v in st.items()), "state of an unpickled singleton", got=x.__dict__, want=st)
                live[c] = x
                x = None
            elif op == "copy" and c in live:
                ctx.check(copy.copy(live[c]) is live[c] and copy.deepcopy(live[c]) is live[c], "copying made a second instance")
            for a in live:
                for b in live:
                    ctx.check((live[a] is live[b]) == (a is b), "instances of different classes are identical")
                ctx.check(type(live[a]) is a, "class of the instance")
    finally:
        for c in classes: delattr(sys.modules[__name__], c.__name__)
    ctx.seen([o for o, _ in hist], len(classes))


@section(quick=400, require={"race": 300, "made": 300, "refused": 300, "switches": 1500})
def singletonraces(ctx, rng):
    S = sched.Sched(rng, p=rng.choice([0.3, 0.6]))
    u = next(UID)
    log, bad = [], []
    def init(self):
        sched.point()
        self.n = getattr(self, "n", 0) + 1
        log.append(id(self))
    C = type(Singleton)(f"R{u}", (Singleton,), {"__init__": init, "__module__": __name__})
    mod = sys.modules[__name__]
    setattr(mod, C.__name__, C)
    try:
        dump = None
        x = C(); dump = pickle.dumps(x); x = None
        log.clear()
        drop = rng.random() < 0.5
        holding, built = [], []
        counts = {"made": 0, "refused": 0}
        def worker(seed):
            r = random.Random(seed)
            for _ in range(r.randrange(1, 4)):
                x = None
                try:
                    if r.random() < 0.6: x = C(); built.append(1)
                    else: x = pickle.loads(dump)
                    counts["made"] += 1
                except TypeError:
                    counts["refused"] += 1
                    continue
                for o in holding:
                    if o is not x: bad.append("two live instances")
                holding.append(x)
                sched.point()
                if drop and r.random() < 0.5:
                    for i, o in enumerate(holding):
                        if o is x: del holding[i]; break
                    o = None
        for _ in range(rng.choice([2, 3, 4])): S.spawn(worker, rng.random())
        S.run()
        ctx.check(not bad, "singleton across threads", bad=bad[:3])
        if not drop: ctx.check(len({id(o) for o in holding}) <= 1, "several instances")
        if not drop: ctx.check(len(built) <= 1, "the constructor succeeded several times while the instance was alive", built=len(built))
        ctx.event("race"); ctx.event("switches", S.switches)
        for k, v in counts.items(): ctx.event(k, v)
        ctx.seen(S.switches, drop, counts)
    finally:
        delattr(mod, C.__name__)
