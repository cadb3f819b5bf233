"""C15: box family, frozendict, Shim and mogrify against plain reference models."""
import array
import collections
import copy
import pickle
from collections.abc import Mapping, MutableMapping, Hashable
from vp import sched
sched.install()
from vp.core import section, short
from vp.gen import scalar
from unpythonic import (box, ThreadLocalBox, Some, unbox, Shim, frozendict, mogrify, cons, ll, nil, llist, view, roview, Values, fupdate)
from unpythonic.env import env
from unpythonic.collections import get_abcs


def err(f):
    try:
        f()
    except Exception as e:
        return type(e).__name__
    return None


class FD(frozendict): pass


def rdict(rng, n=5):
    return {rng.choice(["a", "b", "c", 1, 2, (1, 2), None, "d e"]): rng.choice([scalar(rng), [rng.randrange(9)]]) for _ in range(rng.randrange(n))}


@section(quick=3000, require={"frozendict": 1500, "hash": 400, "pickle": 1500, "immutable": 1500, "empty": 100})
def frozendicts(ctx, rng):
    ms = [rdict(rng) for _ in range(rng.choice([0, 1, 1, 1, 2, 3]))]
    kw = {k: scalar(rng) for k in rng.sample(["a", "b", "k1", "k2"], rng.choice([0, 0, 1, 2]))}
    cls = rng.choice([frozendict, frozendict, FD])
    model = {}
    for m in ms: model.update(m)
    model.update(kw)
    pres = []
    for m in ms:
        pres.append(rng.choice([dict, lambda q: list(q.items()), lambda q: iter(list(q.items())), frozendict, collections.OrderedDict, collections.UserDict])(m))
    ctx.note(inputs=ms, kw=kw, kinds=[type(p).__name__ for p in pres])
    fd = cls(*pres, **kw)
    ctx.event("frozendict")
    ctx.check(type(fd) is cls, "type", got=type(fd))
    if not ms and not kw:
        ctx.event("empty")
        if cls is frozendict: ctx.check(fd is frozendict(), "the empty frozendict is a singleton")
    def look(x, what):
        ctx.same(list(x.items()), list(model.items()), what + ": items")
        ctx.same(list(x.keys()), list(model), what + ": keys")
        ctx.same(list(x.values()), list(model.values()), what + ": values")
        ctx.same(list(x), list(model), what + ": iteration")
        ctx.same(len(x), len(model), what + ": len")
        ctx.same(bool(x), bool(model), what + ": truth")
        for k in ("a", "b", 1, (1, 2), "nope", None):
            ctx.same(k in x, k in model, what + ": membership", k=k)
            ctx.same(x.get(k), model.get(k), what + ": get", k=k)
            ctx.same(x.get(k, 77), model.get(k, 77), what + ": get with default", k=k)
            try:
                v = x[k]
            except KeyError:
                ctx.check(k not in model, what + ": KeyError", k=k)
            else:
                ctx.check(k in model and v is model[k], what + ": item", k=k, got=v)
        ctx.check(x == model and model == x and not x != model, what + ": equality with the dict")
        ctx.check(x == frozendict(model), what + ": equality with another frozendict")
        m2 = {**model, "other": 1}
        ctx.check(x != m2 and x != frozendict(m2) and not x == m2, what + ": inequality")
        ctx.check(isinstance(x, Mapping) and not isinstance(x, MutableMapping) and isinstance(x, Hashable), what + ": abcs")
        ctx.same(repr(x), f"frozendict({model!r})", what + ": repr")
    look(fd, "frozendict")
    # independent of the inputs
    for p in pres:
        if isinstance(p, MutableMapping): p["late"] = 1; p.pop("a", None)
        elif isinstance(p, list): p.clear()
    look(fd, "after the inputs changed")
    # immutable
    for name in ("__setitem__", "__delitem__", "update", "pop", "popitem", "clear", "setdefault"):
        ctx.check(not hasattr(fd, name), "a frozendict has a writing method", name=name)
    def setit(): fd["q"] = 1
    def delit(): del fd["a"]
    ctx.same(err(setit), "TypeError", "assignment")
    ctx.same(err(delit), "TypeError", "deletion")
    ctx.event("immutable")
    look(fd, "after attempts to write")
    try:
        want = hash(frozenset(model.items()))
    except TypeError:
        ctx.same(err(lambda: hash(fd)), "TypeError", "hash with unhashable values")
    else:
        ctx.event("hash")
        shuffled = list(model.items())
        rng.shuffle(shuffled)
        o = frozendict(shuffled)
        ctx.check(fd == o and hash(fd) == hash(o), "equal frozendicts hash differently")
        ctx.check(hash(fd) == hash(fd), "hash is stable")
        ctx.same({fd: 5}[o], 5, "as a dict key")
    for proto in range(2, 6):
        r = pickle.loads(pickle.dumps(fd, proto))
        ctx.check(type(r) is cls and r == model and list(r.items()) == list(model.items()), "pickle round trip", got=r, proto=proto)
        if fd is frozendict(): ctx.check(r is fd, "pickled empty frozendict")
    ctx.event("pickle")
    for r in (copy.copy(fd), copy.deepcopy(fd)):
        ctx.check(type(r) is cls and r == model, "copy", got=r)
    u = {"a": 1, "zz": 2}
    ctx.same(dict(cls(fd, **u)), {**model, **u}, "functional update")
    look(fd, "after a functional update")
    ctx.check(frozendict() == {} and len(frozendict()) == 0, "the empty frozendict has become nonempty")
    ctx.seen(cls, [sorted(map(str, m)) for m in ms], sorted(kw), [type(p) for p in pres])


class Eq:
    def __init__(self, i): self.i = i
    def __eq__(self, o): return isinstance(o, Eq) and o.i == self.i
    def __repr__(self): return f"Eq{self.i}"


@section(quick=3000, require={"set": 3000, "some": 500})
def boxes(ctx, rng):
    vals = [Eq(0), Eq(1), None, 0, [], [1], "x", box(3), Some(4), (), float("nan")]
    cls = rng.choice([box, ThreadLocalBox, Some])
    noarg = rng.random() < 0.1
    cur = None if noarg else rng.choice(vals)
    default = cur
    b = cls() if noarg else cls(cur)
    isset = False
    hist = []
    ctx.note(cls=cls.__name__, first=cur, history=hist)
    for _ in range(rng.randrange(1, 9)):
        if cls is Some:
            ctx.event("some")
            ctx.check(not hasattr(b, "set"), "Some is immutable")
            ctx.same(err(lambda: b << 5), "TypeError", "<< on Some")
        else:
            op = rng.choice(["set", "<<", "default", "clear"]) if cls is ThreadLocalBox else rng.choice(["set", "<<"])
            x = rng.choice(vals)
            hist.append((op, x))
            if op in ("set", "<<"):
                r = b.set(x) if op == "set" else b << x
                ctx.check(r is x, "result of set", got=r)
                cur, isset = x, True
                ctx.event("set")
            elif op == "default":
                b.setdefault(x); default = x
                if not isset: cur = x
            else:
                b.clear(); isset = False; cur = default
        ctx.check(b.get() is cur and unbox(b) is cur, "contents", got=b.get(), want=cur)
        if cls is ThreadLocalBox: ctx.check(b.getdefault() is default, "default", got=b.getdefault())
        ctx.same(len(b), 1, "len")
        it = list(b)
        ctx.check(len(it) == 1 and it[0] is cur, "iteration", got=it)
        for v in vals:
            e = (cur == v)
            ctx.same(bool(v in b), bool(e), "membership", v=v)
            ctx.same(bool(b == v), bool(e), "equality with an item", v=v)
            ctx.same(bool(b == box(v)), bool(e), "equality with a box", v=v)
            ctx.same(bool(b != v), not e, "inequality", v=v)
    ctx.same(err(lambda: hash(b)), "TypeError", "boxes are not hashable")
    for bad in (5, [1], None, "box"):
        ctx.same(err(lambda: unbox(bad)), "TypeError", "unbox of something else")
    ctx.same(repr(b), f"{cls.__name__}({cur!r})", "repr")
    ctx.seen(cls, hist)


@section(quick=250, require={"read": 3000, "switches": 1000})
def tlboxes(ctx, rng):
    """ThreadLocalBox and Shim over it, in several threads under the scheduler"""
    S = sched.Sched(rng, p=0.3)
    class T:
        def __init__(self, i): self.i = i; self.name = f"t{i}"
    objs = [T(i) for i in range(6)]
    b = ThreadLocalBox(objs[0])
    sh = Shim(b)
    state = {"default": objs[0]}
    bad = []
    nreads = [0]
    def worker(wid, seed):
        import random
        r = random.Random(seed)
        cur = None
        for _ in range(8):
            k = r.randrange(5)
            if k == 0: cur = r.choice(objs); b << cur
            elif k == 1: b.clear(); cur = None
            elif k == 2 and wid == 0: state["default"] = None; x = r.choice(objs); b.setdefault(x); state["default"] = x
            for _ in range(2):
                d0 = state["default"]
                got, viash = b.get(), None
                viash = sh.i
                d1 = state["default"]
                nreads[0] += 1
                if cur is not None:
                    if got is not cur or viash != cur.i or len(b) != 1 or unbox(b) is not cur: bad.append((wid, got.i, cur.i))
                elif d0 is d1 and d0 is not None and wid == 0:
                    if got is not d0 or viash != d0.i: bad.append((wid, "default", got.i, d0.i))
    for w in range(rng.choice([2, 3, 4])):
        S.spawn(worker, w, rng.random())
    S.run()
    ctx.check(not bad, "a thread saw contents it did not set", bad=bad[:3])
    ctx.event("read", nreads[0])
    ctx.event("switches", S.switches)
    ctx.seen(nreads[0], S.switches)


class Falsy:
    def __init__(self, **kw): self.__dict__.update(kw)
    def __bool__(self): return False
class Plain:
    def __init__(self, **kw): self.__dict__.update(kw)


@section(quick=2500, require={"read": 8000, "write": 1500, "fallback": 800, "missing": 800, "chain": 200})
def shims(ctx, rng):
    names = list("abcd")
    def obj():
        c = rng.choice([Plain, Plain, Falsy])
        return c(**{n: ("v", rng.randrange(1000)) for n in rng.sample(names, rng.randrange(4))})
    prim = box(obj()) if rng.random() < 0.7 else ThreadLocalBox(obj())
    fb = None
    kind = rng.randrange(4)
    if kind == 1: fb = obj()
    elif kind == 2: fb = rng.choice([box, ThreadLocalBox])(obj())
    elif kind == 3:
        ctx.event("chain")
        mid, last = box(obj()), box(obj())
        fb = Shim(mid, last)
    sh = Shim(prim) if fb is None else Shim(prim, fb)
    def targets():
        out = [unbox(prim)]
        if kind == 1: out.append(fb)
        elif kind == 2: out.append(unbox(fb))
        elif kind == 3: out += [unbox(mid), unbox(last)]
        return out
    for _ in range(rng.randrange(3, 12)):
        op = rng.randrange(6)
        if op == 0: prim << obj()
        elif op == 1 and kind in (2, 3): (fb if kind == 2 else rng.choice([mid, last])) << obj()
        elif op == 2:
            n, v = rng.choice(names), ("w", rng.randrange(1000))
            others = [dict(t.__dict__) for t in targets()[1:]]
            setattr(sh, n, v)
            ctx.check(unbox(prim).__dict__.get(n) is v, "write goes to the primary object")
            ctx.check([t.__dict__ for t in targets()[1:]] == others, "write reached a fallback")
            ctx.event("write")
        n = rng.choice(names + ["zz"])
        ts = targets()
        want = next((t.__dict__[n] for t in ts if n in t.__dict__), None)
        ctx.event("read")
        try:
            got = getattr(sh, n)
        except AttributeError:
            ctx.event("missing")
            ctx.check(want is None, "AttributeError though some target has it", n=n, targets=[t.__dict__ for t in ts])
        else:
            if n not in ts[0].__dict__: ctx.event("fallback")
            ctx.check(got is want, "attribute read", n=n, got=got, want=want)
        ctx.same(hasattr(sh, n), want is not None, "hasattr")
    ctx.same(err(lambda: Shim(5)), "TypeError", "Shim of something not boxed")
    ctx.seen(kind, type(prim), [sorted(t.__dict__) for t in targets()])


# -- mogrify ---------------------------------------------------------------------------------
NT = collections.namedtuple("NT", "p q")


class Atom:
    """identity-comparable leaf"""
    def __init__(self, i): self.i = i
    def __repr__(self): return f"A{self.i}"


class Mapped:
    def __init__(self, a): self.a = a
    def __repr__(self): return f"M({self.a!r})"
    def __eq__(self, o): return isinstance(o, Mapped) and (o.a is self.a or o.a == self.a)
    def __hash__(self): return hash(("M", self.a))


def grow(rng, depth, leaves, hashable=False):
    """-> (container, model) where model describes what mogrify must produce: a function () -> checker
    Returns (obj, check) with check(result) -> error string or None."""
    r = rng.random()
    if depth == 0 or r < 0.15:
        k = rng.randrange(7)
        x = [lambda: Atom(len(leaves)), lambda: ("s" * rng.randrange(3)), lambda: bytes([1, 2]), lambda: range(3), lambda: rng.randrange(100), lambda: None,
             lambda: frozendict if False else 2.5][k]()
        leaves.append(x)
        return x, (lambda y: None if isinstance(y, Mapped) and y.a is x else f"leaf {x!r} -> {y!r}")
    kinds = ["tuple", "nt", "frozenset", "fd", "cons", "ll", "some"] if hashable else [
        "list", "list", "tuple", "tuple", "dict", "dict", "set", "frozenset", "deque", "nt", "box", "tlbox", "some", "cons", "ll", "fd", "values", "view", "roview",
        "odict", "defaultdict", "userlist", "userdict"]
    if hashable: kinds = ["tuple", "nt", "frozenset"]
    kind = rng.choice(kinds)
    n = rng.randrange(0, 4)
    sub = lambda h=hashable: grow(rng, depth - 1, leaves, h)
    if kind == "nt": n = 2
    if kind in ("box", "tlbox", "some"):
        a, c = sub()
        o = {"box": box, "tlbox": ThreadLocalBox, "some": Some}[kind](a)
        def chk(y, o=o, c=c):
            if type(y) is not type(o): return f"{kind}: type {type(y)}"
            if kind != "some" and y is not o: return f"{kind}: not updated in place"
            return c(y.get())
        return o, chk
    if kind in ("cons",):
        a, c = sub(); b, d = sub()
        o = cons(a, b)
        return o, (lambda y: (f"cons -> {type(y)}" if type(y) is not cons else c(y.car) or d(y.cdr)))
    if kind in ("set", "frozenset"):
        xs = [grow(rng, min(depth - 1, 1), leaves, True) for _ in range(n)]
        xs = [(a, c) for i, (a, c) in enumerate(xs) if all(not (a == b[0]) for b in xs[:i])]
        o = (set if kind == "set" else frozenset)(a for a, _ in xs)
        def chk(y, o=o, xs=xs):
            if type(y) is not type(o): return f"{kind}: type {type(y)}"
            if kind == "set" and y is not o: return "set: not updated in place"
            if len(y) != len(xs): return f"{kind}: size {y!r}"
            for a, c in xs:
                if all(c(z) is not None for z in y): return f"{kind}: image of {a!r} missing in {y!r}"
        return o, chk
    if kind in ("dict", "fd", "odict", "defaultdict", "userdict"):
        ks = rng.sample(["a", "b", 1, (2, 3), None], n)
        xs = [sub() for _ in ks]
        d = {k: a for k, (a, _) in zip(ks, xs)}
        o = {"dict": dict, "fd": frozendict, "odict": collections.OrderedDict, "userdict": collections.UserDict, "defaultdict": lambda q: collections.defaultdict(list, q)}[kind](d)
        def chk(y, o=o, ks=ks, xs=xs):
            if type(y) is not type(o): return f"{kind}: type {type(y)}"
            if kind != "fd" and y is not o: return f"{kind}: not updated in place"
            if list(y) != ks: return f"{kind}: keys {list(y)}"
            for k, (_, c) in zip(ks, xs):
                e = c(y[k])
                if e: return e
        return o, chk
    if kind == "values":
        xs = [sub() for _ in range(n)]
        kx = {k: sub() for k in rng.sample(["k1", "k2"], rng.randrange(3))}
        o = Values(*(a for a, _ in xs), **{k: a for k, (a, _) in kx.items()})
        def chk(y):
            if type(y) is not Values: return f"Values -> {type(y)}"
            if len(y.rets) != len(xs) or list(y.kwrets) != list(kx): return f"Values shape {y!r}"
            for z, (_, c) in zip(y.rets, xs):
                e = c(z)
                if e: return e
            for k in kx:
                e = kx[k][1](y.kwrets[k])
                if e: return e
        return o, chk
    xs = [sub() for _ in range(n)]
    items = [a for a, _ in xs]
    under = None
    if kind == "view":
        pad = [Atom("pad"), Atom("pad")]
        under = pad[:1] + items + pad[1:]
        o = view(under)[1:n + 1]
    elif kind == "roview":
        ct = rng.choice([list, tuple])
        under = ct([Atom("pad")] + items)
        o = roview(under)[1:]
    elif kind == "ll": o = ll(*items)
    elif kind == "nt": o = NT(*items)
    else: o = {"list": list, "tuple": tuple, "deque": collections.deque, "userlist": collections.UserList}[kind](items)
    def chk(y, o=o, xs=xs, items=items):
        if kind == "roview":
            if type(y) not in (type(under), roview): return f"roview -> {type(y)}"
            if list(under[1:]) != items and not any(isinstance(q, (list, dict, set)) for q in items) and not all(a is b for a, b in zip(under[1:], items)): return "roview: original changed"
        elif kind == "ll":
            if not (y is nil or type(y) is cons): return f"ll -> {type(y)}"
        elif type(y) is not type(o): return f"{kind}: type {type(y)}"
        if kind in ("list", "deque", "userlist", "view") and y is not o: return f"{kind}: not updated in place"
        if kind == "view" and (len(under) != n + 2 or under[0] is not pad[0] or under[-1] is not pad[1]): return f"view: underlying {under}"
        ys = list(y)
        if len(ys) != n: return f"{kind}: length {len(ys)}"
        for z, (_, c) in zip(ys, xs):
            e = c(z)
            if e: return e
    return o, chk


@section(quick=3000, require={"leaf": 3000, "container": 2000})
def mogrified(ctx, rng):
    leaves = []
    o, chk = grow(rng, rng.choice([1, 2, 3, 4]), leaves)
    ctx.note(container=short(o))
    calls = []
    def f(x):
        calls.append(x)
        return Mapped(x)
    y = mogrify(f, o)
    e = chk(y)
    ctx.check(e is None, f"mogrify: {e}", got=y)
    ctx.event("container")
    ctx.event("leaf", len(leaves))
    ctx.check(len([x for x in calls if not isinstance(x, Mapped)]) == len(calls), "mogrify applied the function to a result")
    ctx.check(len(calls) <= len(leaves), "mogrify called the function more than once per leaf", calls=len(calls), leaves=len(leaves))
    ctx.seen(short(o))


@section(quick=1500, require={"same": 1000})
def unmoved(ctx, rng):
    """atoms that are containers by ABC but must not be opened; mappings with their own rules"""
    e = env(x=1, y=[1])
    for x in (e, "abc", b"abc", range(4), memoryview(b"xyz"), nil):
        calls = []
        y = mogrify(lambda q: calls.append(q) or q, x)
        ctx.check(y is x, "an atom is passed through", x=x, got=y)
        ctx.check(x is nil or (len(calls) == 1 and calls[0] is x), "function applied to the atom itself", x=x)
    # identity function: everything looks the same afterwards
    leaves = []
    o, _ = grow(rng, rng.choice([1, 2, 3]), leaves)
    before = short(o, 3000)
    y = mogrify(lambda q: q, o)
    if "{" not in before and "set" not in before and "roview" not in before: ctx.same(short(y, 3000), before, "mogrify with the identity function changed something")
    d = {k: rng.randrange(3) for k in rng.sample("abcdef", rng.randrange(1, 6))}
    ctx.same(sorted(mogrify(lambda q: q, d.values())), sorted(d.values()), "dict values through mogrify")
    ctx.same(list(mogrify(lambda q: q, d.items())), list(d.items()), "dict items through mogrify")
    ctx.same(mogrify(lambda q: q * 2, d.keys()), {k * 2 for k in d}, "dict keys through mogrify")
    ctx.same(mogrify(lambda q: q * 2, d.items()), {(k * 2, v * 2) for k, v in d.items()}, "dict items through mogrify")
    a = array.array("i", [1, 2, 3]); b = bytearray(b"\x01\x02")
    ctx.check(mogrify(lambda q: q + 1, a) is a and list(a) == [2, 3, 4], "array")
    ctx.check(mogrify(lambda q: q + 1, b) is b and list(b) == [2, 3], "bytearray")
    ctx.event("same")
    want = {c.__name__ for c in vars(collections.abc).values() if isinstance(c, type) and issubclass(dict, c)}
    ctx.same({c.__name__ for c in get_abcs(dict)}, want, "get_abcs")
