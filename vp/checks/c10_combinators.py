"""C10: function combinators: random combinator trees over recording functions, against their definitions."""
import collections
from vp.core import section, outcome
from unpythonic import (flip, rotate, apply, identity, const, notf, andf, orf, composel, composer, composel1, composer1,
                        composeli, composeri, composel1i, composer1i, composelc, composerc, composelci, composerci,
                        tokth, to1st, to2nd, tolast, to, withself, call, callwith, Values, valuify, dyn)
from unpythonic.lazyutil import islazy, maybe_force_args, Lazy


class Tok:
    """A value with identity semantics."""
    def __init__(self, n): self.n = n
    def __repr__(self): return f"T{self.n}"


class MV:
    def __init__(self, rets, kw=None):
        self.rets, self.kw = tuple(rets), dict(kw or {})
    def __eq__(self, o):
        return isinstance(o, MV) and o.rets == self.rets and o.kw == self.kw
    def __hash__(self): return 0
    def __repr__(self): return f"MV{self.rets}{self.kw}"


class NT(collections.namedtuple("NT", "a b")):
    pass


class Boom(Exception):
    pass


class RefErr(Exception):
    def __init__(self, t): self.t = t


def down(x):
    """real value -> model value"""
    if isinstance(x, Values):
        return MV([down(v) for v in x.rets], {k: down(v) for k, v in x.kwrets.items()})
    if type(x) is tuple:
        return tuple(down(v) for v in x)
    return x


LEAVES = ["tag", "tag", "tag", "values", "none", "kw", "truthy", "falsy", "raise", "tuple", "first", "count", "list", "ntuple"]


def leaf(kind, name, args, kwargs, n):
    """the leaf behaviours (model values)"""
    if kind == "tag": return (name, tuple(args), tuple(sorted(kwargs.items())))
    if kind == "values": return MV((name,) + tuple(args)[:3], {k: v for k, v in kwargs.items()})
    if kind == "none": return None
    if kind == "kw": return MV((), {"kx": name, "ky": len(args)})
    if kind == "truthy": return ("yes", name)
    if kind == "falsy": return ()
    if kind == "raise": raise Boom(name)
    if kind == "tuple": return tuple(args)
    if kind == "first": return args[0] if args else None
    if kind == "ntuple": return NT(name, len(args))
    if kind == "count": return n % 2
    if kind == "list": return Ellipsis  # replaced by one fixed list object per leaf


class Node:
    def __init__(self, op, kids=(), **p):
        self.op, self.kids, self.p = op, list(kids), p
    def __repr__(self):
        a = ", ".join([repr(k) for k in self.kids] + [f"{k}={v!r}" for k, v in self.p.items()])
        return f"{self.op}({a})" if self.op != "leaf" else f"{self.p['kind']}:{self.p['name']}"


OPS = ["composel", "composer", "composeli", "composeri", "composel1", "composer1", "composel1i", "composer1i", "flip", "rotate",
       "tokth", "to1st", "to2nd", "tolast", "to", "notf", "andf", "orf", "const", "identity", "valuify", "withself", "applied", "callf", "lambda"]


def gen(rng, depth, ctr):
    if depth <= 0 or rng.random() < 0.1:
        ctr[0] += 1
        return Node("leaf", kind=rng.choice(LEAVES), name=f"f{ctr[0]}", obj=[ctr[0]])
    op = rng.choice(OPS)
    n = rng.choice([1, 1, 2, 2, 3, 4])
    kid = lambda: gen(rng, depth - 1, ctr)
    if op.startswith("compose"): return Node(op, [kid() for _ in range(n)])
    if op in ("andf", "orf"): return Node(op, [kid() for _ in range(rng.randrange(0, 4))])
    if op in ("rotate", "tokth"): return Node(op, [kid()], k=rng.randrange(-3, 4))
    if op == "to": return Node(op, [kid() for _ in range(n)], ks=[rng.randrange(-2, 3) for _ in range(n)])
    if op in ("const",):
        return Node(op, [], args=tuple(Tok(i) for i in range(rng.randrange(0, 3))), kw={"z": Tok("z")} if rng.random() < 0.3 else {})
    if op == "identity": return Node(op)
    if op == "applied": return Node(op, [kid()], frac=rng.randrange(5))
    return Node(op, [kid()])


def build(t, log, ctr):
    """-> real callable"""
    ks = [build(k, log, ctr) for k in t.kids]
    op = t.op
    if op == "leaf":
        kind, name, obj = t.p["kind"], t.p["name"], t.p["obj"]
        def f(*args, **kwargs):
            log.append((name, tuple(down(a) for a in args), {k: down(v) for k, v in kwargs.items()}))
            if kind == "list": return obj
            r = leaf(kind, name, args, kwargs, len(log))
            return Values(*r.rets, **r.kw) if isinstance(r, MV) else r
        f.__name__ = name
        return f
    if op in ("composel", "composer", "composel1", "composer1"): return globals()[op](*ks)
    if op in ("composeli", "composeri", "composel1i", "composer1i"): return globals()[op](iter(ks))
    if op == "flip": return flip(ks[0])
    if op == "rotate": return rotate(t.p["k"])(ks[0])
    if op == "tokth": return tokth(t.p["k"], ks[0])
    if op in ("to1st", "to2nd", "tolast", "notf", "valuify"): return globals()[op](ks[0])
    if op == "to": return to(*zip(t.p["ks"], ks))
    if op in ("andf", "orf"): return globals()[op](*ks)
    if op == "const": return const(*t.p["args"], **t.p["kw"])
    if op == "identity": return identity
    if op == "withself":
        g = ks[0]
        def h(self, *args, **kwargs):
            log.append(("self", self is me))
            return g(*args, **kwargs)
        me = withself(h)
        return me
    if op == "applied":
        g = ks[0]
        def ap(*args, **kwargs):
            cut = (len(args) * t.p["frac"]) // 4
            return apply(g, *args[:cut], iter(args[cut:]), **kwargs)
        return ap
    if op == "callf":
        g = ks[0]
        return lambda *a, **k: callwith(*a, **k)(g) if len(a) % 2 else call(g, *a, **k)
    if op == "lambda":
        g = ks[0]
        return lambda *a, **k: g(*a, **k)
    raise AssertionError(op)


def run(t, args, kwargs, log):
    """the definitions"""
    op, ks = t.op, t.kids
    args = tuple(args)
    if op == "leaf":
        log.append((t.p["name"], args, dict(kwargs)))
        if t.p["kind"] == "list": return t.p["obj"]
        return leaf(t.p["kind"], t.p["name"], args, kwargs, len(log))
    if op.startswith("compose"):
        order = ks if op.startswith("composel") else ks[::-1]
        if op.rstrip("i").endswith("1"):
            if len(ks) > 1 and (len(args) != 1 or kwargs):
                raise RefErr(TypeError)
            r = run(order[0], args, kwargs, log)
            for k in order[1:]:
                r = run(k, (r,), {}, log)
            return r
        r = run(order[0], args, kwargs, log)
        for k in order[1:]:
            r = run(k, r.rets, r.kw, log) if isinstance(r, MV) else run(k, (r,), {}, log)
        return r
    if op == "flip": return run(ks[0], args[::-1], kwargs, log)
    if op == "rotate":
        n, k = len(args), t.p["k"]
        if not n: raise RefErr(TypeError)
        if not -n < k < n: raise RefErr(IndexError)
        # slots are cycled right by k: slot i of the original moves to i+k; incoming argument i lands in the slot now at i
        out = [None] * n
        for i in range(n):
            out[(i - k) % n] = args[i]
        return run(ks[0], out, kwargs, log)
    if op in ("tokth", "to1st", "to2nd", "tolast", "to"):
        specs = {"tokth": lambda: [t.p["k"]], "to1st": lambda: [0], "to2nd": lambda: [1], "tolast": lambda: [-1], "to": lambda: t.p["ks"]}[op]()
        cur, ckw = list(args), dict(kwargs)
        for k, f in zip(specs, ks):
            n = len(cur)
            if not n: raise RefErr(TypeError)
            if not -n <= k < n: raise RefErr(IndexError)
            cur[k] = run(f, (cur[k],), {}, log)
        return MV(cur, ckw)
    if op == "notf": return not run(ks[0], args, kwargs, log)
    if op == "andf":
        r = True
        for k in ks:
            r = run(k, args, kwargs, log)
            if not r: return False
        return r
    if op == "orf":
        for k in ks:
            r = run(k, args, kwargs, log)
            if r: return r
        return False
    if op in ("const", "identity"):
        a, kw = (t.p["args"], t.p["kw"]) if op == "const" else (args, kwargs)
        if not a and not kw: return None
        return MV(a, kw) if kw or len(a) > 1 else a[0]
    if op == "valuify":
        r = run(ks[0], args, kwargs, log)
        return MV(r) if type(r) is tuple else r
    if op == "withself":
        log.append(("self", True))
        return run(ks[0], args, kwargs, log)
    if op in ("applied", "callf", "lambda"):
        return run(ks[0], args, kwargs, log)
    raise AssertionError(op)


def attempt(f):
    try:
        return ("ok", f())
    except Boom as e:
        return ("boom", e.args)
    except RefErr as e:
        return ("err", e.t)
    except (TypeError, IndexError) as e:
        return ("err", type(e))


@section(quick=14000, require={"ok": 6000, "boom": 300, "err": 700, "again": 6000})
def trees(ctx, rng):
    t = gen(rng, rng.randrange(1, 4), [0])
    rlog, mlog = [], []
    f = build(t, rlog, [0])
    for rep in range(2):  # the second call: the combinators keep no state
        args = tuple(Tok(i) if rng.random() < 0.8 else (Tok(i), i) for i in range(rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 6])))
        kwargs = {k: Tok(k) for k in rng.sample(["kx", "kz", "self"], rng.choice([0, 0, 1, 2]))} if "withself" not in repr(t) else {}
        kwargs.pop("self", None)
        kwargs = kwargs if rng.random() < 0.5 else {}
        ctx.note(tree=t, args=args, kwargs=kwargs)
        got = attempt(lambda: down(f(*args, **kwargs)))
        want = attempt(lambda: run(t, args, kwargs, mlog))
        ctx.same(rlog, mlog, "calls differ from the definition")
        ctx.same(got, want, "result differs from the definition")
        ctx.event(got[0])
        ctx.event("again", rep)
    ctx.seen(repr(t), len(args), sorted(kwargs))


@section(quick=4000, require={"passthrough": 1500, "leftover": 500, "named": 500})
def currying(ctx, rng):
    """composelc/composerc: surplus arguments pass through on the right to the next function"""
    n = rng.randrange(1, 5)
    fs = []
    log, mlog = [], []
    for i in range(n):
        arity = rng.randrange(1, 4)
        kws = [f"n{i}"] if rng.random() < 0.2 else []
        nret = rng.choice([1, 1, 1, 2, 3])
        kret = rng.random() < 0.15
        fs.append((i, arity, kws, nret, kret))
    def mk(i, arity, kws, nret, kret):
        ps = ", ".join([f"a{j}" for j in range(arity)] + (["*"] + kws if kws else []))
        ns = {}
        vals = ", ".join([f"a{j}" for j in range(arity)])
        exec(f"def f{i}({ps}):\n    return BODY(({vals},), dict({', '.join(k + '=' + k for k in kws)}))", {"BODY": lambda a, k: body(i, a, k)}, ns)
        return ns[f"f{i}"]
    def body(i, a, k):
        log.append((i, a, k))
        _, arity, kws, nret, kret = fs[i]
        if nret == 1 and not kret: return ("r", i) + a
        return Values(*[("r", i, j) + a[:1] for j in range(nret)], **({f"n{i + 1}": ("kr", i)} if kret else {}))
    reals = [mk(*f) for f in fs]
    # initial arguments
    a = [Tok(j) for j in range(rng.randrange(1, 7))]
    kw = {}
    for i, arity, kws, nret, kret in fs:
        for k in kws:
            kw[k] = Tok(k)
    cur, ckw = tuple(a), dict(kw)
    ok = True
    lastx, lastk = (), {}
    for i, arity, kws, nret, kret in fs:
        if len(cur) < arity or any(k not in ckw for k in kws):
            ok = False
            break
        used = {k: ckw[k] for k in kws}
        mlog.append((i, cur[:arity], used))
        rets = [("r", i) + cur[:arity]] if nret == 1 and not kret else [("r", i, j) + cur[:1] for j in range(nret)]
        xa = cur[arity:]
        xk = {k: v for k, v in ckw.items() if k not in kws}
        lastx, lastk = xa, xk
        if xa or xk: ctx.event("passthrough")
        own = {f"n{i + 1}": ("kr", i)} if kret else {}
        if set(own) & set(xk):
            ok = False
            break
        cur, ckw = tuple(rets) + xa, {**xk, **own}
    if not ok:
        ctx.event("out-of-domain")
        return
    if kw: ctx.event("named")
    form = rng.choice(["l", "r", "li", "ri"])
    comp = {"l": lambda: composelc(*reals), "r": lambda: composerc(*reals[::-1]),
            "li": lambda: composelci(iter(reals)), "ri": lambda: composerci(reals[::-1])}[form]()
    ctx.note(fs=fs, form=form, a=a, kw=kw)
    inctx = rng.random() < 0.4
    def go():
        if inctx:
            with dyn.let(curry_context=["outer"]):
                return comp(*a, **kw)
        return comp(*a, **kw)
    if (lastx or lastk) and not inctx:
        ctx.event("leftover")
        got = attempt(go)
        ctx.same(got, ("err", TypeError), "surplus arguments at the top level")
        ctx.same(log, mlog, "calls")
    else:
        r = go()
        ctx.same(log, mlog, "calls of the curried composition")
        want = cur[0] if len(cur) == 1 and not ckw else MV(cur, ckw)
        ctx.same(down(r), want, "result of the curried composition")
    ctx.seen(fs, form, len(a), inctx)


@section(quick=2500, require={"eq": 200})
def values(ctx, rng):
    """Values: positional and named part"""
    a = tuple(rng.choice([1, "x", (1, 2), None, 2.5, "p", "q", "nope"]) for _ in range(rng.randrange(4)))
    k = {n: rng.randrange(5) for n in rng.sample(["p", "q", "rets", "kwrets", "ret"], rng.randrange(3))}
    v = Values(*a, **k)
    ctx.same(v.rets, a, "rets")
    ctx.check(dict(v.kwrets) == k, "kwrets")
    ctx.same(attempt(lambda: v.ret), attempt(lambda: a[0]), "ret")
    for i in range(-4, 5):
        ctx.same(attempt(lambda: v[i]), attempt(lambda: a[i]), "int subscript")
    s = slice(*[rng.choice([None, -2, -1, 0, 1, 2]) for _ in range(2)])
    ctx.same(v[s], a[s], "slice subscript")
    for n in ["p", "q", "rets", "nope"]:
        ctx.same(n in v, n in k, "in")
        ctx.same(v.get(n, 7), k.get(n, 7), "get")
        try:
            r = v[n]
        except KeyError:
            r = KeyError
        ctx.same(r, k.get(n, KeyError), "named subscript")
    ctx.check(list(v.keys()) == list(k) and list(v.values()) == list(k.values()) and list(v.items()) == list(k.items()), "named views")
    try:
        it = list(v)
        ctx.check(not k and tuple(it) == a, "iteration")
    except ValueError:
        ctx.check(bool(k), "iteration refused without named values")
    try:
        v[1.5]
        ctx.violate("bad subscript accepted")
    except TypeError:
        pass
    a2 = a if rng.random() < 0.5 else a[:-1]
    k2 = dict(k) if rng.random() < 0.5 else {**k, "p": 99}
    w = Values(*a2, **k2)
    eq = a == a2 and k == k2
    ctx.event("eq", eq)
    ctx.check((v == w) is eq and (v != w) is (not eq), "equality", v=v, w=w)
    ctx.check(not (v == a) and v != a, "a Values is not a tuple")
    ctx.check(eval(repr(v)) == v, "repr")
    ctx.seen(len(a), sorted(k))


@section(quick=1500, require={"builtin": 100})
def marks(ctx, rng):
    """combinators leave the functions they wrap alone; wrappers keep metadata"""
    log = []
    def f(*a, **k):
        """doc"""
        log.append((a, k))
        return a[0] if a else None
    d0 = dict(vars(f))
    ops = [composel, composer, composel1, composer1, flip, rotate(0), lambda g: tokth(0, g), to1st, tolast, lambda g: to((0, g)), notf, andf, orf, valuify]
    op = rng.choice(ops)
    if rng.random() < 0.2:
        ctx.event("builtin")
        g = op(abs)
        x = Tok(0)
        r = g(-3)
        ctx.check(r in (3, Values(3), False) , "combinator over a builtin", got=r)
        return
    before = islazy(f)
    g = op(f)
    ctx.check(vars(f) == d0 and islazy(f) is before and not log, "combinator changed the function it wraps", op=op, now=vars(f))
    if op in (flip, valuify):
        ctx.check(g.__name__ == "f" and g.__doc__ == "doc" and g.__wrapped__ is f, "metadata of the wrapped function")
    # strict functions receive forced values, lazy-marked ones receive promises
    n = []
    p = Lazy(lambda: n.append(1) or 42)
    maybe_force_args(g, p)
    ctx.check(log and log[-1] == ((42,), {}), "a strict function received a promise", log=log)
    ctx.seen(ops.index(op))

@section(quick=400, thorough=8000, deadline=30, require={"calls": 800})
def marked(ctx, rng):
    """flip, rotate of curried and trampolined functions: still reorder, whether called in steps or as the target of a tail call."""
    from unpythonic import curry, trampolined, jump
    n = rng.randrange(2, 6)
    base = eval(f"lambda {', '.join('abcdef'[:n])}: ({', '.join('abcdef'[:n])},)")
    order = list(range(n))                                   # order[i]: which argument goes to parameter i
    f, tr = base, rng.random() < 0.5
    f = trampolined(f) if tr else curry(f)
    ops = []
    for _ in range(rng.randrange(1, 4)):
        op = rng.choice(["flip", "rotate", "mark"])
        ops.append(op)
        if op == "flip": f = flip(f); order = [n - 1 - i for i in order]
        elif op == "rotate":
            k = rng.randrange(-n + 1, n); f = rotate(k)(f); ops.append(k)
            perm = list(range(n)); j = -k % n; perm = perm[-j:] + perm[:-j]
            order = [perm[i] for i in order]
        else: f = trampolined(f) if rng.random() < 0.3 and not tr else curry(f)
    args = [rng.randrange(100) for _ in range(n)]
    want = tuple(args[i] for i in order)
    ctx.note(n=n, ops=ops, tramp=tr, args=args)
    ctx.check(outcome(f, *args) == ("ok", want), "wrong argument order", got=outcome(f, *args), want=want)
    g, rest = curry(f), list(args)
    def steps():
        v, r = g, list(rest)
        while r:
            m = rng.randrange(1, len(r) + 1)
            v = v(*r[:m]); del r[:m]
        return v
    got = outcome(steps)
    ctx.check(got == ("ok", want), "wrong argument order when called in steps", got=got, want=want)
    if tr:
        got = outcome(trampolined(lambda: jump(f, *args)))
        ctx.check(got == ("ok", want), "wrong argument order in a tail call", got=got, want=want)
    ctx.event("calls", 2); ctx.seen(n, tuple(map(str, ops)), tr)
