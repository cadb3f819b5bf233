"""C13: arity inspection and binding resolution against real calls of generated functions."""
import builtins as builtins_
import functools
import inspect
import itertools
import operator
import typing
from vp.core import section, short
from vp.gen import Sig, rand_sig, rand_binding_call, equivalent_call, scalar, NAMES
from unpythonic.arity import (arities, arity_includes, required_kwargs, optional_kwargs, kwargs as kwargs_of, resolve_bindings,
                              resolve_bindings_partial, tuplify_bindings, UnknownArity, getfunc)
from unpythonic import generic

UID = itertools.count()


class Arg:
    def __init__(self, i): self.i = i
    def __repr__(self): return f"A{self.i}"


def callables(rng, sig, log):
    """-> (kind, callable): something whose call binds sig"""
    body = lambda b: log.append({k: v for k, v in b.items()}) or "r"
    kind = rng.choice(["function", "lambda", "method", "classmethod", "classmethod-inst", "static", "unbound", "instance", "class", "starself"])
    if kind == "function": return kind, sig.make(body)
    if kind == "lambda":
        ns = {"BODY": body, **{f"DEF_{n}": d[1] for n, d in sig.positional + sig.kwonly if d is not None}}
        d = "{" + ", ".join(f"{n!r}: {n}" for n in sig.names()) + "}"
        return kind, eval(f"lambda {sig.source()}: BODY({d})", ns)
    f = sig.make(body, "m", first="self")
    C = type("C", (), {"m": f, "c": classmethod(sig.make(body, "c", first="cls")), "s": staticmethod(sig.make(body, "s"))})
    if kind == "method": return kind, C().m
    if kind == "classmethod": return kind, C.c
    if kind == "classmethod-inst": return kind, C().c
    if kind == "static": return kind, rng.choice([C, C()]).s
    if kind == "unbound": return kind, functools.partial(C.m, C()) if False else C.m
    if kind == "instance": return kind, type("D", (), {"__call__": f})()
    if kind == "class":
        g = sig.make(lambda b: log.append(dict(b)) and None, "i", first="self")
        return kind, type("E", (), {"__init__": g})
    if kind == "starself":
        return kind, type("F", (), {"m": sig.make(body, "m", first="self=None")})().m if not sig.posonly and all(d for _, d in sig.pos) else sig.make(body)
    raise AssertionError


@section(quick=8000, require={"callable": 20000, "not-callable": 8000, "starself": 100})
def counts(ctx, rng):
    log = []
    sig = rand_sig(rng)
    kind, f = callables(rng, sig, log)
    ctx.note(sig=sig.source(), kind=kind)
    extra = 1 if kind == "unbound" else 0
    a = arities(f)
    ctx.event(kind)
    ctx.check(type(a) is tuple and len(a) == 2, "arities result", got=a)
    ctx.same(a, (sig.min_pos() + extra, sig.max_pos() + extra), "arities")
    req = {n: Arg(n) for n, d in sig.kwonly if d is None}
    for n in range(0, len(sig.positional) + 4):
        args = [Arg(i) for i in range(n)]
        can = True
        del log[:]
        try:
            f(*args, **req)
        except TypeError:
            can = False
        ctx.event("callable" if can else "not-callable")
        ctx.same(arity_includes(f, n), can, "arity_includes disagrees with a real call", n=n)
        ctx.check(len(log) == can, "monitor: call log")
    rk, ok = {n for n, d in sig.kwonly if d is None}, {n for n, d in sig.kwonly if d is not None}
    ctx.same(required_kwargs(f), rk, "required_kwargs")
    ctx.same(optional_kwargs(f), ok, "optional_kwargs")
    ctx.same(kwargs_of(f), (rk, ok), "kwargs")
    ctx.seen(sig.source(), kind)


@section(quick=2500, require={"method": 500})
def generics(ctx, rng):
    uid, sigs = next(UID), []
    asmethod = rng.random() < 0.4
    ns, g = {}, None
    cls = []
    for c in range(rng.randrange(1, 3) if asmethod else 1):
        for _ in range(rng.randrange(1, 4)):
            s = rand_sig(rng, maxpos=3, posonly=False)
            ann = {n: "Any" for n in s.names()}
            f = s.make(lambda b: "r", "m", annots=ann, env={"Any": typing.Any}, first="self" if asmethod else None)
            f.__qualname__, f.__module__ = f"K{uid}_{c}.m", "vpgen13"
            g = generic(f)
            sigs.append(s)
        if asmethod:
            cls.append(type(f"K{uid}_{c}", (cls[-1],) if cls else (object,), {"m": g}))
    f = cls[-1]().m if asmethod else g
    ctx.event("method" if asmethod else "function")
    ctx.note(sigs=[s.source() for s in sigs], method=asmethod)
    ctx.same(arities(f), (min(s.min_pos() for s in sigs), max(s.max_pos() for s in sigs)), "arities of a generic function")
    ctx.same(required_kwargs(f), {n for s in sigs for n, d in s.kwonly if d is None}, "required_kwargs of a generic function")
    ctx.same(optional_kwargs(f), {n for s in sigs for n, d in s.kwonly if d is not None}, "optional_kwargs of a generic function")
    ctx.seen([s.source() for s in sigs], asmethod)


BUILTINS = [(abs, [1]), (len, ["a"]), (ord, ["a"]), (chr, [65]), (hash, [1]), (repr, [1]), (id, [1]), (bin, [3]), (hex, [3]), (callable, [1]),
            (isinstance, [1, int]), (issubclass, [int, int]), (divmod, [5, 3]), (hasattr, [1, "a"]), (pow, [2, 3, 5]), (sum, [[1], 2]), (round, [1.5, 1]),
            (range, [1, 5, 2]), (slice, [1, 5, 2]), (getattr, [1, "real", 0]), (iter, [[1]]), (tuple, [[1]]), (list, [[1]]), (set, [[1]]),
            (frozenset, [[1]]), (dict, [{}]), (enumerate, [[1], 1]), (filter, [None, [1]]), (reversed, [[1]]), (format, [1, ""]), (next, [iter([1, 2, 3, 4]), 1]),
            (all, [[1]]), (any, [[1]]), (ascii, [1]), (oct, [1])] + [
    (getattr(operator, n), [3, 2]) for n in "lt le eq ne ge gt is_ is_not add and_ floordiv lshift mod mul or_ pow rshift sub truediv xor iadd isub imul iand".split()] + [
    (getattr(operator, n), [3]) for n in "not_ truth abs index inv invert neg pos".split()]


BYSIG = [getattr(builtins_, n) for n in """enumerate memoryview object reversed tuple abs all any ascii bin callable chr delattr divmod eval exec format globals hasattr
 hash hex id input isinstance issubclass len list locals oct open ord pow repr round setattr sorted sum __import__""".split()] + [getattr(operator, n) for n in
 """lt le eq ne ge gt not_ truth is_ is_not abs add and_ floordiv index inv invert lshift mod mul matmul neg or_ pos pow rshift sub truediv xor concat contains
 countOf delitem getitem indexOf setitem length_hint attrgetter itemgetter methodcaller iadd iand iconcat ifloordiv ilshift imod imul imatmul ior ipow irshift
 isub itruediv ixor""".split()]
INF = float("inf")
BYTABLE = {filter: (2, 2), map: (1, INF), range: (1, 3), slice: (1, 3), getattr: (2, 3), iter: (1, 2), next: (1, 2), max: (1, INF), min: (1, INF), dir: (0, 1),
           vars: (0, 1), set: (0, 1), frozenset: (0, 1), dict: (0, 1), int: (0, 2), str: (0, 3), bytes: (0, 3), bytearray: (0, 3), zip: (1, INF), classmethod: (1, 1),
           staticmethod: (1, 1), super: (0, 2)}


@section(quick=1, thorough=1, require={"builtin": 100})
def builtintable(ctx, rng):
    """every known builtin against its own signature (or, where it has none, its documentation)"""
    for f in BYSIG:
        lo = hi = 0
        for p in inspect.signature(f).parameters.values():
            if p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD):
                hi += 1
                lo += p.default is p.empty
            elif p.kind == p.VAR_POSITIONAL:
                hi = INF
        ctx.event("builtin")
        ctx.same(arities(f), (lo, hi), "arities of a builtin", f=f)
    for f, want in BYTABLE.items():
        ctx.event("builtin")
        ctx.same(arities(f), want, "arities of a builtin", f=f)


@section(quick=600, require={"builtin": 100, "unknown": 50})
def builtins(ctx, rng):
    f, sample = rng.choice(BUILTINS)
    lo, hi = arities(f)
    for n in range(0, 5):
        args = (sample + [1] * 5)[:n]
        try:
            f(*args)
            can = True
        except TypeError as e:
            can = False if n not in range(len(sample) + 1) or n < lo else None
            if n in range(len(sample) + 1) and lo <= n <= hi:
                can = None  # maybe the value, not the number
        except Exception:
            can = None
        if can is not None and f not in (iter, range, slice, dict, pow):
            ctx.same(arity_includes(f, n), can, "arity of a builtin", f=f, n=n, arities=(lo, hi))
    ctx.event("builtin")
    ctx.seen(f)
    unknown = [x for x in (dict.fromkeys, dict.pop, {}.pop, dict.update, str.maketrans, int.from_bytes, "".startswith, type.__call__) if not insp(x)]
    for x in unknown:
        ctx.event("unknown")
        for q in (arities, required_kwargs, optional_kwargs, kwargs_of):
            try:
                q(x)
                ctx.violate("arity of an uninspectable callable reported as known", f=x)
            except UnknownArity:
                pass
    for x in (1, "s", None):
        try:
            arities(x)
            ctx.violate("arity of a non-callable", f=x)
        except UnknownArity:
            pass


def insp(f):
    try:
        inspect.signature(f)
        return True
    except ValueError:
        return False


@section(quick=12000, require={"ok": 6000, "TypeError": 2000, "equal": 3000, "different": 2000, "partial": 2000})
def bindings(ctx, rng):
    log = []
    sig = rand_sig(rng)
    kind, f = callables(rng, sig, log)
    if kind in ("unbound", "starself"): kind, f = "function", sig.make(lambda b: log.append(dict(b)) or "r")
    args, kw = rand_binding_call(rng, sig)
    args, kw = list(args), dict(kw)
    r = rng.random()
    if r < 0.12 and args: args.pop()
    elif r < 0.24: args.append(scalar(rng))
    elif r < 0.34 and kw: kw.pop(rng.choice(list(kw)))
    elif r < 0.44 and sig.pos: kw[rng.choice(sig.pos)[0]] = scalar(rng)
    elif r < 0.5: kw["zz"] = 1
    if set(kw) & {n for n, _ in sig.posonly}: return
    if {"_partial", "f"} & set(kw) or "f" in [n for n, _ in sig.pos]:
        kw.pop("f", None)
    ctx.note(sig=sig.source(), kind=kind, args=args, kw=kw)
    want = None
    try:
        f(*args, **kw)
        want = log[-1]
    except TypeError:
        pass
    try:
        b = resolve_bindings(f, *args, **kw)
    except TypeError:
        ctx.event("TypeError")
        ctx.check(want is None, "resolve_bindings rejects a valid call")
        try:
            resolve_bindings_partial(f, *args, **kw)
        except TypeError:
            pass
        return
    ctx.event("ok")
    ctx.check(want is not None, "resolve_bindings accepts an invalid call", got=b)
    got = dict(b.arguments)
    ctx.check(list(got) == list(want) or set(got) == set(want), "bound names", got=got, want=want)
    ctx.check(all(got[n] is want[n] or (got[n] == want[n] and type(got[n]) is type(want[n])) for n in want), "bound values", got=got, want=want)
    if sig.varkw: ctx.same(list(got[sig.varkw].items()), list(want[sig.varkw].items()), "**kwargs order")
    before = repr(b)
    key = tuplify_bindings(b)
    ctx.check(repr(b) == before, "tuplify_bindings changed its input")
    hash(key)
    # another call with the same bindings
    a2, k2 = equivalent_call(rng, sig, want)
    key2 = tuplify_bindings(resolve_bindings(f, *a2, **k2))
    ctx.check(key == key2 and hash(key) == hash(key2), "equal bindings, different keys", other=(a2, k2), key=key, key2=key2)
    ctx.event("equal")
    # a call with different bindings
    n = rng.choice(sig.names()) if sig.names() else None
    if n is not None:
        w2 = dict(want)
        if n == sig.varargs: w2[n] = want[n] + (Arg(1),)
        elif n == sig.varkw: w2[n] = {**want[n], "zzz": Arg(1)}
        else: w2[n] = Arg(1)
        a3, k3 = equivalent_call(rng, sig, w2)
        key3 = tuplify_bindings(resolve_bindings(f, *a3, **k3))
        ctx.check(key3 != key, "different bindings, equal keys", other=(a3, k3))
        ctx.event("different")
    # partial bindings: leave some out
    keep = rng.randrange(len(args) + 1)
    pk = {n: v for n, v in kw.items() if rng.random() < 0.6}
    if keep == len(args) or True:
        pa = args[:keep]
        bp = dict(resolve_bindings_partial(f, *pa, **pk).arguments)
        wp = {}
        for i, (n, d) in enumerate(sig.positional):
            if i < len(pa): wp[n] = pa[i]
            elif n in pk: wp[n] = pk[n]
            elif d is not None: wp[n] = d[1]
        if sig.varargs: wp[sig.varargs] = tuple(pa[len(sig.positional):])
        for n, d in sig.kwonly:
            if n in pk: wp[n] = pk[n]
            elif d is not None: wp[n] = d[1]
        if sig.varkw: wp[sig.varkw] = {n: v for n, v in pk.items() if n not in wp}
        ctx.check(bp == wp, "partial bindings", got=bp, want=wp, pa=pa, pk=pk)
        ctx.event("partial")
    ctx.seen(sig.source(), kind, len(args), sorted(kw))


@section(quick=500, require={"kinds": 300})
def funckinds(ctx, rng):
    class A:
        def m(self): pass
        @classmethod
        def c(cls): pass
        @staticmethod
        def s(): pass
        inner = [getfunc(c), getfunc(s)]
    a = A()
    def g(): pass
    for f, raw, kind in ((a.m, A.m, "instancemethod"), (A.m, A.m, "function"), (A.c, A.__dict__["c"].__func__, "classmethod"), (a.c, A.__dict__["c"].__func__, "classmethod"),
                         (a.s, A.__dict__["s"].__func__, "function"), (g, g, "function")):
        ctx.same(getfunc(f), (raw, kind), "getfunc")
    ctx.same([k for _, k in A.inner], ["classmethod", "staticmethod"], "getfunc in a class body")
    ctx.event("kinds")
