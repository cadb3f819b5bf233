"""C17: folds, scans and unfolds against their recursive definitions; call traces and consumption are monitored."""
import operator
from fractions import Fraction
from vp.core import section
from vp.gen import scalar, CountIter, as_iterable
from unpythonic import (scanl, scanr, scanl1, scanr1, foldl, foldr, reducel, reducer, rscanl, rscanl1,
                        rfoldl, rreducel, unfold, unfold1, prod, running_minmax, minmax, Values, ll, view, fupdate)

class Boom(Exception): pass

class Fn:
    """A non-commutative, non-associative operation which records every call; may fail at the n-th one."""
    def __init__(self, fail=None):
        self.calls, self.fail = [], fail
    def __call__(self, *args):
        self.calls.append(args)
        if self.fail is not None and len(self.calls) == self.fail: raise Boom()
        return ("f",) + args if depth(args[-1]) < 6 else ("cut", repr(args)[:40], len(repr(args)))

def depth(x):
    n = 0
    while isinstance(x, tuple) and x and x[0] == "f": x = x[-1]; n += 1
    return n

# ---- the textbook definitions -------------------------------------------------------------------
def zips(seqs, longest, fill):
    n = (max if longest else min)(map(len, seqs))
    return [tuple(s[i] if i < len(s) else fill for s in seqs) for i in range(n)]

def ref_scan(f, init, rows):
    acc = init
    out = [acc]
    for r in rows:
        acc = f(*r, acc)
        out.append(acc)
    return out

def run(thunk):
    try: return ("ok", thunk())
    except Boom: return ("boom", None)

def reversible(rng, items):
    k = rng.randrange(8)
    if k == 6 and items: return ll(*items)
    if k == 7: return view(list(items))
    return as_iterable(rng, items)

@section(quick=6000, require={"steps": 7000, "multi": 2000, "longest": 1000, "failed": 300, "empty": 200})
def folds(ctx, rng):
    n = rng.choice([1, 1, 1, 2, 2, 3])
    seqs = [[scalar(rng) for _ in range(rng.choice([0, 1, 2, 3, 5, 8]))] for _ in range(n)]
    init = rng.choice([None, 0, scalar(rng), (), [], False])
    longest = rng.random() < 0.4
    fill = rng.choice([None, "FILL", scalar(rng)])
    which = rng.choice(["scanl", "scanr", "foldl", "foldr", "rscanl", "rfoldl"])
    fail = rng.choice([None] * 5 + [1, 2, 3])
    F = {"scanl": scanl, "scanr": scanr, "foldl": foldl, "foldr": foldr, "rscanl": rscanl, "rfoldl": rfoldl}[which]
    kw = {}
    if longest:
        kw["longest"] = True
        if rng.random() < 0.7: kw["fillvalue"] = fill
        else: fill = None
    ctx.note(which=which, seqs=seqs, init=init, kw=kw, fail=fail)
    if which in ("rscanl", "rfoldl"): rows = zips([s[::-1] for s in seqs], longest, fill)
    else:
        rows = zips(seqs, longest, fill)
        if which in ("scanr", "foldr"): rows = rows[::-1]
    if n == 1: rows = [(x,) for x in (seqs[0] if which in ("scanl", "foldl") else seqs[0][::-1])]
    f, g = Fn(fail), Fn(fail)
    want = run(lambda: ref_scan(f, init, rows))
    if "fold" in which and want[0] == "ok": want = ("ok", want[1][-1])
    its = [reversible(rng, s) for s in seqs]
    if which.endswith("fold") or "fold" in which: got = run(lambda: F(g, init, *its, **kw))
    else: got = run(lambda: list(F(g, init, *its, **kw)))
    ctx.check(g.calls == f.calls, "the function was called differently (arguments, order or number of calls)", got=g.calls[:6], want=f.calls[:6])
    ctx.check(got == want, "result differs from the recursive definition", got=got, want=want)
    ctx.event("steps", len(g.calls))
    if n > 1: ctx.event("multi")
    if longest: ctx.event("longest")
    if got[0] == "boom": ctx.event("failed")
    if not rows: ctx.event("empty")
    ctx.seen(which, n, [len(s) for s in seqs], longest, fail, type(init).__name__)

@section(quick=5000, require={"steps": 5000, "noinit": 1500, "empty": 300})
def reduces(ctx, rng):
    seq = [scalar(rng) for _ in range(rng.choice([0, 1, 2, 3, 6]))]
    which = rng.choice(["scanl1", "scanr1", "reducel", "reducer", "rscanl1", "rreducel"])
    F = {"scanl1": scanl1, "scanr1": scanr1, "reducel": reducel, "reducer": reducer, "rscanl1": rscanl1, "rreducel": rreducel}[which]
    init = rng.choice([None, None, None, 0, False, "", (), "i"])
    fail = rng.choice([None] * 6 + [1, 2])
    ctx.note(which=which, seq=seq, init=init, fail=fail)
    rows = list(seq if which in ("scanl1", "reducel") else seq[::-1])
    f, g = Fn(fail), Fn(fail)
    def ref():
        r = list(rows)
        if init is None:
            if not r: return []
            i = r.pop(0)
        else: i = init
        return ref_scan(f, i, [(x,) for x in r])
    want = run(ref)
    isred = "reduce" in which
    if isred and want[0] == "ok": want = ("ok", want[1][-1] if want[1] else None)
    it = reversible(rng, seq)
    call = (lambda: F(g, it)) if init is None and rng.random() < 0.5 else (lambda: F(g, it, init)) if rng.random() < 0.5 else (lambda: F(g, it, init=init))
    got = run(call if isred else (lambda: list(call())))
    ctx.check(g.calls == f.calls, "the function was called differently", got=g.calls[:6], want=f.calls[:6])
    ctx.check(got == want, "result differs from the recursive definition", got=got, want=want)
    ctx.event("steps", len(g.calls))
    if init is None: ctx.event("noinit")
    if not seq: ctx.event("empty")
    ctx.seen(which, len(seq), init, fail)

@section(quick=2000, require={"lazy": 2000, "pulled": 5000})
def lazy(ctx, rng):
    """Left scans take one row per result, nothing in advance; the function runs once per result taken."""
    n = rng.choice([1, 2, 3])
    its = [CountIter(iter(int, 1)) for _ in range(n)]
    k = rng.randrange(0, 9)
    f = Fn()
    which = rng.choice(["scanl", "scanl1", "minmax"])
    if which == "scanl": g = scanl(f, "init", *its)
    elif which == "scanl1": its = its[:1]; g = scanl1(f, its[0]) if rng.random() < 0.7 else scanl1(f, its[0], "init")
    else: its = its[:1]; g = running_minmax(its[0])
    init = which == "scanl"
    for i in range(1, k + 1):
        next(g)
        for it in its: ctx.check(it.n <= i, "consumed more items than needed", which=which, taken=i, consumed=it.n)
        ctx.check(len(f.calls) <= i, "function called in advance")
    ctx.event("lazy"); ctx.event("pulled", k)
    # a scan resumed after its input has grown sees the later items
    src, out = [1, 2], []
    if which == "scanl":
        g = scanl(f, 0, iter_while(src))
        for j in range(6):
            out.append(next(g)); src.append(j)
        ctx.check(len(out) == 6, "scan of a growing input")
    ctx.seen(which, n, k)

def iter_while(lst):
    i = 0
    while i < len(lst):
        yield lst[i]; i += 1

@section(quick=3000, require={"yielded": 8000, "kwargs": 500, "rejected": 100, "lazycalls": 2000})
def unfolds(ctx, rng):
    kind = rng.randrange(3)
    L = rng.choice([0, 1, 2, 5, 9])
    if kind == 0:
        vals = [(rng.choice([None, False, 0, scalar(rng)]), rng.choice([None, 0, scalar(rng)])) for _ in range(L)]
        calls = []
        def step(s):
            calls.append(s)
            return vals[len(calls) - 1] if len(calls) <= L else None
        if any(v == (None,) for v in vals): return
        init = rng.choice([None, 0, "s"])
        g = unfold1(step, init)
        ctx.check(not calls, "unfold1 is not lazy"); ctx.event("lazycalls")
        out = []
        for i, x in enumerate(g):
            out.append(x)
            ctx.check(len(calls) == i + 1, "called in advance")
        ctx.check(out == [v for v, s in vals], "unfold1 values", got=out, want=vals)
        ctx.check(calls == [init] + [s for v, s in vals], "unfold1 states", got=calls, vals=vals)
        ctx.event("yielded", L)
        ctx.seen("u1", L)
        return
    kws = [rng.choice([{}, {"k": scalar(rng)}, {"k": 1, "m": scalar(rng)}]) for _ in range(L)]
    rets = [tuple(scalar(rng) for _ in range(rng.randrange(0, 4))) for _ in range(L)]
    vals = [rng.choice([None, scalar(rng)]) for _ in range(L)]
    bad = rng.random() < 0.15
    calls = []
    def step(*a, **k):
        i = len(calls)
        calls.append((a, k))
        if i >= L: return (1, 2) if bad else None
        return Values(vals[i], *rets[i], **kws[i])
    i0, k0 = tuple(scalar(rng) for _ in range(rng.randrange(3))), rng.choice([{}, {"z": 1}])
    g = unfold(step, *i0, **k0)
    ctx.check(not calls, "unfold is not lazy"); ctx.event("lazycalls")
    out, err = [], None
    try:
        for x in g: out.append(x)
    except TypeError: err = TypeError
    ctx.check(out == vals, "unfold values", got=out, want=vals)
    ctx.check(calls == [(i0, k0)] + list(zip(rets, kws)), "unfold states", got=calls)
    ctx.check((err is TypeError) == bad, "unfold: a result which is neither None nor Values must be refused", err=err)
    if bad: ctx.event("rejected")
    if any(kws): ctx.event("kwargs")
    ctx.event("yielded", len(out))
    ctx.seen("u", L, bad, kws)

@section(quick=2500, require={"prod": 1000, "minmax": 1000})
def extrema(ctx, rng):
    if rng.random() < 0.5:
        xs = [rng.choice([rng.randrange(-5, 6), Fraction(rng.randrange(-5, 5), rng.randrange(1, 5)), rng.randrange(-3, 3) * 0.5]) for _ in range(rng.randrange(0, 7))]
        st = rng.choice([None, None, 1, 0, 7, Fraction(1, 3)])
        want = 1 if st is None else st
        for x in xs: want = x * want
        got = prod(as_iterable(rng, xs)) if st is None else prod(as_iterable(rng, xs), start=st) if rng.random() < 0.5 else prod(as_iterable(rng, xs), st)
        ctx.same(got, want, "prod", xs=xs, start=st)
        ctx.event("prod")
        ctx.seen("p", len(xs), st)
        return
    kind = rng.randrange(3)
    mk = [lambda: rng.randrange(-50, 50), lambda: rng.choice("abcdxyz") * rng.randrange(1, 3), lambda: (rng.randrange(3), rng.randrange(3))][kind]
    xs = [mk() for _ in range(rng.choice([0, 1, 2, 3, 8]))]
    got = minmax(as_iterable(rng, xs))
    want = (min(xs), max(xs)) if xs else (None, None)
    ctx.same(got, want, "minmax", xs=xs)
    got = list(running_minmax(as_iterable(rng, xs)))
    want = [(min(xs[:i + 1]), max(xs[:i + 1])) for i in range(len(xs))]
    ctx.same(got, want, "running_minmax", xs=xs)
    ctx.event("minmax")
    ctx.seen("mm", kind, len(xs))
