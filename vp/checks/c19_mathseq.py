"""C19: mathematical sequences: s(...) against closed forms; termwise stream arithmetic against plain Python operators."""
import itertools
import math
import operator
import random
from fractions import Fraction
from vp.core import section, outcome
from vp.gen import CountIter
import unpythonic.mathseq as ms
from unpythonic import (s, imathify, gmathify, take, cauchyprod, diagonal_reduce, fibonacci, triangular, primes, smul, sadd, imemoize)

def close(a, b):
    if type(a) is bool or isinstance(a, (str, type(None))): return a is b or a == b
    try: return a == b or abs(a - b) <= 1e-7 * max(abs(a), abs(b))
    except TypeError: return a == b

def closeall(xs, ys): return len(xs) == len(ys) and all(close(a, b) for a, b in zip(xs, ys))

def num(rng, kind):
    if kind == "int": return rng.choice([1, 2, 3, 5, 7, 10, -1, -2, -3, -4, -6, 0, rng.randrange(-40, 40)])
    if kind == "frac": return Fraction(rng.randrange(-9, 10), rng.randrange(1, 7))
    return rng.choice([0.5, 0.25, -1.5, 2.5, 0.1, 0.3, -0.7, 3.25, 1 / 3, 10.0, 1e-3])

def formula(rng):
    """-> kind, term(j), exact?"""
    t = rng.choice(["const", "arith", "arith", "geom", "geom", "power"])
    k = rng.choice(["int", "int", "int", "float", "frac"])
    if t == "const":
        x0 = rng.choice([num(rng, k), 0, 1, -1])
        return t, (lambda j: x0), {"x0": x0}
    if t == "arith":
        x0, d = num(rng, k), 0
        while d == 0: d = num(rng, k)
        return t, (lambda j: x0 + j * d), {"x0": x0, "d": d}
    if t == "geom":
        if k == "frac": k = "int"   # detection of ratios is documented for numbers comparable as floats
        x0 = r = 0
        while x0 == 0: x0 = num(rng, k)
        while r in (0, 1): r = rng.choice([2, 3, 5, 7, -2, -3, -5, -7, 10, -10, 6, -1]) if rng.random() < 0.6 else rng.choice([0.5, 0.25, -0.5, 1.5, -1.5, 0.1, 1 / 3, -1 / 3])
        return t, (lambda j: x0 * r ** j), {"x0": x0, "r": r}
    p = rng.choice([2, 3, 0.5, 2, -1, -2])
    x0 = rng.choice([2, 3, 5, 1.5, 0.5, 10] + ([-2, -3, -5] if p in (2, 3) else []))
    return t, (lambda j: x0 ** (p ** j)), {"x0": x0, "p": p}

def matches_other(t, m):
    return False

@section(quick=7000, thorough=100000, require={"infinite": 2000, "finite": 1500, "terms": 20000})
def formulas(ctx, rng):
    t, term, par = formula(rng)
    lo = {"const": 1, "arith": 2, "geom": 3, "power": 3}[t]
    m = lo + rng.choice([0, 0, 1, 2]) if t != "power" else 3 + rng.choice([0, 0, 1])
    spec = [term(j) for j in range(m)]
    finite = t != "const" and rng.random() < 0.45
    ctx.note(kind=t, par=par, spec=spec)
    if t == "geom" and abs(par["r"]) == 1: finite = False
    if t == "power" and abs(par["p"]) == 1: finite = False
    maxn = {"arith": 60, "geom": 14, "power": 4, "const": 20}[t]
    if finite:
        n = rng.randrange(lo, maxn) if t != "power" else rng.randrange(3, 6)
        lastv = term(n - 1)
        if lastv == 0 and t != "arith" or isinstance(lastv, float) and (math.isinf(lastv) or abs(lastv) < 1e-300): return
        seq = s(*spec, ..., lastv)
        got = list(itertools.islice(iter(seq), n + 3))
        want = [term(j) for j in range(n)]
        ctx.check(len(got) == n, "finite sequence: number of terms (it must end with the stated element)", got=got[:6], n=n, got_n=len(got), last=lastv)
        ctx.event("finite")
    else:
        seq = s(*spec, ...)
        n = maxn if t != "power" else 6
        want = []
        for j in range(n):
            try: w = term(j)
            except OverflowError: break
            if isinstance(w, float) and (math.isinf(w) or w != 0 and abs(w) < 1e-250) or isinstance(w, int) and abs(w) > 10**250: break
            want.append(w)
        got = list(take(len(want), seq))
        ctx.event("infinite")
    if t == "power":   # errors of the detected exponent grow with each term
        ok = len(got) == len(want) and all(close(a, b) or (a != 0 and b != 0 and (a > 0) == (b > 0) and abs(math.log(abs(a)) - math.log(abs(b))) <= 1e-9 * max(1, abs(math.log(abs(b))))) for a, b in zip(got, want))
    elif t == "arith":
        sc = max(abs(par["x0"]), abs(par["d"])) or 1
        ok = len(got) == len(want) and all(abs(a - b) <= 1e-9 * max(sc, abs(b)) for a, b in zip(got, want))
    else: ok = closeall(got, want)
    ctx.check(ok, "terms differ from the closed form", got=got[:8], want=want[:8])
    if t in ("arith", "const") and all(isinstance(x, (int, Fraction)) for x in spec) or t == "geom" and all(isinstance(x, int) for x in par.values()):
        ctx.check(got == want, "exact input must give exact terms", got=got[:8], want=want[:8])
    ctx.event("terms", len(got))
    ctx.seen(t, m, finite, par)

@section(quick=7000, thorough=100000, require={"rejected": 2000, "accepted": 300, "finite_accepted": 80})
def arbitrary(ctx, rng):
    """Any specification is either refused with SyntaxError, or gives a sequence which contains the given terms and follows one formula."""
    pool = [0, 1, -1, 2, -2, 3, 4, -4, 8, 9, 16, -16, 27, 0.5, 0.25, 1.5, 10, 25, 125, -125, 81, 256]
    m = rng.choice([1, 2, 3, 3, 3, 4, 4, 5])
    if rng.random() < 0.5:
        t, term, par = formula(rng)
        spec = [term(j) for j in range(m if t != "power" else min(m, 4))]
        if rng.random() < 0.7 and len(spec) > 1: spec[rng.randrange(len(spec))] = rng.choice(pool)
    else: spec = [rng.choice(pool) for _ in range(m)]
    finite = rng.random() < 0.5
    args = spec + [...] + ([rng.choice(pool + spec)] if finite else [])
    if rng.random() < 0.05: args.insert(rng.randrange(len(args)), ...)
    extra = args.count(...) > 1
    ctx.note(args=args)
    try: seq = s(*args)
    except SyntaxError:
        ctx.event("rejected")
        # must not refuse what plainly is an arithmetic or (integer) geometric sequence
        if not extra and not finite:
            ds = {b - a for a, b in zip(spec, spec[1:])}
            ctx.check(len(ds) > 1, "a plain arithmetic or constant sequence was refused", spec=spec)
            if len(spec) >= 3 and all(isinstance(x, int) and x for x in spec):
                ctx.check(len({Fraction(b, a) for a, b in zip(spec, spec[1:])}) > 1, "a plain geometric sequence was refused", spec=spec)
        ctx.seen("rej", len(spec), finite)
        return
    ctx.check(not extra, "two ellipses accepted")
    n = len(spec)
    it = iter(seq)
    got = list(itertools.islice(it, n + 2))
    k = min(n, len(got))
    def near(a, b): return abs(a - b) <= 1e-7 * max([abs(x) for x in spec if not isinstance(x, str)] + [1e-9])
    ctx.check(all(near(a, b) for a, b in zip(got[:k], spec[:k])), "the sequence does not begin with the given terms", got=got, spec=spec)
    if finite:
        rest = list(itertools.islice(it, 1200000))
        allt = got + rest
        ctx.check(len(allt) < 1200000 and near(allt[-1], args[-1]), "a finite sequence does not end with the stated element", got=allt[-3:], last=args[-1])
        ctx.event("finite_accepted")
    else: ctx.check(len(got) == n + 2, "an infinite sequence ended", got=got)
    ctx.event("accepted")
    ctx.seen("acc", spec, finite)

@section(quick=1500, require={"cyclic": 200, "explicit": 300, "refused": 200})
def shapes(ctx, rng):
    k = rng.randrange(3)
    rep = [rng.choice([1, 2, "a", None, 0.5]) for _ in range(rng.randrange(0, 4))]
    ini = [rng.choice([5, "b", 7]) for _ in range(rng.randrange(0, 3))]
    if k == 0:
        if not rep: ctx.check(outcome(s, *ini, rep, ...) == ("exc", SyntaxError), "empty cycle accepted"); ctx.event("refused"); return
        got = list(take(12, s(*ini, list(rep), ...)))
        want = list(itertools.islice(itertools.chain(ini, itertools.cycle(rep)), 12))
        ctx.check(got == want, "cyclic sequence", got=got, want=want, ini=ini, rep=rep); ctx.event("cyclic")
    elif k == 1:
        xs = [rng.choice([1, 2.5, "x", None]) for _ in range(rng.randrange(1, 6))]
        ctx.check(list(s(*xs)) == xs, "explicit sequence", xs=xs); ctx.event("explicit")
    else:
        bad = rng.choice([(...,), (1, 1, ..., 1), (5, ..., 5), (5, ..., 6), ([1, 2],), (1, [2]), ([1], ..., 1), (..., 1), (1, 2, ..., 3, ..., 5), (1, 2, 4, ..., 0), (1, 2, 4, ..., 5), (1, 2, ..., 1.5), (2, 4, 16, ..., 1), (2, 4, 16, ..., 20), (1, -1, 1, ..., 1), (1, -2, 4, ..., 8), (1, 2, ..., 0)])
        ctx.check(outcome(s, *bad) == ("exc", SyntaxError), "invalid specification not refused with SyntaxError", spec=bad, got=outcome(s, *bad)); ctx.event("refused")
    ctx.seen(k, ini, rep)

BIN = {"add": operator.add, "sub": operator.sub, "mul": operator.mul, "truediv": operator.truediv, "floordiv": operator.floordiv, "mod": operator.mod,
       "divmod": divmod, "pow": operator.pow, "lshift": operator.lshift, "rshift": operator.rshift, "and": operator.and_, "xor": operator.xor, "or": operator.or_,
       "lt": operator.lt, "le": operator.le, "eq": operator.eq, "ne": operator.ne, "ge": operator.ge, "gt": operator.gt}
UN = {"abs": abs, "pos": operator.pos, "neg": operator.neg, "invert": operator.invert, "round": round, "trunc": math.trunc, "floor": math.floor, "ceil": math.ceil}

@section(quick=8000, thorough=100000, require={"binop": 3000, "unop": 1000, "lazy": 800, "scalar": 1000})
def termwise(ctx, rng):
    ints = lambda lo=-9, hi=9: rng.randrange(lo, hi)
    if rng.random() < 0.3:
        name = rng.choice(list(UN))
        xs = [ints() if name == "invert" else rng.choice([ints(), ints() / 4, Fraction(ints(), 3)]) for _ in range(rng.randrange(0, 6))]
        op = UN[name]
        via = rng.choice(["infix", "func"])
        nd = rng.choice([None, None, 0, 1]) if name == "round" else None
        a = (nd,) if nd is not None else ()
        f = getattr(ms, "s" + name)
        src = CountIter(xs)
        r = op(imathify(src), *a) if via == "infix" else f(src, *a)
        ctx.check(isinstance(r, imathify), "result has no infix math")
        ctx.check(src.n == 0, "not lazy")
        got, want = list(r), [op(x, *a) for x in xs]
        ctx.check(got == want and [type(x) for x in got] == [type(x) for x in want], f"termwise {name}", got=got, want=want, xs=xs)
        if xs and via == "func": ctx.same(f(xs[0], *a), op(xs[0], *a), f"scalar s{name}")
        ctx.event("unop"); ctx.seen(name, via, len(xs), nd)
        return
    name = rng.choice(list(BIN))
    op = BIN[name]
    def mk(right):
        if name in ("lshift", "rshift"): return ints(0, 5)
        if name in ("and", "xor", "or"): return ints()
        if name == "pow": return rng.choice([1, 2, 3, 0.5, 2, 4]) if not right else ints(0, 4)
        if right and name in ("truediv", "floordiv", "mod", "divmod"): return rng.choice([1, 2, 3, -2, 0.5, 7])
        return rng.choice([ints(), ints() / 2])
    if name in ("truediv", "floordiv", "mod", "divmod"): mk0 = mk; mk = lambda right: mk0(True)
    la, lb = rng.randrange(0, 6), rng.randrange(0, 6)
    A, B = [mk(False) for _ in range(la)], [mk(True) for _ in range(lb)]
    form = rng.choice(["ss", "ss", "sc", "cs"])
    ca, cb = CountIter(A), CountIter(B)
    a = imathify(ca) if form != "cs" else mk(False)
    b = (imathify(cb) if rng.random() < 0.5 or form == "cs" else (cb if rng.random() < 0.5 else B)) if form != "sc" else mk(True)
    f = getattr(ms, "s" + name) if hasattr(ms, "s" + name) else None
    ctx.note(op=name, form=form, A=A if form != "cs" else a, B=B if form != "sc" else b)
    if f and rng.random() < 0.4:
        a2 = ca if form != "cs" else a
        r = f(a2, b if form == "sc" else cb); b_is_list = False
    else:
        r = op(a, b)
        if form == "ss" and rng.random() < 0.3 and not hasattr(b, "n"): pass
    ctx.check(isinstance(r, imathify), "result has no infix math")
    ctx.check(ca.n == 0 and cb.n == 0, "not lazy")
    want = [op(x, y) for x, y in zip(A, B)] if form == "ss" else [op(x, b) for x in A] if form == "sc" else [op(a, y) for y in B]
    k = rng.randrange(0, len(want) + 1)
    it = iter(r)
    got = list(itertools.islice(it, k))
    ctx.check(ca.n <= k + 1 and cb.n <= k + 1 and (ca.n <= k or form == "ss"), "consumed more terms than requested", k=k, a=ca.n, b=cb.n); ctx.event("lazy")
    got += list(it)
    ctx.check(got == want and [type(x) for x in got] == [type(x) for x in want], f"termwise {name}", got=got, want=want)
    if form != "ss": ctx.event("scalar")
    if name == "pow" and rng.random() < 0.3:
        xs = [ints(1, 9) for _ in range(4)]
        got = list(pow(imathify(xs), 3, 5)) if rng.random() < 0.5 else list(ms.spow(xs, 3, 5))
        ctx.check(got == [pow(x, 3, 5) for x in xs], "three-argument pow", got=got)
    ctx.event("binop"); ctx.seen(name, form, la, lb)

@section(quick=1500, require={"cauchy": 900, "terms": 3000})
def cauchy(ctx, rng):
    la, lb = [rng.choice([0, 1, 2, 3, 5]) for _ in range(2)]
    A, B = [rng.randrange(-5, 6) for _ in range(la)], [rng.randrange(-5, 6) for _ in range(lb)]
    inf = rng.random() < 0.3
    req = rng.choice([None, "any", "all"])
    kw = {} if req is None else {"require": req}
    ctx.note(A=A, B=B, inf=inf, req=req)
    gen = rng.random() < 0.4
    if inf:
        a, b = CountIter(itertools.chain(A, itertools.count(3))), CountIter(itertools.chain(B, itertools.count(-2)))
        fa, fb = list(itertools.islice(itertools.chain(A, itertools.count(3)), 10)), list(itertools.islice(itertools.chain(B, itertools.count(-2)), 10))
        g = iter(cauchyprod(a, b, **kw))
        for k in range(8):
            x = next(g)
            ctx.check(x == sum(fa[j] * fb[k - j] for j in range(k + 1)), "Cauchy product term", k=k, got=x)
            ctx.check(a.n <= k + 1 and b.n <= k + 1, "consumed too much", k=k, a=a.n, b=b.n)
            ctx.event("terms")
    else:
        want, terms = [], []
        for k in range(la + lb):
            ps = [(i, k - i) for i in range(k + 1) if i < la and k - i < lb]
            if not ps or req == "all" and len(ps) < k + 1: break
            terms.append([(A[i], B[j]) for i, j in ps])
            want.append(sum(A[i] * B[j] for i, j in ps))
        got = list(cauchyprod(iter(A) if gen else A, iter(B) if gen else B, **kw))
        ctx.check(got == want, "Cauchy product", got=got, want=want)
        got = list(diagonal_reduce(A, B, combine=lambda x, y: list(zip(x, y)), reduce=list, **kw))
        ctx.check(got == terms, "diagonal_reduce terms", got=got, want=terms)
        ctx.event("terms", len(got))
    ctx.check(outcome(cauchyprod, 3, [1]) == ("exc", TypeError) and outcome(cauchyprod, [1], [2], require="some") == ("exc", ValueError), "bad arguments accepted")
    ctx.event("cauchy"); ctx.seen(la, lb, inf, req)

SIEVE = [n for n in range(2, 2000) if all(n % p for p in range(2, int(n ** 0.5) + 1))]

@section(quick=400, require={"classical": 300})
def classical(ctx, rng):
    n = rng.randrange(1, 120)
    fib, a, b = [], 1, 1
    for _ in range(n): fib.append(a); a, b = b, a + b
    ctx.check(list(take(n, fibonacci())) == fib, "fibonacci")
    ctx.check(list(take(n, triangular())) == [i * (i + 1) // 2 for i in range(1, n + 1)], "triangular")
    opt = rng.choice([None, "speed", "memory"])
    mk = (lambda: primes()) if opt is None else (lambda: primes(optimize=opt))
    n2 = rng.randrange(1, 300)
    p, q = iter(mk()), iter(mk())
    r = random.Random(rng.random())
    out = {0: [], 1: []}
    for _ in range(n2): j = r.randrange(2); out[j].append(next((p, q)[j]))
    for o in out.values(): ctx.check(o == SIEVE[:len(o)], "primes", opt=opt, n=len(o))
    m = list(take(n2, mk() * 2 + 1))
    ctx.check(m == [2 * x + 1 for x in SIEVE[:n2]], "arithmetic on primes")
    ctx.check(outcome(primes, optimize="x") == ("exc", ValueError), "bad optimize accepted")
    g = gmathify(imemoize(s(1, 2, ...)))
    ctx.check(list(take(5, g() + g())) == [2, 4, 6, 8, 10] and list(take(3, g())) == [1, 2, 3], "gmathify")
    ctx.event("classical"); ctx.seen(n, opt, n2)
