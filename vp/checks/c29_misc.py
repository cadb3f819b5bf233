"""C29: numeric, naming and timing helpers against exact references."""
import collections
import contextlib
import fractions
import io
import math
import queue
import sys
import threading
import time
import types
from vp.core import section, outcome
from unpythonic import (almosteq, ulp, fixpoint, partition_int, partition_int_triangular, partition_int_custom, pack, namelambda, timer,
                        getattrrec, setattrrec, Popper, CountingIterator, slurp, callsite_filename, safeissubclass)
from unpythonic import timeutil
from unpythonic.timeutil import seconds_to_human, format_human_time, ETAEstimator
try: from mpmath import mpf
except ImportError: mpf = None

def rand_float(rng):
    k = rng.randrange(8)
    if k == 0: return rng.uniform(-10, 10)
    if k == 1: return rng.choice([-1, 1]) * 2.0 ** rng.randrange(-1000, 1000)
    if k == 2:
        b = 2.0 ** rng.randrange(-900, 900)
        for _ in range(rng.randrange(1, 4)): b = math.nextafter(b, rng.choice([0, math.inf]))
        return b
    if k == 3: return rng.choice([1.0, -1.0, 0.1, 1e300, 1e-290, 3.0, float(rng.randrange(1, 10**15))])
    if k == 4: return math.ldexp(rng.random() + 0.5, rng.randrange(-900, 900))
    return rng.gauss(0, 1) * 10.0 ** rng.randrange(-200, 200)

@section(quick=8000, thorough=80000, require={"ulp": 2500, "boundary": 700, "almosteq": 2500, "close": 700, "far": 700})
def floats(ctx, rng):
    x = rand_float(rng)
    if rng.random() < 0.03: x = rng.choice([0.0, -0.0, 5e-324, math.ldexp(rng.random(), rng.randrange(-1074, -1000)), sys.float_info.max, sys.float_info.min, -1e-310])
    if math.isfinite(x):
        ctx.event("ulp"); ctx.event("boundary", math.ulp(x) != math.ulp(math.nextafter(x, math.inf)) or math.ulp(x) != math.ulp(math.nextafter(x, 0)))
        ctx.check(ulp(x) == math.ulp(x), "not the unit in the last place", x=x, got=ulp(x), want=math.ulp(x))
        if rng.random() < 0.1 and abs(x) < 1e15: ctx.check(ulp(int(x) or 1) == math.ulp(float(int(x) or 1)), "ulp of an integer", x=int(x))
    # almosteq
    if abs(x) < 1e-250 or abs(x) > 1e300: x = rng.uniform(0.1, 9)
    tol = rng.choice([1e-8, 1e-8, 1e-3, 1e-12, 0.1])
    k = rng.choice(["near", "near", "rel", "other", "zero", "same", "exact", "special"])
    if k in ("near", "rel"):
        f = rng.choice([0.1, 0.5, 0.9, 1.1, 2, 10]) if k == "rel" else rng.random() * 3
        y = x * (1 + 2 * tol * f * rng.choice([-1, 1]))
    elif k == "other": y = rand_float(rng)
    elif k == "zero": y = 0.0
    elif k == "same": y = x
    elif k == "special": x, y = rng.choice([math.inf, -math.inf, math.nan, 1.0]), rng.choice([math.inf, -math.inf, math.nan, 0.0, 5.0])
    else:
        mk = [lambda: "abc", lambda: (1.0, 2), lambda: [1.0], lambda: None, lambda: 3 + 1j, lambda: fractions.Fraction(1, 3), lambda: {"a": 1}]
        a, b = rng.choice(mk)(), rng.choice(mk)()
        if rng.random() < 0.3: b = (1.0, 2 + 1e-12)
        ctx.check(almosteq(a, b) is (a == b), "objects other than floats are compared exactly", a=a, b=b, got=almosteq(a, b))
        return
    args = (x, y) if tol == 1e-8 else (x, y, tol)
    got = almosteq(*args)
    ctx.event("almosteq")
    ctx.check(type(got) is bool and got == almosteq(y, x, *args[2:]), "not symmetric", x=x, y=y, tol=tol)
    if x == y: want = True
    elif not (math.isfinite(x) and math.isfinite(y)): want = False
    elif x == 0 or y == 0: want = False if abs(x - y) > 1e-300 else None
    elif abs(x - y) < 1e-300: want = None
    else:
        X, Y, T = fractions.Fraction(x), fractions.Fraction(y), fractions.Fraction(tol)
        q = abs(X - Y) / (abs(X) + abs(Y))
        want = None if abs(q - T) < T / 10**5 + fractions.Fraction(1, 2**50) and q else q < T
        if abs(X) + abs(Y) > sys.float_info.max: want = None
    if want is not None:
        ctx.event("close" if want else "far")
        ctx.check(got == want, "wrong almost-equality", x=x, y=y, tol=tol, got=got, want=want)
        if mpf is not None and 1e-3 < abs(x) < 1e3 and math.isfinite(x) and math.isfinite(y) and k in ("same",):
            ctx.check(almosteq(mpf(x), y, tol) == want and almosteq(x, mpf(y), tol) == want, "mixed float and mpf", x=x, y=y)
    if k == "near" and want is False and rng.random() < 0.5: ctx.check(almosteq(int(2**60), int(2**60 * (1 + 1e-3)), 1e-8) is False, "integers")
    ctx.seen(k, x, y)

@section(quick=400, thorough=4000, require={"fixpoints": 250})
def fixpoints(ctx, rng):
    a, b = rng.uniform(-0.9, 0.9), rng.uniform(-5, 5)
    calls = []
    kind = rng.choice(["affine", "cos", "sqrt", "const", "int"])
    if kind == "affine":
        f = lambda x: math.floor((a * x + b) * 2**20) / 2**20 if rng is None else a * x + b
    elif kind == "cos": f = math.cos
    elif kind == "sqrt":
        n = rng.uniform(0.1, 100); f = lambda x: (x + n / x) / 2
    elif kind == "const": f = lambda x: b
    else: f = lambda x: x // 2
    tol = rng.choice([0, 0, 1e-10]) if kind not in ("affine", "sqrt") else 1e-9
    x0 = rng.uniform(1, 9) if kind != "int" else rng.randrange(10**6)
    def g(x):
        calls.append(x)
        if len(calls) > 20000: raise OverflowError
        return f(x)
    r = outcome(lambda: fixpoint(g, x0, tol) if tol else fixpoint(g, x0=x0))
    # reference: iterate until two successive values are within tol
    xs = [x0]
    while True:
        xs.append(f(xs[-1]))
        if abs(xs[-1] - xs[-2]) <= tol: break
        if len(xs) > 20000: return
    ctx.event("fixpoints")
    ctx.check(r == ("ok", xs[-1]), "not the first iterate that is within the tolerance of its predecessor", got=r, want=xs[-1], kind=kind, tol=tol, x0=x0)
    ctx.seen(kind, x0, tol)

def parts(n, comps):
    if n == 0: yield ()
    for k in comps:
        if k <= n:
            for r in parts(n - k, comps): yield (k,) + r

@section(quick=1500, thorough=10000, require={"partitions": 30000, "refused": 250, "triangular": 250, "custom": 250})
def partitions(ctx, rng):
    n = rng.randrange(1, 13)
    kind = rng.choice(["plain", "triangular", "custom", "bad"])
    if kind == "bad":
        f = rng.choice([partition_int, partition_int_triangular])
        args, want = rng.choice([((0,), ValueError), ((-n,), ValueError), ((n, 0), ValueError), ((n, n + 1), ValueError), ((n, 1, n + 1), ValueError), ((n + 2, 3, 2), ValueError),
                                 ((1.5,), TypeError), (("1",), TypeError), ((n, 1.0), TypeError), ((n, 1, 1.0), TypeError), ((n, 1, 0), ValueError)])
        ctx.event("refused")
        ctx.check(outcome(f, *args) == ("exc", want), "invalid arguments were not refused", f=f.__name__, args=args, got=outcome(f, *args))
        for c, want in [((0,), ValueError), ((n + 1,), ValueError), ((1, -1), ValueError), ((1.0,), TypeError), (("a",), TypeError)]:
            ctx.check(outcome(partition_int_custom, n, c) == ("exc", want), "invalid components were not refused", n=n, c=c)
        return
    lower = rng.randrange(1, n + 1) if rng.random() < 0.6 else 1
    upper = rng.randrange(lower, n + 1) if rng.random() < 0.6 else None
    args = (n,) if lower == 1 and upper is None else (n, lower) if upper is None else (n, lower, upper)
    if kind == "plain":
        got = list(partition_int(*args)); comps = range(lower, (upper or n) + 1)
    elif kind == "triangular":
        n2 = rng.randrange(1, 25); lower = min(lower, n2); upper = upper and max(lower, min(upper, n2))
        n = n2
        got = list(partition_int_triangular(n, lower, upper)); comps = [t for t in (k * (k + 1) // 2 for k in range(1, 30)) if lower <= t <= (upper or n)]
        ctx.event("triangular")
    else:
        comps = rng.sample(range(1, n + 1), rng.randrange(0, n + 1))
        got = list(partition_int_custom(n, iter(comps) if rng.random() < 0.5 else comps)); ctx.event("custom")
    want = list(parts(n, comps))
    ctx.event("partitions", len(want))
    ctx.check(all(isinstance(p, tuple) for p in got) and sorted(got) == sorted(want), "not all ordered partitions, each exactly once", n=n, lower=lower, upper=upper, components=list(comps), got=got[:20], want=want[:20], kind=kind)
    ctx.seen(kind, n, tuple(comps))

# ---------------------------------------------------------------------------------------
def snapshot(f): return (f.__name__, f.__qualname__, f.__code__, f.__code__.co_name, f.__defaults__, f.__kwdefaults__, dict(f.__dict__), f.__doc__)

@section(quick=1500, thorough=10000, require={"renamed": 900, "others": 60})
def names(ctx, rng):
    free = rng.randrange(100)
    def named(a, b=1, *, c=2) -> int:
        "doc"
        return (a, b, c, free)
    class K:
        def meth(self, a, b=1, *, c=2): return (a, b, c, free)
    mk = rng.choice([lambda: (lambda a, b=1, *, c=2: (a, b, c, free)), lambda: named, lambda: K.meth.__get__(None, K) if False else (lambda a, b=1, *, c=2: (a, b, c, free))])
    f = mk()
    if rng.random() < 0.5: f.extra = "attr"
    name = rng.choice(["foo", "λ", "x_1", "bar"])
    before = snapshot(f)
    g = namelambda(name)(f)
    ctx.event("renamed")
    ctx.check(g.__name__ == name and g.__code__.co_name == name, "the copy is not renamed", got=(g.__name__, g.__code__.co_name))
    q = before[1]
    want = (q[:q.rfind(".") + 1] if "." in q else "") + name
    ctx.check(g.__qualname__ == want, "qualname", got=g.__qualname__, want=want)
    for args, kw in [((1,), {}), ((1, 5), {"c": 9}), ((), {"a": 3})]:
        ctx.check(g(*args, **kw) == f(*args, **kw), "the copy behaves differently", args=args, kw=kw)
    ctx.check(outcome(g) == ("exc", TypeError), "signature")
    ctx.check(g.__doc__ == f.__doc__ and g.__dict__ == f.__dict__ and g.__module__ == f.__module__ and g.__annotations__ == f.__annotations__, "the copy lost attributes of the function")
    h = namelambda("again")(g)
    ctx.check(h.__name__ == "again", "renaming twice")
    obj = rng.choice([len, int, K, K(), functools_partial])
    ctx.event("others")
    ctx.check(namelambda("x")(obj) is obj, "something that is not a function is returned as is")
    free += 1
    ctx.check(g(1)[3] == free, "the copy does not share the variables of its closure")
    ctx.check(callsite_filename() == __file__ and (lambda: callsite_filename())() == __file__, "callsite_filename", got=callsite_filename())
    ctx.seen(name, before[0])
import functools
functools_partial = functools.partial(max, 1)

@section(quick=5, require={"kept": 1})
def original(ctx, rng):
    f = lambda x: x
    g = namelambda("foo")(f)
    ctx.event("kept")
    ctx.check(g is not f and f.__name__ == "<lambda>" and f.__code__.co_name == "<lambda>", "namelambda changed the original function", key="namelambda-mutates-original", got=f.__name__)

class Onion:
    def __init__(self, **kw): self.__dict__.update(kw)

@section(quick=2000, thorough=10000, require={"onions": 1500})
def onions(ctx, rng):
    depth = rng.randrange(1, 7)
    name = rng.choice(["inner", "x", "thing"])
    core = rng.choice([42, None, "s", 0, Onion(other=1), []])
    layers = []
    o = core
    for _ in range(depth):
        o = Onion(**{name: o, "tag": len(layers)}); layers.insert(0, o)
    ctx.event("onions")
    ctx.check(getattrrec(o, name) is core and getattrrec(o, name, "dflt") is core, "not the innermost object")
    ctx.check(getattrrec(o, "nosuch", core) is core, "default")
    ctx.check(outcome(getattrrec, o, "nosuch") == ("exc", AttributeError), "missing attribute")
    new = rng.choice([1, None, object()])
    ctx.check(setattrrec(o, name, new) is None, "gives a value")
    ctx.check(getattr(layers[-1], name) is new and all(getattr(a, name) is b for a, b in zip(layers, layers[1:])), "setattrrec did not set the attribute of the innermost layer only", depth=depth)
    ctx.check(getattrrec(o, name) is new, "what was set is not what is got")
    ctx.seen(depth, name, repr(core)[:10])

@section(quick=2000, thorough=10000, require={"popped": 5000})
def iterators(ctx, rng):
    xs = [rng.randrange(20) for _ in range(rng.randrange(0, 10))]
    kind = rng.choice(["list", "deque"])
    seq = xs[:] if kind == "list" else collections.deque(xs)
    plan = [rng.randrange(4) for _ in range(40)]
    got, model, want = [], xs[:], []
    def mutate(s, x, k, left):
        if k == 1 and x < 15: s.append(x + 7)
        elif k == 2 and x < 15: left(x + 9)
        elif k == 3 and len(s): s.pop()
    for i, x in enumerate(Popper(seq)):
        got.append(x)
        if i < 40: mutate(seq, x, plan[i], seq.appendleft if kind == "deque" else lambda y: seq.insert(0, y))
    i = 0
    while model:
        x = model.pop(0); want.append(x)
        if i < 40: mutate(model, x, plan[i], lambda y: model.insert(0, y))
        i += 1
    ctx.event("popped", len(got))
    ctx.check(got == want and len(seq) == 0, "Popper differs from popping from the left while there are items", got=got, want=want, rest=list(seq))
    it = CountingIterator(iter(xs) if rng.random() < 0.5 else xs)
    ctx.check(it.count == 0, "initial count")
    for j, x in enumerate(it):
        ctx.check(it.count == j + 1 and x == xs[j], "count", got=it.count)
    ctx.check(it.count == len(xs) and outcome(next, it) == ("exc", StopIteration) and it.count == len(xs), "count at the end", got=it.count)
    q = rng.choice([queue.Queue, queue.LifoQueue, queue.SimpleQueue])()
    ys = rng.choices([1, None, "x", 0], k=rng.randrange(6))
    for y in ys: q.put(y)
    ctx.check(slurp(q) == (ys[::-1] if isinstance(q, queue.LifoQueue) else ys) and q.empty(), "slurp")
    ctx.check(pack(*xs) == tuple(xs), "pack")
    c, t = rng.choice([int, bool, str, Exception, 42, None, "x", [int]]), rng.choice([int, (int, str), object, (), BaseException])
    ctx.check(safeissubclass(c, t) is (isinstance(c, type) and issubclass(c, t)), "safeissubclass", c=c, t=t)
    ctx.seen(kind, tuple(xs), tuple(plan))

# ---------------------------------------------------------------------------------------
@section(quick=6000, thorough=50000, require={"times": 5000, "days": 1200})
def human(ctx, rng):
    k = rng.randrange(6)
    s = [lambda: rng.randrange(0, 200), lambda: rng.randrange(0, 10**6), lambda: rng.randrange(0, 10**9), lambda: rng.uniform(0, 10**6), lambda: rng.choice([0, 1, 59, 60, 61, 3599, 3600, 86399, 86400, 86401, 172800, 1.0, 59.999, 0.5, 1.5]), lambda: rng.uniform(0, 100)][k]()
    d, h, m, r = seconds_to_human(s)
    ctx.event("times"); ctx.event("days", d > 0)
    ctx.check(all(type(x) is int for x in (d, h, m)) and d >= 0 and 0 <= h < 24 and 0 <= m < 60 and 0 <= r < 60, "out of range", s=s, got=(d, h, m, r))
    ctx.check(abs(d * 86400 + h * 3600 + m * 60 + r - s) <= 1e-6, "the total is not preserved", s=s, got=(d, h, m, r))
    t = int(s)
    D, rest = divmod(t, 86400); H, rest = divmod(rest, 3600); M, S = divmod(rest, 60)
    if t < 60: want = f"{t} second" + ("" if t == 1 else "s")
    else: want = (f"{D} day{'s' if D > 1 else ''} " if D else "") + (f"{H:02d}:" if D or H else "") + f"{M:02d}:{S:02d}"
    ctx.check(format_human_time(s) == want, "wrong text", s=s, got=format_human_time(s), want=want)
    ctx.seen(s)

class Clock:
    """Stands in for the clock in unpythonic.timeutil."""
    def __init__(self): self.t = 1000.0
    def monotonic(self): return self.t

@section(quick=1500, thorough=10000, require={"estimates": 6000})
def eta(ctx, rng):
    clock = Clock()
    old = time.monotonic
    time.monotonic = clock.monotonic   # timeutil looks it up in module time at each use
    try:
        total = rng.randrange(0, 20)
        keep = rng.choice([None, None, 1, 2, 5])
        e = ETAEstimator(total, keep) if keep is not None else ETAEstimator(total)
        if e.elapsed not in (0, 0.0): return   # the code under test got its clock some other way
        dts, t0 = [], clock.t
        for _ in range(rng.randrange(1, 25)):
            k = rng.randrange(5)
            if k == 4:
                total = max(0, total + rng.randrange(-3, 4)); e.total = total
            elif k:
                dt = rng.choice([0.25, 0.5, 1.0, 3.0, 100.0, 4000.0]); clock.t += dt
                if rng.random() < 0.8: e.tick(); dts.append(clock.t - (t0 + sum(dts)))
            kept = dts[-keep:] if keep else dts
            left = total - len(dts)
            want = None if not dts else 0.0 if left <= 0 else left * sum(kept) / len(kept)
            ctx.event("estimates")
            got = e.estimate
            ctx.check((got is None) == (want is None) and (want is None or abs(got - want) <= 1e-9 * max(1, want)), "wrong estimate", got=got, want=want, total=total, dts=dts, keep=keep)
            ctx.check(e.completed == len(dts) and e.total == total and e.elapsed == clock.t - t0, "counters", completed=e.completed, elapsed=e.elapsed)
            w = (f"elapsed {format_human_time(clock.t - t0)}, ETA " + ("unknown, total unknown" if want is None else f"{format_human_time(got)}, total {format_human_time(e.elapsed + got)}"))
            ctx.check(e.formatted_eta == w, "text", got=e.formatted_eta, want=w)
        for a in ("estimate", "elapsed", "formatted_eta"): ctx.check(outcome(setattr, e, a, 1) == ("exc", AttributeError), "read-only property is writable", attr=a)
    finally: time.monotonic = old
    ctx.seen(total, keep, tuple(dts))

@section(quick=40, require={"timed": 30})
def timers(ctx, rng):
    dt = rng.choice([0, 0.002, 0.01])
    out = io.StringIO()
    p = rng.random() < 0.5
    with contextlib.redirect_stdout(out):
        a = time.monotonic()
        try:
            with timer(p=p) as t:
                time.sleep(dt)
                if rng.random() < 0.3: raise KeyError
        except KeyError: pass
        b = time.monotonic()
    ctx.event("timed")
    ctx.check(dt <= t.dt <= b - a, "wrong duration", got=t.dt, want=(dt, b - a))
    ctx.check((float(out.getvalue()) == t.dt) if p else out.getvalue() == "", "printed", got=out.getvalue())
