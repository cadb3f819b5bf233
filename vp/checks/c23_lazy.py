"""C23: promises: exactly-once monitor on thunk executions, over force histories, nested data, and calls through the lazy-aware functions."""
from collections import deque, OrderedDict, namedtuple
from vp.core import section, outcome
from vp.gen import scalar
from unpythonic import (box, Some, frozendict, cons, ll, Values, curry, call, callwith, apply, flip, rotate, notf, andf, orf, composel, composer, composel1, composer1,
                        pipe, pipe1, pipec, piped, piped1, lazy_piped, lazy_piped1, exitpipe, memoize, tokth, withself, trampolined, jump, dyn, ThreadLocalBox)
from unpythonic.lazyutil import Lazy, force, force1, islazy, maybe_force_args, passthrough_lazy_args

class Boom(Exception): pass
class Obj:
    def __init__(self, n): self.n = n
    def __repr__(self): return f"Obj({self.n})"
NT = namedtuple("NT", "a b c")

class Pool:
    """Promises with execution counters."""
    def __init__(self, rng): self.rng, self.runs, self.vals, self.n = rng, {}, {}, 0
    def make(self, val=None):
        i = self.n; self.n += 1
        v = val if val is not None else self.rng.choice([("v", i), i, None, f"s{i}", Obj(i), 0, False])
        def thunk():
            self.runs[id(p)] = self.runs.get(id(p), 0) + 1
            return v
        p = Lazy(thunk)
        self.vals[id(p)] = (p, v)
        return p
    def value(self, p): return self.vals[id(p)][1]
    def count(self, p): return self.runs.get(id(p), 0)

@section(quick=4000, thorough=50000, require={"forces": 7000, "errors": 800, "values": 2000})
def promise_history(ctx, rng):
    runs = [0]
    fail = rng.random() < 0.35
    kind = rng.choice(["value", "none", "exc_value", "lazyval", "list", "callable"])
    inner = Lazy(lambda: 1)
    val = {"value": Obj(1), "none": None, "exc_value": ValueError("returned, not raised"), "lazyval": inner, "list": [1], "callable": (lambda: 5)}[kind]
    state = [0]
    def thunk():
        runs[0] += 1
        if fail: raise rng.choice([Boom, KeyError, StopIteration, GeneratorExit if False else LookupError])(runs[0])
        state[0] += 1
        return val
    p = Lazy(thunk, sourcecode=rng.choice([None, "x + 1"]))
    repr(p); ctx.check(runs[0] == 0, "the thunk ran before any force")
    first = None
    ops = []
    for _ in range(rng.randrange(1, 9)):
        how = rng.choice(["force", "force1", "deep", "inlist", "args", "repr"])
        ops.append(how)
        ctx.note(ops=ops, fail=fail, kind=kind)
        if how == "repr":
            before = runs[0]; repr(p); ctx.check(runs[0] == before, "repr ran the thunk"); continue
        try:
            if how == "force": r = p.force()
            elif how == "force1": r = force1(p)
            elif how == "deep": r = force(p)
            elif how == "inlist": r = force([0, p])[1]
            else: r = maybe_force_args(lambda x: x, p)
            got = ("ok", r)
        except (Boom, KeyError, StopIteration, LookupError) as e:
            got = ("exc", e)
        ctx.event("forces")
        ctx.check(runs[0] == 1, "the thunk did not run exactly once", runs=runs[0])
        if fail: ctx.event("errors"); ctx.check(got[0] == "exc", "a failing promise returned", got=got)
        else: ctx.event("values"); ctx.check(got[0] == "ok" and got[1] is val, "wrong value", got=got)
        if first is None: first = got
        ctx.check(got[0] == first[0] and got[1] is first[1], "a later force gave another value or exception", got=got, first=first)
    ctx.check(outcome(Lazy, 42) == ("exc", TypeError), "non-callable thunk accepted")
    ctx.seen(fail, kind, tuple(ops))

# -- nested containers
def build(rng, pool, depth, hashable=False):
    """-> (object, model): model is a function () giving ("atom", value) | (tag, parts...) to compare with."""
    if depth <= 0 or rng.random() < 0.25:
        if rng.random() < 0.6:
            p = pool.make() if rng.random() < 0.8 or not pool.vals else rng.choice([a for a, _ in pool.vals.values()])
            return p, ("atom", pool.value(p))
        v = rng.choice([scalar(rng), Obj(0), None, "str", b"bytes", range(3), (lambda: 1)])
        if isinstance(v, (list, dict, set)): v = 7
        return v, ("atom", v)
    kinds = ["tuple", "nt", "frozendict", "some", "cons", "frozenset"] + ([] if hashable else ["list", "dict", "deque", "odict", "box", "Values", "list", "dict", "tlbox"])
    k = rng.choice(kinds)
    n = rng.randrange(0, 4)
    if k in ("list", "tuple", "deque"):
        parts = [build(rng, pool, depth - 1, hashable) for _ in range(n)]
        return {"list": list, "tuple": tuple, "deque": deque}[k](a for a, _ in parts), (k, [b for _, b in parts])
    if k == "nt":
        parts = [build(rng, pool, depth - 1, hashable) for _ in range(3)]
        return NT(*[a for a, _ in parts]), (k, [b for _, b in parts])
    if k in ("dict", "odict", "frozendict"):
        parts = [(i, build(rng, pool, depth - 1, hashable)) for i in range(n)]
        d = {i: a for i, (a, _) in parts}
        return {"dict": dict, "odict": OrderedDict, "frozendict": frozendict}[k](d), (k, {i: b for i, (_, b) in parts})
    if k in ("some", "box", "tlbox"):
        a, b = build(rng, pool, depth - 1, hashable)
        return {"some": Some, "box": box, "tlbox": ThreadLocalBox}[k](a), (k, [b])
    if k == "cons":
        (a, b), (c, d) = build(rng, pool, depth - 1, hashable), build(rng, pool, depth - 1, hashable)
        return cons(a, c), (k, [b, d])
    if k == "frozenset":
        ps = [pool.make(("fs", i)) for i in range(n)]
        return frozenset(ps), (k, [("atom", pool.value(p)) for p in ps])
    parts = [build(rng, pool, depth - 1) for _ in range(n)]
    kw = {x: build(rng, pool, depth - 1) for x in rng.sample(["p", "q"], rng.randrange(0, 3))}
    return Values(*[a for a, _ in parts], **{x: a for x, (a, _) in kw.items()}), ("Values", [b for _, b in parts], {x: b for x, (_, b) in kw.items()})

TYPES = {"list": list, "tuple": tuple, "deque": deque, "nt": NT, "dict": dict, "odict": OrderedDict, "frozendict": frozendict, "some": Some, "box": box, "tlbox": ThreadLocalBox, "cons": cons, "frozenset": frozenset, "Values": Values}
def matches(o, m):
    k = m[0]
    if k == "atom":
        return o is m[1] or (type(o) is type(m[1]) and o == m[1])
    if type(o) is not TYPES[k]: return False
    if k in ("list", "tuple", "deque", "nt"): return len(o) == len(m[1]) and all(matches(a, b) for a, b in zip(o, m[1]))
    if k in ("dict", "odict", "frozendict"): return list(o) == list(m[1]) and all(matches(o[i], b) for i, b in m[1].items())
    if k in ("some", "box", "tlbox"): return matches(o.get(), m[1][0])
    if k == "cons": return matches(o.car, m[1][0]) and matches(o.cdr, m[1][1])
    if k == "frozenset": return o == frozenset(x[1] for x in m[1])
    return len(o.rets) == len(m[1]) and all(matches(a, b) for a, b in zip(o.rets, m[1])) and set(o.kwrets) == set(m[2]) and all(matches(o.kwrets[i], b) for i, b in m[2].items())

@section(quick=4000, thorough=60000, require={"containers": 3000, "promises": 2500, "inplace": 600})
def nested(ctx, rng):
    pool = Pool(rng)
    o, m = build(rng, pool, rng.randrange(1, 5))
    ctx.note(o=o)
    ctx.event("containers"); ctx.event("promises", pool.n)
    # force1 leaves containers alone
    if not isinstance(o, Lazy):
        ctx.check(force1(o) is o and not pool.runs, "force1 touched the inside of a container")
    r = force(o)
    ctx.check(matches(r, m), "force: wrong result", got=r, want=m)
    ctx.check(all(pool.count(p) == 1 for p, _ in pool.vals.values()), "a promise inside was not evaluated exactly once", runs=pool.runs)
    if m[0] in ("list", "dict", "deque", "odict", "box"):
        ctx.event("inplace")
        ctx.check(r is o, "a mutable container was not updated in place")
    r2 = force(r)
    ctx.check(matches(r2, m) and all(pool.count(p) == 1 for p, _ in pool.vals.values()), "forcing again changed something")
    ctx.seen(m[0], repr(m)[:200])

# -- calls
def adapters():
    A = {}
    A["maybe_force_args"] = lambda f, a, k: maybe_force_args(f, *a, **k)
    A["call"] = lambda f, a, k: call(f, *a, **k)
    A["callwith"] = lambda f, a, k: callwith(*a, **k)(f)
    A["call_promise_f"] = lambda f, a, k: call(Lazy(lambda: f), *a, **k)
    A["curry"] = lambda f, a, k: curry(f, *a, **k) if a or k else curry(f)()
    A["curry2"] = lambda f, a, k: maybe_force_args(curry(f), *a, **k)
    A["apply"] = lambda f, a, k: apply(f, *a[:-1], [a[-1]], **k) if a else apply(f, [], **k)
    A["flip"] = lambda f, a, k: maybe_force_args(flip(f), *reversed(a), **k)
    A["rotate"] = lambda f, a, k: maybe_force_args(rotate(1)(rotate(-1)(f)) if len(a) > 1 else f, *a, **k)
    A["andf"] = lambda f, a, k: andf(passthrough_lazy_args(lambda *a, **k: True), f)(*a, **k)
    A["andf2"] = lambda f, a, k: maybe_force_args(andf(f), *a, **k)
    A["orf2"] = lambda f, a, k: maybe_force_args(orf(f), *a, **k)
    A["flipd"] = lambda f, a, k: flip(f)(*reversed(a), **k)
    A["orf"] = lambda f, a, k: orf(passthrough_lazy_args(lambda *a, **k: False), f)(*a, **k)
    A["composel"] = lambda f, a, k: maybe_force_args(composel(f, lambda r: r), *a, **k)
    A["composel1f"] = lambda f, a, k: maybe_force_args(composel(f), *a, **k)
    A["composer"] = lambda f, a, k: composer(lambda r: r, lambda r: r, f)(*a, **k)
    A["memoize"] = lambda f, a, k: maybe_force_args(memoize(f), *a, **k)
    A["pipe"] = lambda f, a, k: pipe(Values(*a, **k), f)
    A["piped"] = lambda f, a, k: piped(*a, **k) | f | exitpipe
    A["lazy_piped"] = lambda f, a, k: lazy_piped(*a, **k) | f | exitpipe
    A["withself"] = lambda f, a, k: maybe_force_args(withself(passthrough_lazy_args(lambda self, *aa, **kk: maybe_force_args(f, *aa, **kk))), *a, **k)
    A["nested"] = lambda f, a, k: call(passthrough_lazy_args(lambda *aa, **kk: call(flip(f), *reversed(aa), **kk)), *a, **k)
    def lazytramp(f, a, k):
        with dyn.let(_build_lazy_trampoline=True):
            g = trampolined(f)
        return maybe_force_args(g, *a, **k)
    A["trampoline"] = lazytramp
    def lazyjump(f, a, k):
        with dyn.let(_build_lazy_trampoline=True):
            g = trampolined(passthrough_lazy_args(lambda *aa, **kk: maybe_force_args(jump, Lazy(lambda: f), *aa, **kk)))
        return maybe_force_args(g, *a, **k)
    A["jump"] = lazyjump
    return A
ADAPTERS = adapters()
UNARY = {"pipe1": lambda f, x: pipe1(x, f), "piped1": lambda f, x: piped1(x) | f | exitpipe, "composel1": lambda f, x: maybe_force_args(composel1(f, lambda r: r), x),
         "composer1": lambda f, x: maybe_force_args(composer1(lambda r: r, f), x), "tokth": lambda f, x: maybe_force_args(tokth(1, f), 0, x, 2), "notf": lambda f, x: maybe_force_args(notf(f), x)}

@section(quick=6000, thorough=80000, require={"strict": 2500, "lazy": 2500, "promise_args": 5000})
def calls(ctx, rng):
    pool = Pool(rng)
    na = rng.randrange(0, 4)
    arg = lambda: pool.make() if rng.random() < 0.7 else rng.choice([5, "x", Obj(3)])
    deep = rng.random() < 0.3
    a = [(arg(), arg()) if deep and j == 0 else arg() for j in range(na)]
    k = {x: arg() for x in rng.sample(["p", "q", "r"], rng.randrange(0, 3))}
    lazy = rng.random() < 0.5
    rec = []
    def impl(*args, **kwargs):
        rec.append((args, kwargs)); return ("result",)
    ps = [f"a{j}" for j in range(na)]
    f = eval(f"lambda {', '.join(ps + ['*'] * bool(k) + list(k))}: impl({', '.join(ps + [f'{n}={n}' for n in k])})", {"impl": impl})
    if lazy: f = passthrough_lazy_args(f)
    ctx.check(islazy(f) == lazy, "islazy")
    unary = na == 1 and not k and rng.random() < 0.5
    how = rng.choice(sorted(UNARY)) if unary else rng.choice(sorted(ADAPTERS))
    ctx.note(how=how, lazy=lazy, a=a, k=k)
    ctx.event("lazy" if lazy else "strict"); ctx.event("promise_args", pool.n)
    r = outcome(UNARY[how], f, a[0]) if unary else outcome(ADAPTERS[how], f, a, k)
    if how == "notf": want = ("ok", False)
    elif how == "tokth": want = None
    else: want = ("ok", ("result",))
    ctx.check(want is None or r == want, "call failed or wrong result", got=r)
    if how == "tokth": ctx.check(r[0] == "ok" and isinstance(r[1], Values) and r[1].rets[1] == ("result",), "tokth", got=r)
    ctx.check(len(rec) == 1, "the function was not called exactly once", rec=rec)
    args, kwargs = rec[0]
    ctx.check(len(args) == na and set(kwargs) == set(k), "wrong arguments", got=rec)
    def val(x): return pool.value(x) if isinstance(x, Lazy) else tuple(val(y) for y in x) if isinstance(x, tuple) else x
    for got, x in list(zip(args, a)) + [(kwargs[n], k[n]) for n in k]:
        if lazy:
            ok = got is x or (how == "pipe1" and not unary) or (how in ("pipe1", "pipe") and got == val(x))   # pipe1 forces its first value
            ctx.check(ok or (isinstance(x, tuple) and got == x), "a lazy function did not get the promise itself", got=got, want=x)
        else:
            w = val(x)
            ctx.check(got is w or (type(got) is type(w) and got == w), "a strict function got an unforced or wrong value", got=got, want=w)
    counts = {pool.count(p) for p, _ in pool.vals.values()}
    if lazy:
        if how not in ("pipe1", "pipe"): ctx.check(counts <= {0} or (how in ("memoize",)), "passing to a lazy function evaluated a promise", counts=counts)
    elif pool.n: ctx.check(counts == {1}, "promises not evaluated exactly once", counts=counts)
    ctx.seen(how, lazy, na, tuple(k), tuple(type(x).__name__ for x in a))

@section(quick=1500, thorough=20000, require={"chain": 1000, "unneeded": 1000})
def chains(ctx, rng):
    """Promises through chains of lazy and strict functions: what no strict function receives is never evaluated."""
    pool = Pool(rng)
    x, y = pool.make(("x",)), pool.make(("y",))
    needed = set()
    # pick a chain of lazy selectors ending in a strict or lazy consumer
    depth = rng.randrange(1, 6)
    pick = rng.randrange(2)
    f = (lambda v: ("used", v)) if rng.random() < 0.5 else passthrough_lazy_args(lambda v: ("passed", v))
    strict_end = not islazy(f)
    g = passthrough_lazy_args(lambda a, b: maybe_force_args(f, (a, b)[pick]))
    for _ in range(depth):
        h = g
        kind = rng.randrange(5)
        if kind == 0: g = flip(flip(h))
        elif kind == 1: g = curry(h)
        elif kind == 2: g = passthrough_lazy_args(lambda a, b, h=h: call(h, a, b))
        elif kind == 3: g = composel(h, lambda r: r)
        else: g = rotate(1)(rotate(1)(h))
    r = outcome(maybe_force_args, g, x, y)
    w, u = (x, y) if pick == 0 else (y, x)
    ctx.event("chain"); ctx.event("unneeded")
    ctx.check(pool.count(u) == 0, "an unused promise was evaluated")
    if strict_end: ctx.check(r == ("ok", ("used", pool.value(w))) and pool.count(w) == 1, "strict end of a lazy chain", got=r)
    else: ctx.check(r[0] == "ok" and r[1][0] == "passed" and (r[1][1] is w or r[1][1] == pool.value(w)), "lazy end of a lazy chain", got=r)
    ctx.seen(depth, pick, strict_end)
