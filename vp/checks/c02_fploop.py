"""C02: FP loops against a scripted reference loop; trace of body invocations, iterator position, stack depth."""
import sys

from vp import gen
from vp.core import section
from unpythonic import looped, looped_over, breakably_looped, breakably_looped_over, call_ec


class Boom(Exception):
    pass
_DONE = object()


def depth():
    f, n = sys._getframe(1), 0
    while f is not None:
        n += 1
        f = f.f_back
    return n


def value(rng):
    return rng.choice([None, 0, "", False, 1, "v", (1, 2), rng.randrange(100)])


# -- looped / breakably_looped -------------------------------------------------------
@section(quick=3000, thorough=60000, require={"iterations": 10000, "brk": 200, "ret": 400, "exc": 100})
def loops(ctx, rng):
    breakable = rng.random() < 0.5
    nv = rng.randrange(0, 4)
    names = ["p", "q", "r"][:nv]
    defaults = [value(rng) for _ in names]
    va = rng.random() < 0.3
    script = []
    for _ in range(rng.randrange(0, 12)):
        k = rng.randrange(nv + 1)
        args = [value(rng) for _ in range(k)]
        if va and k == nv:
            args += [value(rng) for _ in range(rng.randrange(2))]
        kw = {n: value(rng) for n in names[k:] if rng.random() < 0.5}
        script.append(("loop", tuple(args), kw))
    end = rng.choice(["ret", "ret", "exc"] + (["brk", "brk", "brkdeep"] if breakable else []))
    endv = value(rng)
    script.append((end, endv, None))
    # reference
    want, cur = [], (tuple(defaults), ())
    for what, a, kw in script:
        want.append(cur)
        if what == "loop":
            vals = list(defaults)
            for i, x in enumerate(a[:nv]):
                vals[i] = x
            for n, x in kw.items():
                vals[names.index(n)] = x
            cur = (tuple(vals), tuple(a[nv:]))
    trace, after, depths = [], [], []
    def act(loop, brk, vals, extra):
        depths.append(depth())
        trace.append((vals, extra))
        what, a, kw = script[len(trace) - 1]
        if what == "loop":
            return loop(*a, **kw)
        ctx.event(what if what != "brkdeep" else "brk")
        if what == "ret":
            return a
        if what == "exc":
            raise Boom
        if what == "brkdeep":
            def helper(b):
                try:
                    b(a)
                    after.append("after brk")
                finally:
                    after.append("finally")
            helper(brk)
            after.append("after helper")
        r = brk(a)
        after.append("after brk")
        return "should not be seen"
    params = ", ".join(f"{n}=D{i}" for i, n in enumerate(names)) + ((", " if names else "") + "*extra" if va else "")
    magic = "loop, brk" if breakable else "loop"
    src = f"def body({magic}{', ' if params else ''}{params}):\n    return ACT(loop, {'brk' if breakable else 'None'}, ({''.join(n + ',' for n in names)}), {'extra' if va else '()'})"
    ns = {"ACT": act, **{f"D{i}": d for i, d in enumerate(defaults)}}
    exec(src, ns)
    ctx.note(src=src, script=script)
    deco = breakably_looped if breakable else looped
    try:
        got = ("ok", deco(ns["body"]))
    except Boom:
        got = ("exc",)
    ctx.event("iterations", len(trace))
    ctx.check(trace == want, "body invocations differ", got=trace, want=want)
    ctx.check(got == (("exc",) if end == "exc" else ("ok", endv)), "wrong loop result", got=got, want=endv)
    if got[0] == "ok":
        ctx.check(got[1] is endv or got[1] == endv, "result")
    ctx.check(after == (["finally"] if end == "brkdeep" else []), "code after brk ran (or finally did not)", after=after)
    ctx.check(max(depths) - min(depths) <= 6, "stack grows", depths=depths)
    ctx.seen(breakable, nv, va, tuple((w, len(a) if isinstance(a, tuple) else 0) for w, a, _ in script))
    ctx.sample({"body": src.splitlines()[0], "script": script[:4]})


# -- looped_over / breakably_looped_over ----------------------------------------------
@section(quick=5000, thorough=100000, require={"iterations": 15000, "brk": 300, "cnt": 500, "keep": 500, "exhausted": 500, "ret": 300, "empty": 100})
def over(ctx, rng):
    breakable = rng.random() < 0.6
    items = [rng.choice([None, 0, "", rng.randrange(50), ("t", 1)]) for _ in range(rng.choice([0, 1, 2, 5, 9]))]
    accgiven = rng.random() < 0.8
    acc0 = value(rng) if accgiven else None
    nx = rng.randrange(0, 3)
    names = ["extra1", "extra2"][:nx]
    defaults = [("dflt", i) for i in range(nx)]
    script = []
    for i in range(len(items)):
        what = rng.choices(["set", "keep", "cnt", "brk", "ret", "exc", "brkdeep", "keepkw"],
                           [8, 4, 3 if breakable else 0, 0.6 if breakable else 0, 0.6, 0.2, 0.4 if breakable else 0, 2 if nx else 0])[0]
        extra, kw = [], {}
        if what in ("set", "cnt"):
            k = rng.randrange(nx + 1)
            extra = [value(rng) for _ in range(k)]
            kw = {n: value(rng) for n in names[k:] if rng.random() < 0.5}
        if what == "keepkw":
            kw = {n: value(rng) for n in names if rng.random() < 0.7}
        script.append((what, value(rng), tuple(extra), kw))
    def ext(extra, kw):
        v = list(defaults)
        for i, x in enumerate(extra):
            v[i] = x
        for n, x in kw.items():
            v[names.index(n)] = x
        return tuple(v)
    # reference
    want, acc, ex, res, used = [], acc0, tuple(defaults), None, 0
    for i, x in enumerate(items):
        want.append((x, acc, ex))
        used += 1
        what, v, extra, kw = script[i]
        if what == "set":
            acc = v
        if what in ("brk", "ret", "brkdeep"):
            res = ("ok", v)
            break
        if what == "exc":
            res = ("exc",)
            break
        ex = ext(extra, kw)
    else:
        res = ("ok", acc)
    src = gen.CountIter(items)
    reusable = rng.random() < 0.3
    trace, after, depths, eager = [], [], [], []
    def act(loop, x, acc, cnt, brk, ex):
        trace.append((x, acc, ex))
        depths.append(depth())
        if not reusable:
            eager.append(src.n)
        what, v, extra, kw = script[len(trace) - 1]
        if what in ("brk", "ret", "cnt", "keep"):
            ctx.event(what)
        if what == "set":
            return loop(v, *extra, **kw)
        if what == "keep":
            return loop()
        if what == "keepkw":
            return loop(**kw)
        if what == "cnt":
            return cnt(*extra, **kw)
        if what == "ret":
            return v
        if what == "exc":
            raise Boom
        if what == "brkdeep":
            ctx.event("brk")
            try:
                (lambda b: (b(v), after.append("x")))(brk)
            finally:
                after.append("finally")
            after.append("y")
        brk(v)
        after.append("after brk")
        return "no"
    params = "".join(f", {n}=D{i}" for i, n in enumerate(names))
    magic = "loop, x, acc, cnt, brk" if breakable else "loop, x, acc"
    code = f"def body({magic}{params}):\n    return ACT(loop, x, acc, {'cnt, brk' if breakable else 'None, None'}, ({''.join(n + ',' for n in names)}))"
    ns = {"ACT": act, **{f"D{i}": d for i, d in enumerate(defaults)}}
    exec(code, ns)
    ctx.note(code=code, script=script, items=items)
    fac = breakably_looped_over if breakable else looped_over
    deco = (fac(items if reusable else src, acc0) if rng.random() < 0.5 else fac(items if reusable else src, acc=acc0)) if accgiven else fac(items if reusable else src)
    for rep in range(2 if reusable else 1):
        trace.clear(); after.clear(); depths.clear()
        try:
            got = ("ok", deco(ns["body"]))
        except Boom:
            got = ("exc",)
        ctx.event("iterations", len(trace))
        ctx.check(trace == want, "body invocations differ", got=trace, want=want, rep=rep)
        ctx.check(got == res and (got[0] == "exc" or type(got[1]) is type(res[1])), "wrong loop result", got=got, want=res)
        broke = any(s[0] == "brkdeep" for s in script[:used]) and want and script[used - 1][0] == "brkdeep"
        ctx.check(after == (["finally"] if broke else []), "code after brk ran", after=after)
        if depths:
            ctx.check(max(depths) - min(depths) <= 6, "stack grows", depths=depths)
    if not reusable:
        ctx.check(src.n == used, "iterable is not positioned just after the last item delivered", got=src.n, want=used)
        ctx.check(all(n == i + 1 for i, n in enumerate(eager)), "an item was fetched before its iteration", eager=eager)
    if not items:
        ctx.event("empty")
    elif used == len(items):
        ctx.event("exhausted")
    ctx.seen(breakable, len(items), nx, tuple(s[0] for s in script[:used]))
    ctx.sample({"body": code.splitlines()[0], "script": [s[0] for s in script], "result": res})


@section(quick=60, thorough=600, require={"deep_iterations": 20000})
def deep(ctx, rng):
    n = rng.choice([1000, 4000])
    kind = rng.randrange(4)
    depths = []
    if kind == 0:
        @looped
        def r(loop, i=0, acc=0):
            depths.append(depth())
            return acc if i == n else loop(i + 1, acc=acc + i)
    elif kind == 1:
        @breakably_looped
        def r(loop, brk, i=0, acc=0):
            depths.append(depth())
            return brk(acc) if i == n else loop(i + 1, acc + i)
    elif kind == 2:
        @looped_over(range(n), acc=0)
        def r(loop, x, acc):
            depths.append(depth())
            return loop(acc + x)
    else:
        @breakably_looped_over(range(2 * n), acc=0)
        def r(loop, x, acc, cnt, brk):
            depths.append(depth())
            if x >= n:
                brk(acc)
            return loop(acc + x)
    ctx.event("deep_iterations", len(depths))
    ctx.check(r == n * (n - 1) // 2, "wrong result of a long loop", got=r, n=n, kind=kind)
    ctx.check(max(depths) - min(depths) <= 6, "stack grows with the number of iterations", lo=min(depths), hi=max(depths))
    ctx.seen(kind, n)


@section(quick=1500, thorough=20000, require={"inner": 2000})
def nested(ctx, rng):
    """Nested loops; inner brk/return does not disturb the outer; outer brk from the inner loop."""
    a, b = rng.randrange(0, 5), rng.randrange(0, 5)
    brk_at = (rng.randrange(6), rng.randrange(6)) if rng.random() < 0.4 else None
    ibrk = rng.randrange(6)
    skip = rng.randrange(6)
    out = []
    @breakably_looped_over(range(a), acc=())
    def r(oloop, x, oacc, ocnt, obrk):
        if x == skip:
            return ocnt()
        @breakably_looped_over(range(b), acc=0)
        def inner(loop, y, acc, cnt, brk):
            ctx.event("inner")
            out.append((x, y))
            if (x, y) == brk_at:
                obrk(("broken", x, y))
            if y == ibrk:
                brk(("in", acc))
            if (x + y) % 2:
                return cnt()
            return loop(acc + y)
        return oloop(oacc + (inner,))
    wout, wres = [], None
    def ref():
        acc = ()
        for x in range(a):
            if x == skip:
                continue
            iacc = 0
            for y in range(b):
                wout.append((x, y))
                if (x, y) == brk_at:
                    return ("broken", x, y)
                if y == ibrk:
                    iacc = ("in", iacc)
                    break
                if (x + y) % 2:
                    continue
                iacc += y
            acc += (iacc,)
        return acc
    w = ref()
    ctx.check(out == wout and r == w, "nested loops differ from for-loops", got=(out, r), want=(wout, w))
    ctx.seen(a, b, brk_at, ibrk, skip)


@section(quick=600, thorough=5000, require={"rejected": 200, "accepted": 100})
def arity(ctx, rng):
    """A body that cannot take the loop's arguments is rejected before it runs."""
    kind = rng.randrange(4)
    magic = [1, 2, 3, 5][kind]
    npos = rng.randrange(0, 8)
    ndef = rng.randrange(0, npos + 1)
    va = rng.random() < 0.2
    params = [f"a{i}" for i in range(npos - ndef)] + [f"d{i}=0" for i in range(ndef)] + (["*args"] if va else [])
    ran = []
    ns = {"ran": ran}
    exec(f"def body({', '.join(params)}):\n    ran.append(1)\n    return 'end'", ns)
    src = gen.CountIter([1, 2])
    deco = [looped, breakably_looped, looped_over(src, acc=9), breakably_looped_over(src, acc=9)][kind]
    ok = npos - ndef <= magic and (magic <= npos or va)
    try:
        r = deco(ns["body"])
    except ValueError:
        ctx.event("rejected")
        ctx.check(not ok, "acceptable body rejected", params=params, kind=kind)
        ctx.check(not ran and src.n == 0, "rejected body was run, or an item was consumed", params=params)
    else:
        ctx.event("accepted")
        ctx.check(ok, "unacceptable body not rejected with ValueError", params=params, kind=kind)
        ctx.check(r == "end" and ran == [1], "body must run once", got=r)
    ctx.seen(kind, tuple(params))
