"""C21: pipes and sequencing: random pipelines of recording functions against a straight reference interpreter; forks, laziness, re-evaluation."""
from vp.core import section, outcome
from vp.gen import scalar
from unpythonic import (begin, begin0, lazy_begin, lazy_begin0, pipe, pipe1, pipec, piped, piped1, lazy_piped, lazy_piped1, exitpipe, Values, curry)
from unpythonic.lazyutil import Lazy

class Boom(Exception): pass
NAMES = ["p", "q", "r", "s"]

def is_values(x): return isinstance(x, Values)

def unwrap(v):
    if is_values(v) and not v.kwrets and len(v.rets) == 1: return v.rets[0]
    return v

def eqv(a, b):
    if is_values(a) or is_values(b):
        return is_values(a) and is_values(b) and list(a.rets) == list(b.rets) and dict(a.kwrets) == dict(b.kwrets)
    return type(a) is type(b) and a == b

def rand_out(rng, i, single=False):
    """What function number i returns: ("bare", v) or Values."""
    base = ("v", i, rng.randrange(50))
    if single or rng.random() < 0.35:
        return rng.choice([base, None, [base], (base, base), 0, False, "", base])
    n = rng.randrange(0, 4)
    return Values(*[base + (j,) for j in range(n)], **{k: base + (k,) for k in rng.sample(NAMES, rng.randrange(0, 3))})

def rand_start(rng, single=False):
    if single or rng.random() < 0.4: return rng.choice([scalar(rng), [1, 2], (3, 4), None])
    return Values(*[scalar(rng) for _ in range(rng.randrange(0, 4))], **{k: scalar(rng) for k in rng.sample(NAMES, rng.randrange(0, 3))})

def args_of(v): return (tuple(v.rets), dict(v.kwrets)) if is_values(v) else ((v,), {})

def mkfun(rng, log, i, arg, out, boom=False):
    """A function accepting exactly (args, kwargs), with a matching or a catch-all signature."""
    a, k = arg
    def impl(*args, **kwargs):
        log.append((i, args, kwargs))
        if boom: raise Boom(i)
        return out
    if rng.random() < 0.5: return impl
    ps = [f"a{j}" for j in range(len(a))]
    kn = list(k); rng.shuffle(kn)
    star = rng.random() < 0.5 and kn
    params = ps + (["*"] if star else []) + kn
    src = f"lambda {', '.join(params)}: impl({', '.join(ps + [f'{n}={n}' for n in kn])})"
    return eval(src, {"impl": impl})

@section(quick=6000, thorough=90000, require={"eager": 1200, "lazy": 1200, "multi": 1500, "forks": 800, "errors": 150, "reruns": 1500})
def pipelines(ctx, rng):
    one = rng.random() < 0.3
    start = rand_start(rng, one)
    n = rng.randrange(0, 6)
    log = []
    funs, outs = [], []
    v = start
    boom_at = rng.randrange(n) if n and rng.random() < 0.1 else None
    wlog = []
    for i in range(n):
        out = rand_out(rng, i, one)
        arg = ((v,), {}) if one else args_of(v)
        funs.append(mkfun(rng, log, i, arg, out, boom_at == i))
        if boom_at is None or i <= boom_at: wlog.append((i,) + arg)
        outs.append(out)
        v = out
    final = lambda v: v if one else unwrap(v)
    want = ("exc", Boom) if boom_at is not None else ("ok", final(v))
    if any(is_values(x) for x in outs + [start]): ctx.event("multi")
    if boom_at is not None: ctx.event("errors")
    def judge(r, what):
        ctx.check(r[0] == want[0] and (eqv(r[1], want[1]) if r[0] == "ok" else r[1] is want[1]), f"{what}: wrong result", got=r, want=want, start=start, outs=outs)
        ctx.check(log == wlog, f"{what}: wrong calls", got=log, want=wlog)
        log.clear()
    ctx.note(start=start, outs=outs, one=one)
    a, k = args_of(start)
    how = rng.choice(["pipe", "piped", "lazy", "lazy", "lazyargs"])
    if how == "pipe":
        ctx.event("eager")
        judge(outcome(pipe1 if one else pipe, start, *funs), "pipe1" if one else "pipe")
    elif how == "lazyargs":   # promises as initial value and as functions
        ctx.event("eager")
        runs = []
        pr = Lazy(lambda: (runs.append(1), start)[1])
        judge(outcome(pipe1 if one else pipe, pr, *[Lazy(lambda f=f: f) for f in funs]), "pipe with promises")
        ctx.check(len(runs) == 1 or boom_at is not None or (n and not a), "promise evaluated not exactly once", runs=runs)
    elif how == "piped":
        ctx.event("eager")
        def run():
            p = piped1(start) if one else piped(*a, **k)
            states = [p]
            for i, f in enumerate(funs):
                q = p | f
                ctx.check(q is not p and type(q) is type(p), "pipe object reused", i=i)
                ctx.check(len(log) == i + 1, "eager pipe did not call immediately", log=log, i=i)
                states.append(q)
                p = q
            r = p | exitpipe
            if states and rng.random() < 0.5:   # earlier states are unaffected
                keep = list(log)
                for j in rng.sample(range(len(states)), min(3, len(states))):
                    w = ([start] + outs)[j]
                    g = states[j] | exitpipe
                    ctx.check(eqv(g, final(w)), "a fork of a pipe changed the original", got=g, want=w)
                    # and a second branch from there
                    br = []
                    x = ((w,), {}) if one else args_of(w)
                    s = states[j] | (lambda *aa, **kk: (br.append((aa, kk)), "branch")[1]) | exitpipe
                    ctx.check(s == "branch" and br == [x], "branching from an earlier pipe", got=(s, br), want=x)
                    ctx.event("forks")
                log[:] = keep
            return r
        judge(outcome(run), "piped")
    else:
        ctx.event("lazy")
        p = lazy_piped1(start) if one else lazy_piped(*a, **k)
        states = [p]
        for f in funs:
            q = p | f
            ctx.check(q is not p, "lazy pipe mutated in place")
            states.append(q)
            p = q
        ctx.check(log == [], "lazy pipe called something before exitpipe", log=log)
        repr(p)
        for _ in range(rng.randrange(1, 4)):
            judge(outcome(lambda: p | exitpipe), "lazy_piped")
            ctx.event("reruns")
        if rng.random() < 0.5:
            j = rng.randrange(len(states))
            if boom_at is None or j <= boom_at:
                w = ([start] + outs)[j]
                x = ((w,), {}) if one else args_of(w)
                br = []
                b = states[j] | (lambda *aa, **kk: (br.append((aa, kk)), "branch")[1])
                s = b | exitpipe
                ctx.check(s == "branch" and br == [x] and len(log) == j, "branch of a lazy pipe", got=(s, br, log), want=x)
                log.clear()
                judge(outcome(lambda: p | exitpipe), "lazy_piped after a fork")
                ctx.event("forks")
    ctx.seen(one, how, n, tuple((len(o.rets), tuple(o.kwrets)) if is_values(o) else None for o in [start] + outs))

@section(quick=800, require={"state": 700})
def latest_state(ctx, rng):
    """The lazy variants look up the state of the (mutable) initial value at exit time, the eager ones at pipe time."""
    lst = [rng.randrange(9)]
    mult = rng.random() < 0.5
    add = [lambda l: l + [l[-1] + 1], lambda l: l + l[:1], lambda l: [x * 2 for x in l]]
    fs = [rng.choice(add) for _ in range(rng.randrange(1, 5))]
    def ref():
        v = list(lst)
        for f in fs: v = f(v)
        return v
    P = lazy_piped if mult else lazy_piped1
    E = piped if mult else piped1
    p, q = P(lst), E(lst)
    for f in fs: p, q = p | f, q | f
    w0 = ref()
    ctx.event("state")
    ctx.check((p | exitpipe) == w0 == (q | exitpipe), "initial evaluation")
    for _ in range(rng.randrange(1, 4)):
        lst.append(rng.randrange(100))
        ctx.check((p | exitpipe) == ref(), "lazy pipe did not use the latest state", got=p | exitpipe, want=ref())
        ctx.check((q | exitpipe) == w0, "eager pipe changed after the fact")
    ctx.seen(mult, len(fs), len(lst))

@section(quick=3000, thorough=50000, require={"passthrough": 1200, "exact": 500, "surplus": 300})
def pipe_curry(ctx, rng):
    """pipec: each function takes the leftmost arguments it declares, the rest is passed through on the right."""
    xs = [("x", j) for j in range(rng.randrange(1, 5))]
    start = Values(*xs) if len(xs) > 1 or rng.random() < 0.5 else xs[0]
    log, wlog, funs = [], [], []
    cur = list(xs)
    surplus = False
    n = rng.randrange(1, 6)
    for i in range(n):
        last = i == n - 1
        m = rng.randrange(1, len(cur) + 1)
        if last and rng.random() < 0.75: m = len(cur)
        outs = [("o", i, j) for j in range(rng.randrange(1, 4))]
        ret = outs[0] if len(outs) == 1 and rng.random() < 0.7 else Values(*outs)
        ps = [f"a{j}" for j in range(m)]
        f = eval(f"lambda {', '.join(ps)}: impl({', '.join(ps)})", {"impl": lambda *a, i=i, ret=ret: (log.append((i, a)), ret)[1]})
        if rng.random() < 0.3: f = curry(f)
        funs.append(f)
        wlog.append((i, tuple(cur[:m])))
        if m < len(cur):
            ctx.event("passthrough")
            if last: surplus = True
        cur = outs + cur[m:]
    ctx.note(xs=xs, log=wlog)
    r = outcome(pipec, start, *funs)
    if surplus:
        ctx.event("surplus")
        ctx.check(r == ("exc", TypeError), "pipec: surplus arguments to the last function", got=r)
        return
    ctx.event("exact")
    want = unwrap(Values(*cur))
    ctx.check(r[0] == "ok" and eqv(r[1], want), "pipec: wrong result", got=r, want=want)
    ctx.check(log == wlog, "pipec: wrong calls", got=log, want=wlog)
    ctx.seen(len(xs), tuple(len(a) for _, a in wlog), len(cur))

@section(quick=2500, thorough=30000, require={"begin": 900, "lazy": 900, "errors": 100})
def begins(ctx, rng):
    n = rng.randrange(0, 7)
    vals = [rng.choice([scalar(rng), None, [j], (lambda: "not to be called")]) for j in range(n)]
    if rng.random() < 0.5:
        ctx.event("begin")
        ctx.check(begin(*vals) is (vals[-1] if n else None), "begin", vals=vals)
        ctx.check(begin0(*vals) is (vals[0] if n else None), "begin0", vals=vals)
    else:
        boom = rng.randrange(n) if n and rng.random() < 0.2 else None
        for f, w in ((lazy_begin, vals[-1] if n else None), (lazy_begin0, vals[0] if n else None)):
            log = []
            def mk(j):
                def thunk():
                    log.append(j)
                    if j == boom: raise Boom()
                    return vals[j]
                return thunk
            r = outcome(f, *[mk(j) for j in range(n)])
            ctx.event("lazy")
            if boom is not None:
                ctx.event("errors")
                ctx.check(r == ("exc", Boom) and log == list(range(boom + 1)), "lazy_begin with an error", got=(r, log))
            else: ctx.check(r[0] == "ok" and r[1] is w and log == list(range(n)), "lazy_begin", got=(r, log), want=w)
    ctx.seen(n, tuple(type(v).__name__ for v in vals))
