"""C07: memoize: at most one execution per binding; same result object / exception instance."""
from vp import sched
sched.install()
from vp import gen
from vp.core import section
from unpythonic import memoize


class Boom(Exception):
    pass
class BoomBase(BaseException):
    pass


class Res:
    def __init__(self, key):
        self.key = key


def classify(f, args, kwargs):
    try:
        return ("ok", f(*args, **kwargs))
    except (Boom, BoomBase, KeyError, StopIteration, GeneratorExit) as e:
        return ("exc", e)


def fails(rng):
    """Which bindings raise, and what (decided per frozen key, reproducibly)."""
    p = rng.choice([0, 0.3, 0.6])
    table = {}
    def decide(key):
        if key not in table:
            table[key] = rng.choice([Boom, BoomBase, KeyError, StopIteration, GeneratorExit]) if rng.random() < p else None
        return table[key]
    return decide


def eqkey(b):
    return gen.freeze(b)


@section(quick=900, thorough=30000, require={"call": 2000, "exc_replay": 50, "hit": 300})
def histories(ctx, rng):
    """Single thread: random signature, random history of equivalent and different call shapes."""
    sig = gen.rand_sig(rng, value=gen.scalar)
    decide = fails(rng)
    runs, first = {}, {}
    kind = rng.choice(["function", "method", "lambda-like", "static"])
    def body(b):
        me = b.pop("self_", None)
        key = (id(me) if me is not None else None, eqkey(b))
        runs[key] = runs.get(key, 0) + 1
        exc = decide(key)
        if exc is not None:
            raise exc(str(runs[key]))
        return rng.choice([None, Res(key), 0, ""]) if rng.random() < 0.3 else Res(key)
    if kind == "method":
        raw = sig.make(lambda b: body(b), name="m", first="self_")
        # make() only reports the named params, so wrap to pass self
        ns = {}
        class K:
            pass
        import functools
        @functools.wraps(raw)
        def m(self_, *a, **k):
            b = sig.bind(a, k)
            b["self_"] = self_
            return body(b)
        K.m = memoize(m)
        insts = [K() for _ in range(rng.randrange(1, 4))]
        targets = [(i.m, i) for i in insts]
    elif kind == "static":
        raw = sig.make(body)
        class S:
            m = staticmethod(memoize(raw))
        targets = [(S.m, None), (S().m, None)]
    else:
        targets = [(memoize(sig.make(body)), None)]
    ctx.note(sig=sig.source(), kind=kind)
    bindings = []
    for step in range(rng.randrange(4, 14)):
        if bindings and rng.random() < 0.65:
            b = rng.choice(bindings)
            args, kwargs = gen.equivalent_call(rng, sig, b)
        else:
            args, kwargs = gen.rand_binding_call(rng, sig)
        b = sig.bind(args, kwargs)
        if b is None:
            continue
        bindings.append(b)
        f, me = rng.choice(targets)
        key = (id(me) if me is not None else None, eqkey(b))
        before = dict(runs)
        got = classify(f, args, kwargs)
        ctx.event("call")
        want_runs = dict(before)
        if key not in want_runs:
            want_runs[key] = 1
        ctx.check(runs == want_runs, "executions of the original differ from once per distinct binding",
                  call=(args, kwargs), sig=sig.source(), before=before, after=runs)
        if key in first:
            ctx.event("hit")
            ctx.check(first[key][0] == got[0] and first[key][1] is got[1], "repeated call did not give the same object / exception instance",
                      call=(args, kwargs), sig=sig.source(), first=first[key], got=got)
            if got[0] == "exc":
                ctx.event("exc_replay")
        else:
            first[key] = got
            want = decide(key)
            ctx.check((got[0] == "exc") == (want is not None) and (want is None or type(got[1]) is want), "wrong outcome of first call",
                      got=got, want=want)
    # invalid calls raise TypeError and run nothing
    bad_args = tuple(range(len(sig.positional) + 1)) if not sig.varargs else None
    if bad_args is not None and kind != "method":
        before = dict(runs)
        try:
            targets[0][0](*bad_args)
        except TypeError:
            pass
        else:
            ctx.violate("call with too many arguments accepted", args=bad_args, sig=sig.source())
        ctx.check(runs == before, "invalid call ran the original")
    ctx.seen(sig.source(), kind, len(bindings), tuple(sorted(runs.values())))
    ctx.sample({"sig": sig.source(), "kind": kind, "distinct_bindings": len(runs), "calls": len(bindings)})


@section(quick=300, thorough=8000, require={"recursive_call": 100})
def recursion(ctx, rng):
    """Recursive memoized functions over a random DAG; each node evaluated once."""
    n = rng.randrange(3, 25)
    succ = {i: sorted({rng.randrange(i) for _ in range(rng.randrange(0, 4))}) if i else [] for i in range(n)}
    runs = {}
    mutual = rng.random() < 0.4
    bad = {i for i in range(n) if rng.random() < 0.1}
    def mk(which):
        @memoize
        def f(i, w=1):
            runs[i, which] = runs.get((i, which), 0) + 1
            tot = w * i
            if i in bad:
                raise Boom(i)
            for j in succ[i]:
                ctx.event("recursive_call")
                g = fs[(which + j) % len(fs)]
                tot += g(j) if rng.random() < 0.5 else g(i=j, w=1)
            return tot
        return f
    fs = [mk(0)]
    if mutual:
        fs.append(mk(1))
    def ref(i, which, w=1):
        if i in bad:
            raise Boom(i)
        return w * i + sum(ref(j, (which + j) % len(fs)) for j in succ[i])
    for _ in range(4):
        i, which = rng.randrange(n), rng.randrange(len(fs))
        try:
            want = ("ok", ref(i, which))
        except Boom as e:
            want = ("exc", e.args)
        try:
            got = ("ok", fs[which](i))
        except Boom as e:
            got = ("exc", e.args)
        ctx.check(got == want, "recursive result differs", got=got, want=want, graph=succ, bad=bad)
        ctx.check(all(v == 1 for v in runs.values()), "a node was computed more than once", runs=runs, graph=succ)
    ctx.seen(tuple(map(tuple, succ.values())), mutual, tuple(sorted(bad)))
    ctx.sample({"graph": succ, "mutual": mutual})


@section(quick=500, thorough=12000, deadline=90, require={"concurrent_call": 1500, "switches": 3000, "contended": 100})
def threads(ctx, rng):
    """Controlled interleavings of concurrent calls with equal and different bindings."""
    nth = rng.randrange(2, 5)
    opc = rng.random() < 0.5
    keys = list(range(rng.randrange(1, 4)))
    bad = {k: rng.choice([Boom, KeyError, BoomBase]) for k in keys if rng.random() < 0.3}
    runs, running, maxrunning = {}, {}, {}
    deps = {k: rng.choice(keys[:k]) for k in keys if k and rng.random() < 0.4}
    @memoize
    def f(a, b=7, *args, **kw):
        key = a
        runs[key] = runs.get(key, 0) + 1
        running[key] = running.get(key, 0) + 1
        maxrunning[key] = max(maxrunning.get(key, 0), running[key])
        try:
            for _ in range(rng.randrange(1, 4)):
                sched.point()
            if key in deps:
                try:
                    f(deps[key])
                except (Boom, KeyError, BoomBase):
                    pass
            if key in bad:
                raise bad[key](key)
            return Res(key)
        finally:
            running[key] -= 1
    hist = []
    def task(calls):
        for key, shape in calls:
            t = S.steps
            r = classify(f, *(((key,), {}), ((), {"a": key}), ((key, 7), {}), ((), {"b": 7, "a": key}))[shape])
            hist.append((key, t, S.steps, r))
    S = sched.Sched(rng, opcodes=opc, p=rng.choice([0.15, 0.4, 0.8]))
    for _ in range(nth):
        S.spawn(task, [(rng.choice(keys), rng.randrange(4)) for _ in range(rng.randrange(1, 4))])
    try:
        res = S.run()
    except sched.Deadlock as e:
        ctx.violate(f"deadlock: {e}")
    except sched.NoProgress as e:
        ctx.violate(f"no progress: {e}")
    ctx.event("switches", S.switches)
    ctx.event("concurrent_call", len(hist))
    for r, e in res:
        ctx.check(e is None, "a concurrent call raised something the original did not", exc=e, trace=S.trace)
    ctx.check(all(v == 1 for v in runs.values()), "the original ran more than once for one binding", runs=runs, trace=S.trace, hist=hist)
    by = {}
    for key, s, e, r in hist:
        by.setdefault(key, []).append((s, e, r))
    for key, rs in by.items():
        ctx.check(all(r[2][1] is rs[0][2][1] and r[2][0] == rs[0][2][0] for r in rs), "callers with equal arguments got different objects",
                  key=key, hist=rs, trace=S.trace)
        ctx.check((rs[0][2][0] == "exc") == (key in bad), "wrong kind of outcome", key=key, hist=rs)
        if any(a is not b and a[0] < b[1] and b[0] < a[1] for a in rs for b in rs):
            ctx.event("contended")
    ctx.seen(nth, opc, tuple(S.trace[:200]))
    ctx.sample({"threads": nth, "opcodes": opc, "schedule_prefix": S.trace[:40], "runs": runs})


@section(quick=120, thorough=1500, deadline=90, require={"switches": 500})
def mutual_threads(ctx, rng):
    """Mutually recursive memoized functions entered from several threads."""
    runs = {}
    def mk(which):
        @memoize
        def f(i):
            runs[which, i] = runs.get((which, i), 0) + 1
            sched.point()
            return i + (fs[1 - which](i - 1) if i > 0 else 0)
        return f
    fs = [mk(0), mk(1)]
    S = sched.Sched(rng, p=0.4)
    plan = [(rng.randrange(2), rng.randrange(1, 4)) for _ in range(2)]
    for w, i in plan:
        S.spawn(fs[w], i)
    try:
        res = S.run()
    except sched.Deadlock as e:
        ctx.event("deadlocks")
        ctx.violate(f"deadlock of two mutually recursive memoized functions entered from two threads: {e}",
                    key="mutual-recursion-abba-deadlock", plan=plan, trace=S.trace)
    ctx.event("switches", S.switches)
    ctx.check(all(v == 1 for v in runs.values()), "the original ran more than once for one binding", runs=runs, trace=S.trace)
    for (w, i), (r, e) in zip(plan, res):
        ctx.check(e is None and r == i * (i + 1) // 2, "wrong result", got=(r, e), plan=plan)
    ctx.seen(tuple(plan), tuple(S.trace))
