"""C08: memoized generators: every item computed once, seen by every consumer at its position."""
from vp import sched
sched.install()
from vp import gen
from vp.core import section
from unpythonic import gmemoize, imemoize, fimemoize


class Boom(Exception):
    pass
class BoomBase(BaseException):
    pass

KINDS = [None, None, Boom, BoomBase, KeyError, GeneratorExit]


class Item:
    """Identity-bearing item (sometimes falsy values are used instead)."""
    def __init__(self, key, i):
        self.key, self.i = key, i
    def __repr__(self):
        return f"I{self.key, self.i}"


class Source:
    """Script of one sequence: items, then either end (with a return value) or an exception."""
    def __init__(self, rng, key, log):
        n = rng.randrange(0, 7)
        self.items = [rng.choice([None, 0, "", False]) if rng.random() < 0.15 else Item(key, i) for i in range(n)]
        self.exc = rng.choice(KINDS)
        self.excobj = None
        self.ret = rng.choice([None, 42])
        self.key, self.log = key, log
        self.made = 0

    def gen(self):
        self.made += 1
        for i, x in enumerate(self.items):
            sched.point()
            self.log.append((self.key, i))
            sched.point()
            yield x
        self.log.append((self.key, len(self.items)))
        if self.exc is not None:
            self.excobj = self.exc("end")
            raise self.excobj
        return self.ret

    def expect(self, i):
        """Outcome at position i."""
        if i < len(self.items):
            return ("ok", self.items[i])
        if i == len(self.items) and self.exc is not None:
            return ("exc", self.exc)
        return ("stop", None)


def make(rng, sources_by_key, kind):
    """A memoized gfunc f(a, b=0, ...) over the scripted sources, keyed by its first argument."""
    if kind == "gmemoize":
        @gmemoize
        def f(a, b=0, *, c=1):
            return (yield from sources_by_key[a, b, c].gen())
    elif kind == "fimemoize":
        @fimemoize
        def f(a, b=0, *, c=1):
            return sources_by_key[a, b, c].gen()
    else:
        (k, src), = sources_by_key.items()
        g = imemoize(src.gen())
        def f(a, b=0, *, c=1):
            return g()
    return f


def shapes(rng, key):
    a, b, c = key
    opts = [((a, b), {"c": c}), ((), {"c": c, "b": b, "a": a}), ((a,), {"b": b, "c": c})]
    if b == 0:
        opts.append(((a,), {"c": c}))
    if b == 0 and c == 1:
        opts.append(((), {"a": a}))
        opts.append(((a,), {}))
    return rng.choice(opts)


def step(g):
    try:
        return ("ok", next(g))
    except StopIteration as e:
        return ("stop", e.value)
    except (Boom, BoomBase, KeyError, GeneratorExit) as e:
        return ("exc", e)


def judge(ctx, src, pos, got, firstexc, **w):
    want = src.expect(pos)
    ctx.check(got[0] == want[0], "wrong outcome at this position", got=got, want=want, pos=pos, key=src.key, **w)
    if got[0] == "ok":
        ctx.check(got[1] is want[1], "wrong item at this position", got=got, want=want, pos=pos, key=src.key, **w)
    elif got[0] == "exc":
        ctx.check(type(got[1]) is want[1] and got[1] is src.excobj, "not the exception raised while computing this item", got=got, want=want, pos=pos, **w)


@section(quick=1500, thorough=40000, require={"next": 5000, "index": 1000, "slice": 800, "end_seen": 300, "exc_seen": 300})
def histories(ctx, rng):
    """One thread, many consumers, random interleaving of next / index / slice / len."""
    kind = rng.choice(["gmemoize", "fimemoize", "imemoize"])
    log = []
    keys = [(a, b, c) for a in (1, 2) for b in (0, 5) for c in (1, 2)]
    keys = rng.sample(keys, 1 if kind == "imemoize" else rng.randrange(1, 4))
    srcs = {k: Source(rng, k, log) for k in keys}
    f = make(rng, srcs, kind)
    cons = []   # [gen, key, pos]
    have = {k: 0 for k in keys}   # number of computed positions
    ended = {k: False for k in keys}
    ctx.note(kind=kind, keys=keys)
    hist = []
    for _ in range(rng.randrange(5, 45)):
        op = rng.random()
        if not cons or op < 0.2:
            k = rng.choice(keys)
            a, kw = shapes(rng, k)
            before = list(log)
            cons.append([f(*a, **kw), k, 0])
            ctx.check(iter(cons[-1][0]) is cons[-1][0], "a memoized generator is not its own iterator")
            ctx.check(log == before, "creating an instance computed something")
            hist.append(("new", k))
            continue
        c = rng.choice(cons)
        g, k, pos = c
        src = srcs[k]
        before = list(log)
        if op < 0.75:
            got = step(g)
            hist.append(("next", k, pos, got))
            ctx.event("next")
            total = len(src.items)
            fresh = pos >= have[k] and not ended[k]
            want_log = before + ([(k, pos)] if fresh and not (pos == total + 1) else [])
            if pos > total:   # beyond an exception item: just the end again
                want_log = before
            ctx.check(log == want_log, "underlying iterator was advanced when it should not (or not when it should)", log=log, want=want_log, hist=hist[-10:])
            judge(ctx, src, pos, got, None, hist=hist[-10:])
            if got[0] == "stop":
                ctx.event("end_seen")
                ended[k] = True
                if pos >= 0 and src.exc is None and kind != "imemoize" and kind != "fimemoize" and fresh:
                    ctx.check(got[1] == src.ret, "return value lost", got=got)
            else:
                have[k] = max(have[k], pos + 1)
                c[2] += 1
                if got[0] == "exc":
                    ctx.event("exc_seen")
        else:
            n = have[k]
            known = [src.expect(i) for i in range(n)]
            ctx.check(len(g) == n, "len is not the number of computed items", got=len(g), want=n, hist=hist[-10:])
            if op < 0.88:
                i = rng.randrange(-n - 2, n + 3)
                ctx.event("index")
                if -n <= i < n:
                    try:
                        got = ("ok", g[i])
                    except (Boom, BoomBase, KeyError, GeneratorExit) as e:
                        got = ("exc", e)
                    judge(ctx, src, i % n, got, None, hist=hist[-10:])
                else:
                    try:
                        x = g[i]
                    except IndexError:
                        pass
                    else:
                        ctx.violate("index out of the computed part accepted", index=i, n=n, got=x)
            else:
                def r(): return rng.choice([None, rng.randrange(-n - 2, n + 3)])
                sl = slice(r(), r(), rng.choice([None, 1, 2, -1, -2]))
                ctx.event("slice")
                sel = list(range(n))[sl]
                excs = [i for i in sel if known[i][0] == "exc"]
                try:
                    got = g[sl]
                except (Boom, BoomBase, KeyError, GeneratorExit) as e:
                    ctx.check(excs and e is src.excobj, "slice raised wrongly", sl=sl, known=known, exc=e)
                else:
                    ctx.check(not excs, "slice hid an exception", sl=sl)
                    ctx.check(isinstance(got, list) and len(got) == len(sel) and all(x is known[i][1] for x, i in zip(got, sel)),
                              "slice shows wrong items", sl=sl, got=got, want=[known[i][1] for i in sel])
            ctx.check(log == before, "indexing advanced the underlying iterator")
        ctx.check(all(s.made <= 1 for s in srcs.values()), "more than one underlying generator", made={k: s.made for k, s in srcs.items()})
    ctx.check(len(set(log)) == len(log), "an item was computed twice", log=log)
    ctx.seen(kind, tuple(h[:3] for h in hist))
    ctx.sample({"kind": kind, "keys": keys, "computed": log[:10], "history": hist[:6]})


@section(quick=900, thorough=20000, deadline=90, require={"items": 3000, "switches": 8000, "shared_instance": 100})
def threads(ctx, rng):
    """Concurrent consumers (own instances or one shared instance) under controlled interleavings."""
    kind = rng.choice(["gmemoize", "fimemoize", "imemoize"])
    log = []
    keys = [(a, 0, 1) for a in range(1 if kind == "imemoize" else rng.randrange(1, 3))]
    srcs = {k: Source(rng, k, log) for k in keys}
    f = make(rng, srcs, kind)
    shared_mode = rng.random() < 0.4
    S = sched.Sched(rng, opcodes=rng.random() < 0.5, p=rng.choice([0.1, 0.3, 0.7]))
    out = []
    shared = f(keys[0][0]) if shared_mode else None
    def consumer(k, n, lst):
        g = shared if shared_mode else f(k[0])
        for _ in range(n):
            lst.append(step(g))
            sched.point()
    for _ in range(rng.randrange(2, 5)):
        k = keys[0] if shared_mode else rng.choice(keys)
        lst = []
        out.append((k, lst))
        S.spawn(consumer, k, rng.randrange(1, 9), lst)
    try:
        res = S.run()
    except sched.Deadlock as e:
        ctx.violate(f"deadlock: {e}")
    except sched.NoProgress as e:
        ctx.violate(f"no progress: {e}")
    ctx.event("switches", S.switches)
    for r, e in res:
        ctx.check(e is None, "consumer thread raised", exc=e, trace=S.trace[:200])
    ctx.check(len(set(log)) == len(log), "an item was computed twice", log=log, trace=S.trace[:200])
    ctx.check(all(s.made <= 1 for s in srcs.values()), "more than one underlying generator was run", made={k: s.made for k, s in srcs.items()}, trace=S.trace[:200])
    for k in keys:
        mine = [i for kk, i in log if kk == k]
        ctx.check(mine == list(range(len(mine))), "items computed out of order", log=log)
        need = 0
        if not shared_mode:
            need = max([sum(1 for o in lst) for kk, lst in out if kk == k], default=0)
        else:
            need = sum(len(lst) for kk, lst in out)
        ctx.check(len(mine) <= min(need, len(srcs[k].items) + 1), "more items computed than any consumer needed", mine=mine, need=need)
    if shared_mode:
        ctx.event("shared_instance")
        src = srcs[keys[0]]
        got = [o for k, lst in out for o in lst]
        ctx.event("items", len(got))
        vals = [o for o in got if o[0] != "stop"]
        want = [src.expect(i) for i in range(min(len(got), len(src.items) + (src.exc is not None)))]
        def ident(o):
            return (o[0], id(o[1]) if o[0] == "ok" else None)
        ctx.check(sorted(map(ident, vals)) == sorted(map(ident, want)), "a shared instance must hand out each position exactly once",
                  got=got, want=want, trace=S.trace[:200])
    else:
        for k, lst in out:
            for pos, o in enumerate(lst):
                ctx.event("items")
                judge(ctx, srcs[k], pos, o, None, trace=S.trace[:200])
    ctx.seen(kind, shared_mode, tuple(S.trace[:200]))
    ctx.sample({"kind": kind, "shared_instance": shared_mode, "schedule_prefix": S.trace[:30], "computed": log})


@section(quick=200, thorough=4000, require={"reentry": 500})
def recursive(ctx, rng):
    """Recursively defined sequences: the generator consumes earlier items of its own memoized sequence."""
    n = rng.randrange(3, 30)
    coef = [rng.randrange(-2, 3) for _ in range(rng.randrange(1, 4))]
    calls = []
    @gmemoize
    def seq(a):
        calls.append(a)
        for i in range(len(coef)):
            yield a + i
        for i in range(len(coef), n):
            me = seq(a) if rng.random() < 0.5 else seq(a=a)
            prev = []
            for j in range(i):
                ctx.event("reentry")
                prev.append(next(me))
            yield sum(c * x for c, x in zip(coef, prev[-len(coef):])) % 997
    def ref(a):
        out = [a + i for i in range(len(coef))]
        while len(out) < n:
            out.append(sum(c * x for c, x in zip(coef, out[-len(coef):])) % 997)
        return out[:max(n, len(coef))]
    for a in rng.sample(range(5), 2):
        for _ in range(2):
            got = list(seq(a))
            ctx.check(got == ref(a), "recursively defined sequence differs", got=got, want=ref(a), coef=coef)
    ctx.check(len(calls) == 2, "generator restarted", calls=calls)
    ctx.seen(n, tuple(coef))
    ctx.sample({"n": n, "coef": coef})


@section(quick=120, thorough=1500, deadline=90, require={"switches": 500})
def mutual_threads(ctx, rng):
    """Mutually recursive memoized sequences consumed from several threads."""
    log = []
    def mk(which):
        @gmemoize
        def seq():
            log.append((which, 0))
            yield 1
            other = seqs[1 - which]()
            for i in range(1, 4):
                sched.point()
                x = next(other)
                log.append((which, i))
                yield x + 1
        return seq
    seqs = [mk(0), mk(1)]
    S = sched.Sched(rng, p=0.4)
    plan = [(rng.randrange(2), rng.randrange(1, 5)) for _ in range(2)]
    def consume(w, n):
        g = seqs[w]()
        return [next(g) for _ in range(n)]
    for w, n in plan:
        S.spawn(consume, w, n)
    try:
        res = S.run()
    except sched.Deadlock as e:
        ctx.event("deadlocks")
        ctx.violate(f"deadlock of two mutually recursive memoized sequences consumed from two threads: {e}",
                    key="mutual-recursion-abba-deadlock", plan=plan, trace=S.trace)
    ctx.event("switches", S.switches)
    ctx.check(len(set(log)) == len(log), "an item was computed twice", log=log, trace=S.trace)
    for (w, n), (r, e) in zip(plan, res):
        ctx.check(e is None and r == [1, 2, 3, 4][:n], "wrong items", got=(r, e), plan=plan)
    ctx.seen(tuple(plan), tuple(S.trace))
