"""C25: fix and fixtco against a reference interpreter with an explicit set of active calls, over random recursive call graphs."""
import threading
import typing
from vp.core import section, outcome
from unpythonic import fix, fixtco, jump, trampolined

class Boom(Exception): pass
DOM = 4   # argument values

def gen_expr(rng, nf, depth, tco):
    k = rng.choice(["const", "call", "call", "call", "tuple", "try", "raise" if rng.random() < 0.4 else "call"]) if depth else rng.choice(["const", "call"])
    if k == "const": return ("const", rng.randrange(100))
    if k == "call": return ("call", rng.randrange(nf), rng.randrange(DOM), rng.choice(["pos", "kw", "default", "both"]))
    if k == "tuple": return ("tuple", [gen_expr(rng, nf, depth - 1, tco) for _ in range(rng.randrange(1, 4))])
    if k == "try": return ("try", gen_expr(rng, nf, depth - 1, tco), gen_expr(rng, nf, depth - 1, tco))
    return ("raise",)

def gen_program(rng, tco):
    nf = rng.randrange(1, 4)
    prog = {}
    for f in range(nf):
        for a in range(DOM):
            b = gen_expr(rng, nf, 2, tco)
            if tco and rng.random() < 0.55: b = ("jump", gen_expr(rng, nf, 1, tco) if rng.random() < 0.3 else None, rng.randrange(nf), rng.randrange(DOM))
            elif rng.random() < 0.3: b = ("call", f, (a + 1) % DOM, "pos")
            prog[f, a] = b
    return nf, prog

class Ref:
    def __init__(self, prog, memo, bottom, tco, limit=4000):
        self.prog, self.memoized, self.bottom, self.tco, self.limit = prog, memo, bottom, tco, limit
        self.visited, self.memo, self.trace, self.bottoms, self.n = set(), {}, [], 0, 0
    def call(self, f, a, outer=True):
        if (f, a) in self.visited:
            self.bottoms += 1
            return self.bottom(f, a)
        self.visited.add((f, a))
        cleanup = set()
        try:
            if self.memoized and (f, a) in self.memo:
                k, v = self.memo[f, a]
                if k == "exc": raise v
                return v
            try: v = self.chain(f, a, cleanup)
            except Boom as e:
                self.memo[f, a] = ("exc", e); raise
            self.memo[f, a] = ("ok", v)
            return v
        finally:
            self.visited -= cleanup
            self.visited.discard((f, a))
    def chain(self, f, a, cleanup):
        while True:
            self.n += 1
            if self.n > self.limit: raise OverflowError
            self.trace.append((f, a))
            b = self.prog[f, a]
            if b[0] != "jump": return self.ev(b)
            if b[1] is not None: self.ev(b[1])
            f, a = b[2], b[3]
            if (f, a) in self.visited:
                self.bottoms += 1
                return self.bottom(f, a)
            self.visited.add((f, a)); cleanup.add((f, a))
    def ev(self, e):
        k = e[0]
        if k == "const": return e[1]
        if k == "call": return self.call(e[1], e[2])
        if k == "tuple": return tuple(self.ev(x) for x in e[1])
        if k == "try":
            try: return self.ev(e[1])
            except Boom: return ("caught", self.ev(e[2]))
        raise Boom()

def real(nf, prog, memo, bottom, tco, log, gate=None, positional=False):
    fs = []
    def ev(e):
        k = e[0]
        if k == "const": return e[1]
        if k == "call":
            f, a, form = fs[e[1]], e[2], e[3]
            if positional: return f(a)
            return {"pos": lambda: f(a), "kw": lambda: f(a=a), "default": lambda: f(a), "both": lambda: f(a, b=0)}[form]()
        if k == "tuple": return tuple(ev(x) for x in e[1])
        if k == "try":
            try: return ev(e[1])
            except Boom: return ("caught", ev(e[2]))
        raise Boom()
    def mk(i):
        def impl(a, b):
            log().append((i, a))
            if gate: gate(i, a)
            e = prog[i, a]
            if e[0] == "jump":
                if e[1] is not None: ev(e[1])
                return jump(fs[e[2]], e[3])
            return ev(e)
        ns = {"impl": impl}
        exec(f"def fun{i}(a, b=0): return impl(a, b)", ns)
        return ns[f"fun{i}"]
    deco = fixtco if tco else fix
    for i in range(nf):
        if bottom is None: d = deco(memo=memo) if not memo else deco()
        else: d = deco(bottom=bottom, memo=memo)
        fs.append(d(mk(i)))
    return fs

def eq(a, b): return a is b or (type(a) is type(b) and a == b)

@section(quick=4000, thorough=60000, require={"calls": 8000, "cycles": 3000, "acyclic": 1200, "exceptions": 500, "tco": 1500, "memo": 1500})
def call_graphs(ctx, rng):
    tco = rng.random() < 0.45
    nf, prog = gen_program(rng, tco)
    memo = rng.random() < 0.5
    bk = rng.choice(["none", "const", "call", "callable"])
    calls = []
    if bk == "none": bottom, rb = None, (lambda f, a: typing.NoReturn)
    elif bk == "const": bottom, rb = "⊥", (lambda f, a: "⊥")
    else:
        def bottom(name, *args, **kwargs):
            a = kwargs.get("a", args[0] if args else None)
            calls.append((name, a)); return ("bottom", name, a)
        rb = lambda f, a: ("bottom", f"fun{f}", a)
    log = []
    fs = real(nf, prog, memo, bottom, tco, lambda: log, positional=tco and memo)
    ref = Ref(prog, memo, rb, tco)
    ctx.note(prog=prog, memo=memo, bottom=bk, tco=tco)
    ctx.event("tco", tco); ctx.event("memo", memo)
    for _ in range(rng.randrange(1, 5)):
        f, a = rng.randrange(nf), rng.randrange(DOM)
        n0 = ref.bottoms
        ref.n = 0
        try: want = outcome(ref.call, f, a)
        except OverflowError: return
        if want == ("exc", OverflowError): return
        got = outcome(fs[f], a)
        ctx.event("calls")
        ctx.event("cycles" if ref.bottoms > n0 else "acyclic")
        if want[0] == "exc": ctx.event("exceptions")
        ctx.check(got[0] == want[0] and eq(got[1], want[1]), "wrong value", got=got, want=want, call=(f, a))
        ctx.check(log == ref.trace, "wrong sequence of function bodies run", got=log[:30], want=ref.trace[:30])
    ctx.seen(repr(prog), memo, bk, tco)

@section(quick=1500, thorough=15000, require={"concurrent": 900})
def threads(ctx, rng):
    """A call active in one thread does not make an equal call in another thread a cycle."""
    tco = rng.random() < 0.5
    nf, prog = gen_program(rng, tco)
    main = threading.get_ident()
    inside, release = threading.Event(), threading.Event()
    logs = threading.local()
    def log():
        if not hasattr(logs, "x"): logs.x = []
        return logs.x
    f, a = rng.randrange(nf), rng.randrange(DOM)
    k = rng.randrange(1, 4)
    count = [0]
    def gate(i, x):
        if threading.get_ident() != main:
            count[0] += 1
            if count[0] == k:
                inside.set(); release.wait(20)
    fs = real(nf, prog, False, "⊥", tco, log, gate)
    def ref(f, a):
        r = Ref(prog, False, lambda f, a: "⊥", tco)
        return outcome(r.call, f, a), r
    (want, rr) = ref(f, a)
    if want == ("exc", OverflowError): return
    res = []
    t = threading.Thread(target=lambda: (res.append(outcome(fs[f], a)), inside.set()))
    t.start()
    inside.wait(20)
    try:
        g, b = (f, a) if rng.random() < 0.6 else (rng.randrange(nf), rng.randrange(DOM))
        (w2, r2) = ref(g, b)
        if w2 != ("exc", OverflowError):
            got = outcome(fs[g], b)
            ctx.event("concurrent")
            ctx.check(got == w2, "a call in another thread disturbed this one", got=got, want=w2, prog=prog)
            ctx.check(log() == r2.trace, "bodies run", got=log()[:20], want=r2.trace[:20])
    finally:
        release.set(); t.join()
    ctx.check(res[0] == want, "a call in the main thread disturbed the other thread", got=res, want=want, prog=prog)
    ctx.seen(repr(prog), f, a, k)

@section(quick=60, require={"long": 40})
def long_chains(ctx, rng):
    n = rng.randrange(1200, 4000)
    @fixtco(memo=rng.random() < 0.5)
    def f(k): return jump(f, (k + 1) % n)
    ctx.check(f(rng.randrange(n)) is typing.NoReturn, "an infinite tail call cycle was not broken")
    hits = []
    @fixtco()
    def g(k):
        hits.append(k)
        return jump(g, k + 1) if k < n else ("done", k)
    ctx.check(g(0) == ("done", n) and hits == list(range(n + 1)), "a finite tail call chain under fixtco")
    # tail calls into an ordinary trampolined function, and back
    @trampolined
    def odd(k): return jump(even, k - 1) if k else False
    @fixtco()
    def even(k): return jump(odd, k - 1) if k else True
    ctx.check(even(n) == (n % 2 == 0), "mutual recursion with a trampolined function")
    ctx.event("long")
    ctx.seen(n)
