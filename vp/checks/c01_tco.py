"""C01: trampolined tail calls against a plain-call reference; stack depth and unclaimed-jump monitors."""
import functools
import gc
import os
import sys
import tempfile

from vp.core import section
from unpythonic import trampolined, jump, withself


class Boom(Exception):
    pass


class Stderr:
    """Capture fd 2 (the warning goes to whatever stream the library considers stderr)."""
    def __enter__(self):
        sys.stderr.flush()
        self.f = tempfile.TemporaryFile()
        self.save = os.dup(2)
        os.dup2(self.f.fileno(), 2)
        return self
    def __exit__(self, *a):
        gc.collect(0)
        sys.stderr.flush()
        os.dup2(self.save, 2)
        os.close(self.save)
        self.f.seek(0)
        self.text = self.f.read().decode("utf-8", "replace")
        self.f.close()


def depth():
    f, n = sys._getframe(1), 0
    while f is not None:
        n += 1
        f = f.f_back
    return n


# -- random programs -------------------------------------------------------------
# function kinds: T trampolined, uses jump; U not trampolined, uses jump, entered by jump only; P plain calls only
def make_script(rng, nfun):
    funs = []
    for i in range(nfun):
        funs.append({"kind": "T" if i == 0 else rng.choice("TTTUP"), "steps": [], "form": rng.choice(["def", "lambda", "method", "obj", "classmethod", "static"])})
    for f in funs:
        if f["kind"] == "U" and f["form"] in ("classmethod", "static"):
            f["form"] = "def"
        if f["kind"] != "P" and rng.random() < 0.5:
            f["form"] = "def"
        for _ in range(rng.randrange(0, 3)):
            # non-tail call (of something that can be called normally)
            f["steps"].append(("call", None))
        tails = []
        for _ in range(rng.randrange(1, 4)):
            tails.append(rng.choices(["tail", "ret", "raise", "builtin", "noncallable"], [12, 3, 1, 1, 0.4])[0])
        f["tails"] = tails
    callable_ids = [i for i, f in enumerate(funs) if f["kind"] in "TP"]
    for f in funs:
        f["steps"] = [("call", rng.choice(callable_ids)) for _ in f["steps"]]
        f["targets"] = [rng.randrange(nfun) if f["kind"] in "TU" else rng.choice(callable_ids) for _ in f["tails"]]
        f["shape"] = [rng.randrange(5) for _ in f["tails"]]
    return funs


def shape_args(shape, n, acc, tag):
    if shape == 0: return (n, acc), {}
    if shape == 1: return (n,), {"acc": acc}
    if shape == 2: return (), {"acc": acc, "n": n}
    if shape == 3: return (n, acc, tag, tag), {}
    return (n, acc), {"extra": tag, "zeta": n}


def build(funs, log, budget, real):
    """Build the functions; `real`: with trampolined/jump, else the plain-call reference."""
    F = [None] * len(funs)
    def bodyof(i):
        f = funs[i]
        def body(n, acc=0, *args, **kw):
            if len(log) > budget:
                return ("budget", acc)
            log.append((i, n, acc, args, tuple(sorted(kw.items())), depth() if real else None))
            if n <= 0:
                return ("done", i, acc)
            for j, (_, t) in enumerate(f["steps"]):
                try:
                    r = F[t](max(0, n // 3 - 1), acc + j)
                except Boom as e:
                    r = ("caught", e.args)
                except RuntimeError as e:
                    r = ("rt",)
                log.append(("r", i, r))
                acc += 1
            k = n % len(f["tails"])
            what, tgt = f["tails"][k], f["targets"][k]
            usejump = real and f["kind"] in "TU"
            if what == "ret":
                return ("ret", i, acc, args, tuple(sorted(kw)))
            if what == "raise":
                raise Boom(i, n)
            if what == "builtin":
                return jump(max, n, acc) if usejump else max(n, acc)
            if what == "noncallable":
                if usejump:
                    return jump(("not callable", n))
                raise RuntimeError
            a, k2 = shape_args(f["shape"][k], n - 1, acc + 1, (i, n))
            return jump(F[tgt], *a, **k2) if usejump else F[tgt](*a, **k2)
        return body
    for i, f in enumerate(funs):
        b = bodyof(i)
        b.__name__ = f"fun{i}"
        deco = trampolined if (real and f["kind"] == "T") else (lambda x: x)
        form = f["form"]
        if form == "def":
            F[i] = deco(b)
        elif form == "lambda":
            F[i] = deco(lambda *a, b=b, **k: b(*a, **k))
        elif form == "method":
            class K:
                @deco
                def m(self, *a, _b=b, **k):
                    return _b(*a, **k)
            F[i] = K().m
        elif form == "classmethod":
            class K2:
                @classmethod
                @deco
                def m(cls, *a, _b=b, **k):
                    return _b(*a, **k)
            F[i] = K2.m
        elif form == "static":
            class K3:
                @staticmethod
                @deco
                def m(*a, _b=b, **k):
                    return _b(*a, **k)
            F[i] = K3.m
        else:
            class O:
                def __init__(self, b):
                    self.b = b
                def __call__(self, *a, **k):
                    return self.b(*a, **k)
            F[i] = deco(functools.partial(O(b)) if False else b)
    return F


def run(f, *a, **k):
    try:
        return ("ok", f(*a, **k))
    except Boom as e:
        return ("boom", e.args)
    except RuntimeError:
        return ("rt",)


@section(quick=3000, thorough=60000, require={"calls": 20000, "jump_to_noncallable": 20})
def programs(ctx, rng):
    funs = make_script(rng, rng.randrange(1, 6))
    n = rng.randrange(0, 25)
    ctx.note(funs=funs, n=n)
    log1, log2 = [], []
    R = build(funs, log1, 400, False)
    old = sys.getrecursionlimit()
    sys.setrecursionlimit(20000)
    try:
        want = run(R[0], n, 0)
        G = build(funs, log2, 400, True)
        with Stderr() as err:
            got = run(G[0], n, 0)
    finally:
        sys.setrecursionlimit(old)
    strip = [(e[:5] if e[0] != "r" else e) for e in log2]
    strip1 = [(e[:5] if e[0] != "r" else e) for e in log1]
    ctx.event("calls", len(strip))
    if want[0] == "rt" or any(f["tails"][k] == "noncallable" for f in funs for k in range(len(f["tails"]))):
        ctx.event("jump_to_noncallable")
    ctx.check(strip == strip1, "order of effects or delivered arguments differ from ordinary calls", got=strip[:60], want=strip1[:60])
    ctx.check(got == want, "result differs from ordinary calls", got=got, want=want)
    if not any("noncallable" in f["tails"] for f in funs):
        ctx.check("unclaimed" not in err.text, "a performed jump was reported as unclaimed", stderr=err.text[:500])
    ctx.seen(repr(funs), n)
    ctx.sample({"functions": [(f["kind"], f["form"], f["tails"]) for f in funs], "n": n, "events": len(strip)})


@section(quick=400, thorough=6000, require={"deep_calls": 100000})
def deep(ctx, rng):
    """Long tail chains: depth seen by the targets stays constant; ordinary calls nest on top of it."""
    k = rng.randrange(1, 5)
    n = rng.choice([200, 1000, 3000, 7000])
    forms = [rng.choice(["T", "T", "U", "partial", "method", "withself", "cls"]) for _ in range(k)]
    forms[0] = "T"
    depths = []
    F = [None] * k
    nested = rng.random() < 0.3
    kw = rng.random() < 0.5
    raise_end = rng.random() < 0.2
    def mk(i):
        def f(n, acc=0):
            depths.append(depth())
            if n == 0:
                if raise_end:
                    raise Boom(acc)
                return acc
            if nested and n % 500 == 0:
                before = len(depths)
                inner = F[0](60, acc=0) if not raise_end else None
                del depths[before:]
            t = F[(i + 1) % k]
            return jump(t, n - 1, acc + 1) if not kw else jump(t, acc=acc + 1, n=n - 1)
        return f
    for i, form in enumerate(forms):
        f = mk(i)
        if form == "T":
            F[i] = trampolined(f)
        elif form == "U":
            F[i] = f
        elif form == "partial":
            F[i] = functools.partial(f)
        elif form == "withself":
            F[i] = trampolined(withself(lambda self, n, acc=0, f=f: f(n, acc)))
        elif form == "method":
            class M:
                @trampolined
                def m(self, n, acc=0, f=f):
                    return f(n, acc)
            F[i] = M().m
        else:
            class C:
                def __call__(self, n, acc=0, f=f):
                    return f(n, acc)
            F[i] = C()
    with Stderr() as err:
        got = run(F[0], n)
    want = ("boom", (n,)) if raise_end else ("ok", n)
    ctx.event("deep_calls", len(depths))
    ctx.check(got == want, "wrong result of a long tail-call chain", got=got, want=want, forms=forms, n=n)
    ctx.check(max(depths) - min(depths) <= 8, "call stack grows with the number of tail calls", lo=min(depths), hi=max(depths), n=n, forms=forms)
    ctx.check("unclaimed" not in err.text, "a performed jump was reported as unclaimed", stderr=err.text[:300])
    ctx.seen(tuple(forms), n, kw, nested, raise_end)
    ctx.sample({"forms": forms, "n": n, "depth_spread": max(depths) - min(depths)})


@section(quick=800, thorough=8000, require={"unclaimed": 100, "noncallable": 100, "value": 100})
def edge(ctx, rng):
    @trampolined
    def f(*a, **k):
        "doc"
        return (a, k)
    ctx.check(f.__name__ == "f" and f.__doc__ == "doc", "wrapper lost its name or docstring")
    which = rng.randrange(4)
    a, k = tuple(rng.randrange(9) for _ in range(rng.randrange(3))), {x: 1 for x in rng.sample(["p", "q", "target", "args", "function"][:4], rng.randrange(3))}
    k.pop("target", None)
    if which == 0:   # jump without return: reported on stderr, exactly once, and does nothing
        ran = []
        @trampolined
        def g():
            jump(lambda: ran.append(1))
            return "v"
        with Stderr() as err:
            r = g()
        ctx.event("unclaimed")
        ctx.check(r == "v" and not ran, "an unreturned jump was performed")
        ctx.check(err.text.count("nclaimed") == 1, "unclaimed jump not reported on stderr (exactly once)", stderr=err.text)
        with Stderr() as err:
            jump(f, *a, **k)
        ctx.check(err.text.count("nclaimed") == 1, "unclaimed jump not reported on stderr (exactly once)", stderr=err.text)
    elif which == 1:
        ctx.event("noncallable")
        bad = rng.choice([None, 42, "f", (1, 2), [f]])
        @trampolined
        def g():
            return jump(bad, *a, **k)
        with Stderr():
            r = run(g)
        ctx.check(r == ("rt",), "jump to a non-callable must raise RuntimeError", got=r, target=bad)
    elif which == 2:  # trampolined applied to a value
        ctx.event("value")
        v = rng.choice([None, 42, "x", (1, 2)])
        ctx.check(trampolined(v) is v, "trampolined of a value must be that value", got=trampolined(v), want=v)
        with Stderr() as err:
            ctx.same(trampolined(jump(f, *a, **k)), (a, k), "trampolined of a jump must perform it")
        ctx.check("nclaimed" not in err.text, "performed jump reported as unclaimed", stderr=err.text)
    else:
        ctx.same(f(*a, **k), (a, k), "arguments not delivered")
        h = trampolined(lambda: jump(f, *a, **k))
        ctx.same(h(), (a, k), "arguments not delivered by jump")
        # several threads of control: trampolines nest
        g = trampolined(lambda n: jump(g, n - 1) if n else h())
        ctx.same(g(5), (a, k), "nested trampolines")
    ctx.seen(which, a, tuple(k))
