"""C26: raisef, tryf, reraise, reraise_in against the statements they replace; equip_with_traceback against the interpreter's stack; async_raise."""
import functools
import sys
import threading
import time
from vp.core import section, outcome
from unpythonic import raisef, tryf, equip_with_traceback, async_raise, reraise, reraise_in

class E0(Exception): pass
class E1(E0): pass
class E2(E0): pass
class E3(E1, E2): pass
class F0(Exception): pass
class Falsy(F0):
    def __bool__(self): return False
class Base(BaseException): pass
EXCS = [E0, E1, E2, E3, F0, Falsy, Base, ValueError, KeyError, LookupError, StopIteration, GeneratorExit, KeyboardInterrupt]
SPECS = EXCS + [Exception, BaseException]

def desc(e, depth=0):
    if e is None or depth > 12: return None
    return (type(e).__name__, e.args, desc(e.__cause__, depth + 1), desc(e.__context__, depth + 1), e.__suppress_context__)

def run(f):
    try: return ("ok", f())
    except BaseException as e: return ("exc", desc(e))

# ---------------------------------------------------------------------------------------
# Programs: an expression is evaluated by `ref` (with the statements) or by `fun` (with the functions).

class Gen:
    def __init__(self, rng): self.rng, self.n = rng, 0
    def id(self): self.n += 1; return self.n
    def spec(self):
        r = self.rng
        return r.choice(SPECS) if r.random() < 0.6 else tuple(r.choice(SPECS) for _ in range(r.randrange(0, 4)))
    def expr(self, d):
        r = self.rng
        k = r.choice(["val", "raise", "raise", "seq", "try", "try", "reraise", "reraise_in"]) if d else r.choice(["val", "raise", "raise", "again"])
        if k == "val": return ("val", self.id())
        if k == "raise":
            return ("raise", r.choice(EXCS), self.id(), r.choice([None, None, r.choice(EXCS), "inst"]), r.random() < 0.7)
        if k == "again": return ("again", self.id())
        if k == "seq": return ("seq", [self.expr(d - 1) for _ in range(r.randrange(1, 4))])
        if k == "try":
            return ("try", self.expr(d - 1), [(self.spec(), r.choice(["zero", "one", "one", "default", "var", "bound", "partial", "method0", "kwonly"]), self.expr(d - 1)) for _ in range(r.randrange(0, 4))],
                    self.expr(d - 1) if r.random() < 0.4 else None, self.expr(d - 1) if r.random() < 0.5 else None)
        m = {}
        for _ in range(r.randrange(0, 4)):
            m[self.spec()] = (r.choice(EXCS), self.id() if r.random() < 0.6 else None)
        return (k, self.expr(d - 1), m)

class Ev:
    def __init__(self, log): self.log, self.cur = log, []
    def make(self, cls, i): return cls(i)
    def ev(self, e):
        k = e[0]
        self.log.append((k, e[1] if k in ("val", "again") else None))
        if k == "val": return e[1]
        if k == "seq": return [self.ev(x) for x in e[1]]
        if k == "again":   # like a bare raise
            x = self.cur[-1] if self.cur else None
            if x is None: return ("none", e[1])
            self.raise_(x, None)
        if k == "raise":
            _, cls, i, cause, inst = e
            c = None if cause is None else Falsy(("c", i)) if cause == "inst" else cause(("c", i))
            self.raise_(cls(i) if inst else cls, c)
        return getattr(self, k)(*e[1:])

class Ref(Ev):
    def raise_(self, x, c):
        if c is not None: raise x from c
        raise x
    def try_(self, body, handlers, els, fin):
        try:
            try: ret = self.ev(body)
            except BaseException as exc:
                for spec, kind, h in handlers:
                    if isinstance(exc, spec):
                        withexc = kind not in ("zero", "method0", "kwonly")
                        self.log.append(("handler", withexc and desc(exc)))
                        self.cur.append(exc if withexc else None)
                        try: return self.ev(h)
                        finally: self.cur.pop()
                raise
            else:
                return self.ev(els) if els is not None else ret
        finally:
            if fin is not None: self.ev(fin)
    def reraise(self, body, m):
        try: return self.ev(body)
        except BaseException as exc:
            for spec, (cls, i) in m.items():
                if isinstance(exc, spec): raise (cls if i is None else cls(i)) from exc
            raise
    reraise_in = reraise
setattr(Ref, "try", Ref.try_)

class Fun(Ev):
    def raise_(self, x, c):
        if c is not None: raisef(x, cause=c)
        raisef(x)
    def try_(self, body, handlers, els, fin):
        hs = []
        for spec, kind, h in handlers:
            def run_h(exc, withexc, h):
                self.log.append(("handler", withexc and desc(exc)))
                self.cur.append(exc if withexc else None)
                try: return self.ev(h)
                finally: self.cur.pop()
            class H:
                def m1(self, exc, run_h=run_h, h=h): return run_h(exc, True, h)
                def m0(self, *, run_h=run_h, h=h): return run_h(None, False, h)
            f = {"zero": lambda run_h=run_h, h=h: None,
                 "one": lambda exc, *, run_h=run_h, h=h: run_h(exc, True, h),
                 "default": lambda exc=None, *, run_h=run_h, h=h: run_h(exc, True, h),
                 "var": lambda *a, run_h=run_h, h=h: run_h(*a, True, h),
                 "bound": H().m1, "method0": H().m0,
                 "kwonly": lambda *, run_h=run_h, h=h: run_h(None, False, h),
                 "partial": functools.partial(lambda h, run_h, exc: run_h(exc, True, h), h, run_h)}[kind]
            if kind == "zero":
                def f(*, run_h=run_h, h=h): return run_h(None, False, h)
            hs.append((spec, f))
        kw = {}
        if els is not None: kw["elsef"] = lambda: self.ev(els)
        if fin is not None: kw["finallyf"] = lambda: self.ev(fin)
        return tryf(lambda: self.ev(body), *hs, **kw)
    def mapping(self, m): return {spec: cls if i is None else cls(i) for spec, (cls, i) in m.items()}
    def reraise_in(self, body, m): return reraise_in(lambda: self.ev(body), self.mapping(m))
    def reraise(self, body, m):
        with reraise(self.mapping(m)):
            return self.ev(body)
setattr(Fun, "try", Fun.try_)

@section(quick=8000, thorough=80000, require={"value": 400, "exception": 2500, "handled": 350, "converted": 100, "unmatched": 400})
def programs(ctx, rng):
    p = Gen(rng).expr(rng.randrange(2, 6))
    la, lb = [], []
    want = run(lambda: Ref(la).ev(p))
    got = run(lambda: Fun(lb).ev(p))
    ctx.note(program=p)
    ctx.event("value" if want[0] == "ok" else "exception")
    ctx.event("handled", any(x[0] == "handler" for x in la))
    if want[0] == "exc":
        ctx.event("converted", p[0].startswith("reraise") and want[1][2] is not None)
        ctx.event("unmatched", any(x[0] == "try" for x in la))
    ctx.check(lb == la, "another sequence of bodies, handlers, else and finally blocks than the statements have", got=lb[-20:], want=la[-20:])
    ctx.check(got == want, "another result than that of the statements", got=got, want=want)
    ctx.seen(repr(p))

@section(quick=1500, thorough=15000, require={"badspec": 300, "identity": 700})
def identities(ctx, rng):
    """The exceptions are the very same instances; bad handler specifications are refused before the body runs."""
    cls = rng.choice(EXCS)
    exc = cls("x")
    kind = rng.randrange(6)
    if kind == 0:
        ctx.check(tryf(lambda: raisef(exc), (BaseException, lambda e: e)) is exc, "the handler got another object")
    elif kind == 1:
        try: tryf(lambda: raisef(exc), ((), lambda e: 1))
        except BaseException as e: ctx.check(e is exc, "another instance propagated", got=e)
        else: ctx.violate("an exception that matches no handler did not propagate")
    elif kind == 2:
        out = rng.choice(EXCS)("y")
        body = lambda: raisef(exc)
        def block():
            with reraise({cls: out}): body()
        f = rng.choice([block, lambda: reraise_in(body, {cls: out})])
        try: f()
        except BaseException as e:
            ctx.check(e is out and e.__cause__ is exc, "the converted exception is not the given instance, chained to the original", got=e)
        else: ctx.violate("nothing raised")
    elif kind == 3:
        def block():
            with reraise({(): E0, int if False else F0: E0}): raisef(exc)
        if issubclass(cls, F0): return
        try: block()
        except BaseException as e: ctx.check(e is exc and e.__cause__ is None, "an unmatched exception did not pass through unchanged", got=e)
        else: ctx.violate("an unmatched exception was swallowed")
    else:
        bad = rng.choice([42, "E", None, int, (E0, int), (E0, "x"), [E0], object(), E0("inst")])
        ran = []
        r = outcome(tryf, lambda: ran.append(1), (E0, lambda: 0), (bad, lambda: 0))
        ctx.event("badspec")
        ctx.check(r == ("exc", TypeError) and not ran, "a bad exception specification was not refused up front", got=r, bad=bad, ran=ran)
        return
    ctx.event("identity")
    # the block form does not disturb a body that ends normally, and gives no value
    with reraise({BaseException: E0}) as x: pass
    r = reraise_in(lambda: exc, {BaseException: E0})
    ctx.check(r is exc, "reraise_in lost the value of its body")
    ctx.seen(cls, kind)

# ---------------------------------------------------------------------------------------
@section(quick=1500, thorough=15000, require={"frames": 5000})
def tracebacks(ctx, rng):
    depth = rng.randrange(0, 12)
    lvl = rng.choice([0, 1, 1, 1, 2, 3, 5, 40, 10**6])
    exc = E0("x")
    if rng.random() < 0.3:   # an old traceback is replaced
        try: raise exc
        except E0: pass
    frames = []
    def go(k):
        if k: return go(k - 1)
        f = sys._getframe()
        while f is not None: frames.append(f); f = f.f_back
        line = sys._getframe().f_lineno + 1
        return equip_with_traceback(exc, stacklevel=lvl) if lvl != 1 else equip_with_traceback(exc), line
    r, line = go(depth)
    ctx.check(r is exc, "returned another exception")
    got = []
    tb = exc.__traceback__
    while tb is not None: got.append((tb.tb_frame, tb.tb_lineno)); tb = tb.tb_next
    got.reverse()   # innermost first
    if lvl == 0:
        ctx.check(got and got[0][0].f_code.co_name == "equip_with_traceback", "stacklevel 0 does not show the function itself", got=[f.f_code.co_name for f, _ in got[:3]])
        got = got[1:]
    want = frames[max(0, lvl - 1):]
    ctx.check([f for f, _ in got] == want, "not the frames of the caller's stack", got=[f.f_code.co_name for f, _ in got], want=[f.f_code.co_name for f in want], stacklevel=lvl)
    if lvl <= 1: ctx.check(got[0][1] == line, "wrong line number", got=got[0][1], want=line)
    ctx.event("frames", len(got))
    for a, kw, want in [((42,), {}, TypeError), ((E0,), {}, TypeError), ((exc,), {"stacklevel": -rng.randrange(1, 9)}, ValueError), ((exc,), {"stacklevel": "1"}, TypeError)]:
        ctx.check(outcome(lambda: equip_with_traceback(*a, **kw)) == ("exc", want), "bad arguments were not refused", args=a, kw=kw)
    ctx.seen(depth, lvl)

# ---------------------------------------------------------------------------------------
class Worker:
    def __init__(self):
        self.stop, self.got, self.ready = False, None, threading.Event()
        self.t = threading.Thread(target=self.run, daemon=True); self.t.start(); self.ready.wait(20)
    def run(self):
        try:
            self.ready.set()
            while not self.stop: time.sleep(0.0002)
        except BaseException as e: self.got = e
    def end(self):
        self.stop = True; self.t.join(20)

@section(quick=120, thorough=1500, deadline=60, require={"raised": 60, "refused": 60})
def asynchronous(ctx, rng):
    """async_raise reaches its target thread, and no other; it refuses threads that are not running, also when another thread has their ident."""
    ws = [Worker() for _ in range(rng.randrange(1, 5))]
    try:
        hit = {w: rng.choice([None, rng.choice([E0, E1, KeyboardInterrupt, Base, ValueError])]) for w in ws}
        for w, cls in hit.items():
            if cls is not None: ctx.check(async_raise(w.t, cls) is None, "gives a value")
        for w, cls in hit.items():
            if cls is not None:
                w.t.join(20)
                ctx.event("raised")
                ctx.check(type(w.got) is cls, "the exception did not reach the target thread", got=w.got, want=cls)
        for w, cls in hit.items():
            if cls is None:
                w.end()
                ctx.check(w.got is None, "the exception reached another thread", got=w.got)
        # all have ended now
        fresh = [Worker() for _ in range(3)]
        try:
            for w in ws:
                if w.t.is_alive(): continue
                r = outcome(async_raise, w.t, E2)
                ctx.event("refused"); ctx.event("recycled ident", any(x.t.ident == w.t.ident for x in fresh))
                ctx.check(r == ("exc", ValueError), "a thread that has ended was not refused", got=r)
            r = outcome(async_raise, threading.Thread(target=lambda: None), E2)
            ctx.check(r == ("exc", ValueError), "a thread that was not started was not refused", got=r)
            r = outcome(async_raise, rng.choice([42, None, "thread", object()]), E2)
            ctx.check(r == ("exc", TypeError), "an object that is no thread was not refused", got=r)
            time.sleep(0.002)
        finally:
            for x in fresh: x.end()
        for x in fresh: ctx.check(x.got is None, "an exception for a thread that has ended reached another one", got=x.got)
    finally:
        for w in ws: w.end()
    ctx.seen(tuple(map(str, hit.values())))

@section(quick=3, require={"instances": 2})
def async_instance(ctx, rng):
    """According to its documentation, async_raise takes an exception instance, too."""
    w = Worker()
    exc = E0("x")
    r = outcome(async_raise, w.t, exc)
    w.t.join(20); w.end()
    ctx.event("instances")
    if r == ("ok", None):
        ctx.check(w.got is exc, "an exception instance given to async_raise is not what is raised in the target thread", key="async-raise-instance", got=w.got)
