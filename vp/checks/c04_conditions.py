"""C04: condition system: random handler/restart programs against a dynamic-scope reference interpreter."""
from vp import sched
sched.install()
from vp.core import section, Violation  # noqa: E402
from unpythonic import (signal, handlers, restarts, with_restarts, invoke, find_restart, use_value,  # noqa: E402
                        available_restarts, available_handlers, unbox, box, invoker)
from unpythonic.conditions import ControlError  # noqa: E402


class A(Exception): pass
class B(A): pass
class C(B): pass
class D(Exception): pass
class E(B, D): pass
class W(UserWarning): pass
class K(BaseException): pass
class Boom(Exception): pass
CONDS = [A, B, C, D, E, W, K]
SPECS = [A, B, C, D, E, W, K, Exception, BaseException, (A, D), (C, W), (D, K, B), (Exception,)]
NAMES = ["use_value", "skip", "retry", "proceed"]
MAXDEPTH = 3


def gen(rng, d, inh=False):
    if d <= 0 or rng.random() < 0.12:
        k = rng.randrange(12)
        if k < 6:
            return ("signal", rng.choice(CONDS), rng.randrange(4), rng.random() < 0.3)
        if k < 8:
            return ("avail",)
        if k == 8:
            return ("raise",)
        if k == 9 and not inh:
            return ("invoke", rng.choice(NAMES), args(rng))
        return ("log", rng.randrange(100))
    k = rng.randrange(11)
    if k == 10:
        return ("find", rng.choice(NAMES), gen(rng, d - 1, inh))
    if k < 3:
        hs = [(rng.choice(SPECS), rng.randrange(3), gen_h(rng, d - 1)) for _ in range(rng.randrange(0, 4))]
        return ("handlers", hs, gen(rng, d - 1, inh))
    if k < 6:
        names = rng.sample(NAMES, rng.randrange(0, 4))
        return ("restarts", {n: rng.choice(["ret", "ret", "shared", "shared", "raise", "strict"]) for n in names}, rng.randrange(3), gen(rng, d - 1, inh))
    if k == 6:
        return ("except", gen(rng, d - 1, inh))
    if k == 7:
        return ("finally", gen(rng, d - 1, inh))
    return ("seq", [gen(rng, d - 1, inh) for _ in range(rng.randrange(1, 4))])


def args(rng):
    return (tuple(rng.randrange(9) for _ in range(rng.randrange(3))), {"k": rng.randrange(9)} if rng.random() < 0.3 else {})


def gen_h(rng, d):
    k = rng.randrange(12)
    if k < 4:
        return ("decline",)
    if k < 8:
        return ("invoke", rng.choice(NAMES), args(rng), rng.random() < 0.8)
    if k == 8:
        return ("invobj", rng.choice(NAMES), args(rng))
    if k == 9:
        return rng.choice([("raise",), ("invslot", args(rng)), ("invslot", args(rng))])
    return ("sub", gen(rng, min(d, 2), True))


# shared restart functions: the same objects appear at several levels, so that scopes have *equal* bindings
LOGS = {}


class Ref:
    """handlers/restarts = linked tuples (innermost first), passed down as parameters."""
    class Unwind(Exception):
        def __init__(self, uid, name, a, kw): self.uid, self.name, self.a, self.kw = uid, name, a, kw
    class CE(Exception): pass
    class UserExc(Exception):
        def __init__(self, what): self.what = what

    def __init__(self):
        self.log, self.n, self.depth, self.ev, self.slots = [], 0, 0, {}, []
    def e(self, k): self.ev[k] = self.ev.get(k, 0) + 1

    def top(self, t):
        try:
            return ("ret", self.run(t, (), ()))
        except self.UserExc as e:
            return ("exc", e.what)
        except self.CE:
            return ("exc", "ControlError")
    def find(self, rs, name):
        while rs:
            (uid, defs), rs = rs
            if name in defs:
                return uid, defs[name]
        return None
    def fire(self, hs, rs, ctype, cid):
        """run the handlers; unwinds by exception"""
        self.depth += 1
        try:
            scope = hs
            while scope:
                bs, scope = scope
                for spec, arity, act, hid in bs:
                    specs = spec if isinstance(spec, tuple) else (spec,)
                    if not any(s in ctype.__mro__ for s in specs):
                        continue
                    self.e("handler")
                    self.log.append(("h", hid, cid if arity == 1 else None))
                    self.act(act, hs, rs)
        finally:
            self.depth -= 1
    def err(self, hs, rs, ctype):
        self.fire(hs, rs, ctype, "ControlError")
        raise self.CE()
    def invoke(self, name, a, kw, hs, rs):
        r = self.find(rs, name)
        if r is None:
            self.e("nosuch")
            self.err(hs, rs, ControlError)
        self.e("invoked")
        raise self.Unwind(r[0], name, a, kw)
    def act(self, act, hs, rs):
        k = act[0]
        if k == "invoke":
            if act[3] and self.find(rs, act[1]) is None:
                self.log.append("unfound")
                return
            if self.depth > MAXDEPTH:
                return
            self.invoke(act[1], *act[2], hs, rs)
        elif k == "invobj":
            r = self.find(rs, act[1])
            if r is None:
                self.log.append("unfound")
                return
            self.e("invobj")
            raise self.Unwind(r[0], act[1], *act[2])
        elif k == "invslot":
            if self.slots:
                self.e("invslot")
                raise self.Unwind(*self.slots[-1], *act[1])
        elif k == "raise":
            self.log.append("hraise")
            raise self.UserExc("Boom")
        elif k == "sub":
            if self.depth <= MAXDEPTH:
                self.run(act[1], hs, rs)
    def run(self, t, hs, rs):
        k = t[0]
        if k == "log":
            self.log.append(t[1])
            return t[1]
        if k == "signal":
            cid = (t[1].__name__, t[2])
            self.log.append(("signal", cid))
            if self.depth > MAXDEPTH:
                return None
            self.fire(hs, rs, t[1], cid)
            self.log.append(("unhandled", cid))
            return cid
        if k == "avail":
            seen, out = set(), []
            x = rs
            while x:
                (uid, defs), x = x
                for n in defs:
                    if n not in seen:
                        seen.add(n); out.append((n, uid if defs[n] != "shared" else "shared"))
            hout, hseen, x = [], set(), hs
            while x:
                bs, x = x
                for spec, _, _, hid in bs:
                    for s in (spec if isinstance(spec, tuple) else (spec,)):
                        if s not in hseen:
                            hseen.add(s); hout.append((s.__name__, hid))
            self.log.append(("avail", sorted(out), sorted(hout), [n in seen for n in NAMES]))
            self.e("avail")
            return None
        if k == "raise":
            self.log.append("raise")
            raise self.UserExc("Boom")
        if k == "invoke":
            self.log.append(("direct", t[1]))
            if self.depth > MAXDEPTH:
                return None
            self.invoke(t[1], *t[2], hs, rs)
        if k == "find":
            r = self.find(rs, t[1])
            if r is None:
                return self.run(t[2], hs, rs)
            self.slots.append((r[0], t[1]))
            try:
                return self.run(t[2], hs, rs)
            finally:
                self.slots.pop()
        if k == "seq":
            r = None
            for x in t[1]:
                r = self.run(x, hs, rs)
            self.log.append("end")
            return r
        if k == "except":
            try:
                return self.run(t[1], hs, rs)
            except (self.UserExc, self.CE) as e:
                self.log.append(("caught", e.what if isinstance(e, self.UserExc) else "ControlError"))
                return "caught"
        if k == "finally":
            try:
                return self.run(t[1], hs, rs)
            finally:
                self.log.append("finally")
        if k == "handlers":
            bs = []
            for spec, ar, act in t[1]:
                self.n += 1
                bs.append((spec, ar, act, self.n))
            r = self.run(t[2], (bs, hs), rs)
            self.log.append("out-h")
            return r
        if k == "restarts":
            self.n += 1
            uid = self.n
            defs = t[1]
            style = t[2]
            v = None
            try:
                v = self.run(t[3], hs, ((uid, defs), rs))
                if style == 2:
                    v = None
            except self.Unwind as u:
                if u.uid != uid:
                    raise
                kind = defs[u.name]
                self.log.append(("restart", u.name if kind == "shared" else uid, u.a, tuple(u.kw.items())))
                self.e("restart")
                if kind == "raise":
                    raise self.UserExc("Boom")
                if kind == "strict":
                    if len(u.a) != 1 or u.kw:
                        self.log.pop()
                        raise self.UserExc("TypeError")
                    v = u.a[0]
                else:
                    v = (u.name, u.a, tuple(u.kw.items()))
            self.log.append(("box", v))
            return v


class Real:
    def __init__(self):
        self.log, self.n, self.depth, self.slots = [], 0, 0, []
        self.shared = {}
        for n in NAMES:
            self.shared[n] = self.mkrestart(n, n, "ret")
    def mkrestart(self, tag, name, kind):
        if kind == "strict":
            def f(x):
                self.log.append(("restart", tag, (x,), ()))
                return x
        else:
            def f(*a, **kw):
                self.log.append(("restart", tag, a, tuple(kw.items())))
                if kind == "raise":
                    raise Boom()
                return (name, a, tuple(kw.items()))
        f.tag = tag
        return f
    def top(self, t):
        try:
            return ("ret", self.run(t))
        except (Boom, ControlError, TypeError) as e:
            return ("exc", type(e).__name__)
    def mkhandler(self, arity, act, hid):
        def go(c):
            cid = None
            if arity == 1:
                cid = c.cid if hasattr(c, "cid") else type(c).__name__
            self.log.append(("h", hid, cid))
            self.depth += 1
            try:
                self.act(act)
            finally:
                self.depth -= 1
        if arity == 1:
            h = lambda c: go(c)
        elif arity == 0:
            h = lambda: go(None)
        else:
            class H:
                def __call__(self): go(None)
                def meth(self): go(None)
            h = H().meth
            self.tags[hid] = h
            return h
        self.tags[hid] = h
        return h
    tags = None
    def act(self, act):
        k = act[0]
        if k == "invoke":
            if act[3] and find_restart(act[1]) is None:
                self.log.append("unfound")
                return
            if self.depth > MAXDEPTH:
                return
            a, kw = act[2]
            if act[1] == "use_value" and len(a) == 1:
                use_value(*a, **kw)
            elif len(a) == 2:
                invoker(act[1], *a, **kw)(None)
            else:
                invoke(act[1], *a, **kw)
        elif k == "invobj":
            r = find_restart(act[1])
            if r is None:
                self.log.append("unfound")
                return
            a, kw = act[2]
            with restarts(**{act[1]: (lambda *a, **kw: self.log.append("WRONG"))}):
                invoke(r, *a, **kw)
        elif k == "invslot":
            if self.slots:
                a, kw = act[1]
                invoke(self.slots[-1], *a, **kw)
        elif k == "raise":
            self.log.append("hraise")
            raise Boom()
        elif k == "sub":
            if self.depth <= MAXDEPTH:
                self.run(act[1])
    def run(self, t):
        sched.point()
        k = t[0]
        if k == "log":
            self.log.append(t[1])
            return t[1]
        if k == "signal":
            cid = (t[1].__name__, t[2])
            self.log.append(("signal", cid))
            if self.depth > MAXDEPTH:
                return None
            if t[3]:
                # a class is instantiated by signal
                class X(t[1]): pass
                X.__name__, X.cid = t[1].__name__, cid
                r = signal(X)
                if type(r) is not X:
                    raise Violation(f"signal(cls) returned {r!r}")
            else:
                c = t[1]("payload")
                c.cid = cid
                r = signal(c)
                if r is not c:
                    raise Violation(f"signal(instance) returned {r!r}")
            if r.__protocol__ is not signal or r.__cause__ is not None:
                raise Violation("signal: protocol/cause not recorded in the condition")
            self.log.append(("unhandled", cid))
            return cid
        if k == "avail":
            inv = {id(h): i for i, h in self.tags.items()}
            av = available_restarts()
            hv = available_handlers()
            def tag(n, f):
                return "shared" if f is self.shared[n] else f.tag
            self.log.append(("avail", sorted((n, tag(n, f)) for n, f in av), sorted((t.__name__, inv[id(h)]) for t, h in hv),
                             [find_restart(n) is not None for n in NAMES]))
            if [n for n, _ in av] != sorted(n for n, _ in av):
                raise Violation("available_restarts not sorted")
            return None
        if k == "raise":
            self.log.append("raise")
            raise Boom()
        if k == "invoke":
            self.log.append(("direct", t[1]))
            if self.depth > MAXDEPTH:
                return None
            a, kw = t[2]
            invoke(t[1], *a, **kw)
        if k == "find":
            r = find_restart(t[1])
            if r is None:
                return self.run(t[2])
            self.slots.append(r)
            try:
                return self.run(t[2])
            finally:
                self.slots.pop()
        if k == "seq":
            r = None
            for x in t[1]:
                r = self.run(x)
            self.log.append("end")
            return r
        if k == "except":
            try:
                return self.run(t[1])
            except Exception as e:
                self.log.append(("caught", type(e).__name__))
                return "caught"
        if k == "finally":
            try:
                return self.run(t[1])
            finally:
                self.log.append("finally")
        if k == "handlers":
            bs = []
            for spec, ar, act in t[1]:
                self.n += 1
                bs.append((spec, self.mkhandler(ar, act, self.n)))
            with handlers(*bs):
                r = self.run(t[2])
            self.log.append("out-h")
            return r
        if k == "restarts":
            self.n += 1
            uid = self.n
            fs = {n: self.shared[n] if kind == "shared" else self.mkrestart(uid, n, kind) for n, kind in t[1].items()}
            style = t[2]
            if style == 0:
                with restarts(**fs) as b:
                    r = self.run(t[3])
                    b << r
                v = unbox(b)
            elif style == 1:
                v = with_restarts(**fs)(lambda: self.run(t[3]))
            else:
                with restarts(**fs) as b:
                    self.run(t[3])
                v = unbox(b)
            self.log.append(("box", v))
            return v


def observe(t):
    r = Real()
    r.tags = {}
    return r, r.top(t)


def compare(ctx, t, real, out):
    ref = Ref()
    want = ref.top(t)
    for k, v in ref.ev.items():
        ctx.event(k, v)
    if real.log != ref.log:
        i = next((i for i, (a, b) in enumerate(zip(real.log, ref.log)) if a != b), min(len(real.log), len(ref.log)))
        ctx.violate("trace of handlers/restarts differs from the dynamic-scope reference", program=t, at=i,
                    got=real.log[max(0, i - 3):i + 5], want=ref.log[max(0, i - 3):i + 5])
    ctx.same(out, want, "outcome differs", program=t)
    ctx.check(available_restarts() == [] and available_handlers() == [], "scopes left behind after the outermost block", program=t)


@section(quick=12000, require={"handler": 1500, "restart": 500, "nosuch": 100, "avail": 400, "invobj": 50})
def program(ctx, rng):
    t = ("seq", [gen(rng, rng.randrange(2, 6)) for _ in range(rng.randrange(1, 3))])
    # a direct invoke of an unknown restart at top level just raises ControlError: included
    ctx.note(program=t)
    real, out = observe(t)
    ctx.seen(t)
    ctx.sample((t, real.log))
    compare(ctx, t, real, out)


@section(quick=240, require={"restart": 30, "handler": 80})
def threads(ctx, rng):
    progs = [("seq", [gen(rng, rng.randrange(2, 5)) for _ in range(2)]) for _ in range(rng.randrange(2, 4))]
    reals, outs = [None] * len(progs), [None] * len(progs)
    def task(i):
        reals[i] = r = Real()
        r.tags = {}
        outs[i] = r.top(progs[i])
        if available_restarts() or available_handlers():
            outs[i] = "scopes left behind"
    s = sched.Sched(rng, p=0.3)
    for i in range(len(progs)):
        s.spawn(task, i)
    s.run()
    ctx.event("switches", s.switches)
    ctx.seen(progs, s.switches)
    for i, t in enumerate(progs):
        compare(ctx, t, reals[i], outs[i])


@section(quick=200)
def invalid(ctx, rng):
    """malformed bindings and signals are refused with ControlError and leave nothing behind"""
    bad = rng.choice([lambda: handlers((int, lambda: None)), lambda: handlers((A, 42)), lambda: handlers(((A, 3), lambda: None)),
                      lambda: signal(42), lambda: signal("x"), lambda: signal(int), lambda: invoke(3), lambda: invoke("nosuch"),
                      lambda: signal(A, cause=5), lambda: with_restarts(r=3)(lambda: None), lambda: handlers((A(), lambda: None))])
    seen = []
    def run():
        try:
            bad()
        except ControlError as e:
            return e
        return None
    mode = rng.randrange(2)
    if mode:
        with handlers((BaseException, lambda c: seen.append(c))):
            e = run()
        ctx.check(len(seen) == 1, "the refusal itself is not signaled exactly once", seen=seen)
        ctx.check(e is not None and e.__cause__ is seen[0], "ControlError is not chained from the refused condition", err=e)
    else:
        e = run()
    ctx.check(e is not None, "malformed use accepted")
    ctx.check(available_restarts() == [] and available_handlers() == [], "scopes left behind")


@section(quick=800, require={"levels": 1000})
def samedefs(ctx, rng):
    """identical restart definitions at several levels: the chosen level's block, and no other, is the one exited"""
    f, g = (lambda *a: ("f", a)), (lambda *a: ("g", a))
    n = rng.randrange(2, 6)
    defs = [rng.choice([{"r": f}, {"r": f}, {"r": f, "s": g}, {"s": g}]) for _ in range(n)]
    defs[0] = {"r": f}
    how, log, held = rng.randrange(3), [], []
    def level(i):
        if i == n:
            r = rng.choice(held)
            if how == 0:
                invoke(r[1], 1, 2)
            elif how == 1:
                with handlers((A, lambda: invoke(r[1], 1, 2))):
                    chosen.append(r[0])
                    signal(A())
            else:
                name = rng.choice(["r", "s"])
                have = [j for j in range(n) if name in defs[j]]
                if have:
                    chosen.append((have[-1], name))
                    invoke(name, 1, 2)
                chosen.append(None)
                return
            return
        with restarts(**defs[i]) as b:
            for name in ("r", "s"):
                if name in defs[i]:
                    o = find_restart(name)
                    held.append(((i, name), o))
                elif any(name in d for d in defs[:i]):
                    o = find_restart(name)
                    held.append(((max(j for j in range(i) if name in defs[j]), name), o))
            b << "normal"
            level(i + 1)
            log.append(("end", i))
        log.append(("box", i, unbox(b)))
    chosen = []
    class Hook(list):
        pass
    if how == 0:
        pick = rng.random
        # remember which one gets invoked
        orig = rng.choice
        def choice(seq):
            x = orig(seq)
            if seq is held:
                chosen.append(x[0])
            return x
        rng.choice = choice
    level(0)
    target = chosen[-1]
    if target is None:
        want = [x for i in reversed(range(n)) for x in (("end", i), ("box", i, "normal"))]
    else:
        lv, name = target
        want = [("box", lv, ("f" if name == "r" else "g", (1, 2)))]
        for i in reversed(range(lv)):
            want += [("end", i), ("box", i, "normal")]
    ctx.event("levels", n)
    ctx.seen(n, how, [sorted(d) for d in defs], target)
    ctx.same(log, want, "a restart object unwound to the wrong block", defs=[sorted(d) for d in defs], target=target)
