"""C06: dynamic variables: shadow-stack model checked at every operation, in the main thread and in worker threads."""
import gc
import queue
import threading
from collections import ChainMap
from vp import sched
sched.install()
from vp.core import section, Violation, Inconclusive  # noqa: E402
from unpythonic import dyn, make_dynvar  # noqa: E402

G = ["g1", "g2"]
N = ["x", "y", "z"]
GLOBALS = {}
make_dynvar(g1=1, g2="two")
GLOBALS.update(dict(dyn.asdict()))


class Boom(Exception):
    pass


class Model:
    """shadow stack"""
    def __init__(self, stack=()):
        self.stack = [dict(s) for s in stack]
    def where(self, n):
        for s in reversed(self.stack):
            if n in s:
                return s
        return GLOBALS if n in GLOBALS else None
    def flat(self):
        out = dict(GLOBALS)
        for s in self.stack:
            out.update(s)
        return out


def agree(model, views, where, msg="dyn disagrees with the shadow stack"):
    flat = model.flat()
    for n in N + G + ["nope"]:
        if n in flat:
            if n not in dyn or dyn[n] is not flat[n] or getattr(dyn, n) is not flat[n] or dyn.get(n) is not flat[n]:
                raise Violation(f"{msg}: {n}", None, dict(where=where, want=flat[n], got=dyn.get(n)))
        else:
            if n in dyn or dyn.get(n) is not None or dyn.get(n, "d") != "d":
                raise Violation(f"{msg}: {n} should be unbound", None, dict(where=where))
            try:
                getattr(dyn, n)
            except AttributeError:
                pass
            else:
                raise Violation(f"{msg}: reading unbound {n} did not raise", None, dict(where=where))
            try:
                dyn[n]
            except (AttributeError, KeyError):
                pass
            else:
                raise Violation(f"{msg}: subscripting unbound {n} did not raise", None, dict(where=where))
    if len(dyn) != len(flat) or set(dyn) != set(flat) or len(list(dyn)) != len(flat):
        raise Violation(f"{msg}: length/iteration", None, dict(where=where, got=sorted(dyn), want=sorted(flat)))
    if dict(dyn.items()) != flat or set(dyn.keys()) != set(flat) or len(list(dyn.values())) != len(flat):
        raise Violation(f"{msg}: items/keys/values", None, dict(where=where, got=dict(dyn.items()), want=flat))
    if not (dyn == flat) or dyn == {**flat, "nope": 1}:
        raise Violation(f"{msg}: equality", None, dict(where=where))
    for v in views:
        if dict(v) != flat or len(v) != len(flat) or ("x" in v) != ("x" in flat):
            raise Violation(f"{msg}: live view is stale", None, dict(where=where, got=dict(v), want=flat))


class Program:
    """Random nested program run against dyn and against the model at once (model updated by the program text)."""
    def __init__(self, rng, model, ctx, steps, globs=True, point=None):
        self.rng, self.m, self.ctx, self.left, self.views, self.globs, self.log = rng, model, ctx, steps, [], globs, []
        self.point = point or (lambda: None)
    def value(self):
        return self.rng.choice([object(), [1], self.rng.randrange(1000, 10**9), None and 0, "v"])
    def bindings(self, names):
        return {n: self.value() for n in self.rng.sample(names, self.rng.randrange(len(names) + 1))}
    def check(self, where):
        self.ctx.event("check")
        agree(self.m, self.views, (where, self.log[-8:]))
        self.point()
    def block(self, d):
        rng = self.rng
        for _ in range(rng.randrange(1, 5)):
            if self.left <= 0:
                return
            self.left -= 1
            k = rng.randrange(10)
            if k < 3 and d < 6:
                b = self.bindings(N + (G if self.globs or rng.random() < 0.5 else []))
                self.log.append(("let", sorted(b)))
                self.ctx.event("let")
                exc = rng.random() < 0.25
                try:
                    with dyn.let(**b):
                        self.m.stack.append(dict(b))
                        self.check("entered")
                        try:
                            self.block(d + 1)
                            if exc:
                                self.ctx.event("raised")
                                raise Boom
                        finally:
                            self.m.stack.pop()
                except Boom:
                    pass
                self.log.append("exit")
                self.check("left")
            elif k < 6:
                n = rng.choice(N + (G if self.globs else []))
                v = self.value()
                s = self.m.where(n)
                self.log.append(("set", n))
                if s is None:
                    try:
                        if rng.random() < 0.5:
                            setattr(dyn, n, v)
                        else:
                            dyn[n] = v
                    except (AttributeError, KeyError):
                        self.ctx.event("refused")
                    else:
                        raise Violation("assignment to an unbound dynvar accepted", None, dict(log=self.log))
                elif s is GLOBALS and not self.globs:
                    continue
                else:
                    if rng.random() < 0.5:
                        setattr(dyn, n, v)
                    else:
                        dyn[n] = v
                    s[n] = v
                    self.ctx.event("assign")
                self.check("set")
            elif k < 8:
                b = self.bindings(N + ["nope"] * (rng.random() < 0.3) + (G if self.globs else []))
                self.log.append(("update", sorted(b)))
                if not self.globs:
                    b = {n: v for n, v in b.items() if self.m.where(n) is not GLOBALS}
                if any(self.m.where(n) is None for n in b):
                    try:
                        dyn.update(**b)
                    except AttributeError:
                        self.ctx.event("update-refused")
                    else:
                        raise Violation("update with an unbound name accepted", None, dict(log=self.log))
                else:
                    dyn.update(**b)
                    for n, v in b.items():
                        self.m.where(n)[n] = v
                    self.ctx.event("update")
                self.check("update")
            elif k == 8:
                if len(self.views) < 3:
                    self.views.append(dyn.asdict())
                else:
                    self.views.pop(rng.randrange(3))
                self.check("view")
            else:
                if self.globs:
                    n, v = rng.choice(G), self.value()
                    make_dynvar(**{n: v})
                    GLOBALS[n] = v
                    self.log.append(("make_dynvar", n))
                    self.check("make_dynvar")


@section(quick=3000, require={"let": 4000, "raised": 400, "update-refused": 200, "assign": 1000})
def single(ctx, rng):
    p = Program(rng, Model(), ctx, rng.randrange(5, 60))
    while p.left > 0:
        p.block(0)
    agree(Model(), p.views, "end")
    ctx.seen(p.log)
    ctx.sample(p.log[:12])


@section(quick=300, require={"let": 400, "switch": 1000})
def workers(ctx, rng):
    """several threads, each with its own program, interleaved line by line; starting from the main thread's bindings"""
    base = [{n: object() for n in rng.sample(N + G, rng.randrange(3))} for _ in range(rng.randrange(3))]
    base = [b for b in base if b]
    import contextlib
    with contextlib.ExitStack() as st:
        for b in base:
            st.enter_context(dyn.let(**b))
        s = sched.Sched(rng, p=0.2)
        progs = []
        for i in range(rng.randrange(2, 4)):
            import random
            p = Program(random.Random(rng.random()), Model(base), ctx, rng.randrange(5, 14), globs=False)
            progs.append(p)
            def task(p=p):
                agree(p.m, [], "start", "a new thread does not start from the main thread's bindings")
                while p.left > 0:
                    p.block(0)
                agree(p.m, p.views, "end of thread")
                p.views.clear()
            s.spawn(task)
        s.run()
        ctx.event("switch", s.switches)
        ctx.seen([p.log for p in progs], s.switches)
        agree(Model(base), [], "main after workers", "a worker thread changed the main thread's bindings")


class Puppet:
    """A real thread executing dyn operations one at a time on command."""
    def __init__(self):
        self.q, self.r = queue.Queue(), queue.Queue()
        self.t = threading.Thread(target=self.loop, daemon=True)
        self.t.start()
    def loop(self):
        while True:
            f = self.q.get()
            if f is None:
                return
            try:
                self.r.put(("ok", f()))
            except BaseException as e:  # noqa
                self.r.put(("exc", e))
    def __call__(self, f):
        self.q.put(f)
        try:
            k, v = self.r.get(timeout=30)
        except queue.Empty:
            raise Inconclusive("puppet thread stuck")
        if k == "exc":
            raise v
        return v


@section(quick=250, require={"op": 2500, "inherit": 100})
def mixed(ctx, rng):
    """main thread and workers alternate single operations; each keeps its own scope stack"""
    puppets = [None] + [Puppet() for _ in range(rng.randrange(1, 4))]
    models = [Model()] + [None] * (len(puppets) - 1)
    open_ = [[] for _ in puppets]
    def on(i, f):
        return f() if i == 0 else puppets[i](f)
    log = []
    try:
        for step in range(rng.randrange(10, 40)):
            i = rng.randrange(len(puppets))
            if models[i] is None:
                models[i] = Model(models[0].stack)   # snapshot at the thread's first use of dyn
                ctx.event("inherit")
                on(i, lambda: agree(models[i], [], ("inherit", log[-6:])))
                log.append((i, "first"))
                continue
            m = models[i]
            k = rng.randrange(6)
            ctx.event("op")
            if k < 2:
                b = {n: (i, step, n) for n in rng.sample(N + G, rng.randrange(1, 4))}
                cm = dyn.let(**b)
                on(i, cm.__enter__)
                open_[i].append(cm)
                m.stack.append(dict(b))
            elif k == 2 and open_[i]:
                cm = open_[i].pop()
                on(i, lambda: cm.__exit__(None, None, None))
                m.stack.pop()
            else:
                bound = [n for n in N + G if m.where(n) not in (None, GLOBALS)]
                if bound:
                    ns = rng.sample(bound, rng.randrange(1, len(bound) + 1))
                    b = {n: (i, step, n, "upd") for n in ns}
                    if k == 3:
                        on(i, lambda: dyn.update(**b))
                    else:
                        b = {ns[0]: b[ns[0]]}
                        on(i, lambda: setattr(dyn, ns[0], b[ns[0]]))
                    for n, v in b.items():
                        m.where(n)[n] = v
            log.append((i, k))
            for j in range(len(puppets)):
                if models[j] is not None:
                    on(j, lambda: agree(models[j], [], (j, log[-6:]), f"thread {j} disturbed by thread {i}"))
        ctx.seen(log)
    finally:
        for i, lst in enumerate(open_):
            while lst:
                cm = lst.pop()
                on(i, lambda: cm.__exit__(None, None, None))
        for p in puppets[1:]:
            p.q.put(None)
            p.t.join(30)
        agree(Model(), [], "end")


class Key(str):
    hook = None
    def __hash__(self):
        if Key.hook is not None:
            Key.hook()
        return str.__hash__(self)
    def __eq__(self, other):
        return str.__eq__(self, other)


@section(quick=120, require={"fired": 20}, deadline=120)
def snapshot(ctx, rng):
    """a thread born in the middle of a main-thread update sees all of it or nothing"""
    names = rng.sample(N, rng.randrange(2, 4))
    fire_at, count, got = rng.randrange(1, 18), [0], []
    def child():
        got.append([getattr(dyn, n) for n in names])
    thr = []
    def hook():
        if threading.current_thread() is not threading.main_thread():
            return
        count[0] += 1
        if count[0] == fire_at and not thr:
            Key.hook = None
            t = threading.Thread(target=child, daemon=True)
            thr.append(t)
            ctx.event("fired")
            t.start()
            t.join(0.02)
            Key.hook = hook
    with dyn.let(**{n: "old" for n in names}):
        Key.hook = hook
        try:
            dyn.update(**{Key(n): "new" for n in names})
        finally:
            Key.hook = None
        if thr:
            thr[0].join(30)
    ctx.seen(names, fire_at)
    if got:
        ctx.check(len(set(got[0])) == 1, "a new thread saw half of an update", got=got)


@section(quick=30, require={"late": 5})
def lifetime(ctx, rng):
    """views do not pile up; a thread inherits the bindings in force when it was started"""
    def live():
        gc.collect()
        return sum(1 for o in gc.get_objects() if isinstance(o, ChainMap))
    n0 = live()
    for _ in range(60):
        len(dyn), list(dyn), dyn == {}, list(dyn.items()), dyn.get("x")
        v = dyn.asdict()
        del v
    n1 = live()
    ctx.check(n1 <= n0 + 5, "live views pile up", before=n0, after=n1)
    go, got = threading.Event(), []
    def child():
        go.wait(30)
        got.append(dyn.get("x", "unbound"))
    with dyn.let(x=42):
        t = threading.Thread(target=child, daemon=True)
        t.start()
    go.set()
    t.join(30)
    ctx.event("late")
    ctx.seen("late")
    if got != [42]:
        ctx.violate("a thread started inside `with dyn.let` lost the binding because it first used dyn after the block ended",
                    key="thread-snapshot-at-first-use", got=got)
