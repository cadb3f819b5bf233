"""C03: escape continuations: random nested programs against a result-passing reference interpreter."""
from vp.core import section
from unpythonic import call_ec, catch, throw, call
from unpythonic.ec import Escape


class Boom(Exception):
    pass

TAGS = ["a", "b", ("t", 1), 7, None]


def gen_tags(rng):
    k = rng.randrange(4)
    if k == 0:
        return None
    if k == 1:
        return rng.choice(["a", "b", 7])
    return tuple(rng.sample(["a", "b", ("t", 1), 7], rng.randrange(0 if k == 2 else 1, 4)))


def gen(rng, d, ecs):
    """Random program tree. `ecs` = number of call_ec enclosing this node."""
    if d <= 0 or rng.random() < 0.15:
        k = rng.random()
        if k < 0.3:
            return ("throw", rng.randrange(100), rng.choice(TAGS), rng.random() < 0.6)
        if k < 0.6 and ecs:
            return ("ec", rng.randrange(ecs), rng.choice([None, 0, "v", rng.randrange(100)]))
        if k < 0.68:
            return ("dead", rng.randrange(5), 1)
        if k < 0.76:
            return ("raise",)
        return ("log", rng.randrange(100))
    k = rng.randrange(8)
    if k == 0:
        return ("catch", gen_tags(rng), rng.random() < 0.5, gen(rng, d - 1, ecs))
    if k in (1, 2):
        return ("callec", rng.random() < 0.5, gen(rng, d - 1, ecs + 1))
    if k == 3:
        return ("finally", gen(rng, d - 1, ecs), ("log", rng.randrange(100)) if rng.random() < 0.85 else gen(rng, 1, ecs))
    if k == 4:
        return ("except", gen(rng, d - 1, ecs))
    if k == 5:
        return ("twice", gen(rng, d - 1, ecs))
    return ("seq", [gen(rng, d - 1, ecs) for _ in range(rng.randrange(1, 4))])


# -- reference: outcomes ("ret", v) ("esc", v, tag, catchall) ("ec", uid, v) ("exc", name)
class Ref:
    def __init__(self):
        self.log, self.live, self.all, self.n = [], [], [], 0
    def run(self, t):
        k = t[0]
        if k == "log":
            self.log.append(t[1])
            return ("ret", t[1])
        if k == "throw":
            self.log.append(("throw",) + t[1:])
            return ("esc", t[1], t[2], t[3])
        if k == "raise":
            self.log.append("raise")
            return ("exc", "Boom")
        if k == "ec":
            self.log.append(("ec", t[1], t[2]))
            return ("ec", self.live[t[1]], t[2])
        if k == "dead":
            self.log.append("dead")
            dead = [u for u in self.all if u not in self.live]
            if not dead:
                return ("ret", None)
            return ("exc", "RuntimeError")
        if k == "seq":
            r = ("ret", None)
            for x in t[1]:
                r = self.run(x)
                if r[0] != "ret":
                    return r
            self.log.append("end")
            return r
        if k == "twice":
            for i in range(2):
                r = self.run(t[1])
                if r[0] != "ret":
                    return r
            return r
        if k == "finally":
            r = self.run(t[1])
            self.log.append("fin")
            r2 = self.run(t[2])
            return r if r2[0] == "ret" else r2
        if k == "except":
            r = self.run(t[1])
            if r[0] == "exc":
                self.log.append(("caught", r[1]))
                return ("ret", "caught")
            return r
        if k == "catch":
            _, tags, cu, body = t
            r = self.run(body)
            if r[0] == "esc":
                _, v, tag, ca = r
                tagset = None if tags is None else (tags if isinstance(tags, tuple) else (tags,))
                # the documented table, row by row
                if tagset is None:
                    hit = ca or (cu and tag is None)
                elif tag is None:
                    hit = cu
                else:
                    hit = tag in tagset
                if hit:
                    r = ("ret", v)
            elif r[0] == "ec":
                pass   # ecs pass all @catch points
            self.log.append(("catch-out", r[0]))
            return r
        if k == "callec":
            uid = self.n
            self.n += 1
            self.all.append(uid)
            self.live.append(uid)
            r = self.run(t[2])
            self.live.remove(uid)
            if r[0] == "ec" and r[1] == uid:
                r = ("ret", r[2])
            self.log.append(("callec-out", r[0]))
            return r


class Real:
    def __init__(self):
        self.log, self.live, self.all = [], [], []
        self.pending = []
        def shared(ec):   # one function object re-entered at several levels
            body = self.pending.pop()
            self.all.append(ec)
            self.live.append(ec)
            return self.run(body)
        self.shared = shared
    def run(self, t):
        k = t[0]
        if k == "log":
            self.log.append(t[1])
            return t[1]
        if k == "throw":
            self.log.append(("throw",) + t[1:])
            if t[2] is None and t[3]:
                throw(t[1])
            elif t[3]:
                throw(t[1], t[2])
            else:
                throw(t[1], tag=t[2], allow_catchall=False)
            self.log.append("not reached")
        if k == "raise":
            self.log.append("raise")
            raise Boom
        if k == "ec":
            self.log.append(("ec", t[1], t[2]))
            self.live[t[1]](t[2])
            self.log.append("not reached")
            return "not reached"
        if k == "dead":
            self.log.append("dead")
            dead = [e for e in self.all if not any(e is x for x in self.live)]
            if not dead:
                return None
            dead[t[1] % len(dead)](t[2])
            self.log.append("not reached")
            return "not reached"
        if k == "seq":
            r = None
            for x in t[1]:
                r = self.run(x)
            self.log.append("end")
            return r
        if k == "twice":
            self.run(t[1])
            return self.run(t[1])
        if k == "finally":
            try:
                r = self.run(t[1])
            finally:
                self.log.append("fin")
                self.run(t[2])
            return r
        if k == "except":
            try:
                return self.run(t[1])
            except Exception as e:
                self.log.append(("caught", type(e).__name__))
                return "caught"
        if k == "catch":
            _, tags, cu, body = t
            if cu and tags is None:
                deco = catch()
            elif cu:
                deco = catch(tags)
            else:
                deco = catch(tags=tags, catch_untagged=cu)
            @deco
            def f(x, *, y):
                assert x == 1 and y == 2
                return self.run(body)
            try:
                r = f(1, y=2)
            except BaseException as e:
                self.log.append(("catch-out", kind(e)))
                raise
            self.log.append(("catch-out", "ret"))
            return r
        if k == "callec":
            mine = []
            def f(ec):
                mine.append(ec)
                self.all.append(ec)
                self.live.append(ec)
                return self.run(t[2])
            n = len(self.live)
            if t[1]:
                self.pending.append(t[2])
                f = self.shared
            try:
                r = call_ec(f)
            except BaseException as e:
                del self.live[n:]
                self.log.append(("callec-out", kind(e, self)))
                raise
            del self.live[n:]
            self.log.append(("callec-out", "ret"))
            return r


def kind(e, me=None):
    if isinstance(e, Exception):
        return "exc"
    return "esc"


def norm(log):
    return [(x[0], "esc" if x[1] == "ec" else x[1]) if isinstance(x, tuple) and x[0] in ("catch-out", "callec-out") else x for x in log]


@section(quick=12000, thorough=250000, require={"ec": 2000, "throw": 3000, "caught_by_ec": 500, "caught_by_catch": 500, "uncaught": 500, "dead": 100})
def programs(ctx, rng):
    t = gen(rng, rng.randrange(1, 7), 0)
    ctx.note(program=t)
    ref = Ref()
    want = ref.run(t)
    real = Real()
    try:
        got = ("ret", real.run(t))
    except Escape as e:
        got = ("esc",)
        ctx.event("uncaught")
    except Exception as e:
        got = ("exc", type(e).__name__)
    for x in real.log:
        if isinstance(x, tuple) and x[0] in ("throw", "ec"):
            ctx.event(x[0])
        elif x == "dead":
            ctx.event("dead")
    if want[0] == "esc":
        want = ("esc",)
    l1, l2 = norm(real.log), norm(ref.log)
    ctx.check(l1 == l2, "trace of the program differs from the reference", got=l1, want=l2)
    ctx.check(got == want and (got[0] != "ret" or type(got[1]) is type(want[1])), "outcome differs from the reference", got=got, want=want)
    s = repr(t)
    if ("callec-out", "ret") in l1 and any(isinstance(x, tuple) and x[0] == "ec" for x in l1):
        ctx.event("caught_by_ec")
    if ("catch-out", "ret") in l1 and any(isinstance(x, tuple) and x[0] == "throw" for x in l1):
        ctx.event("caught_by_catch")
    ctx.seen(s)
    ctx.sample(t)


@section(quick=400, thorough=4000, require={"table": 300})
def table(ctx, rng):
    """The documented table, one catch point at a time, plus pass-through of values and metadata."""
    tags = gen_tags(rng)
    cu = rng.random() < 0.5
    tag = rng.choice(TAGS)
    ca = rng.random() < 0.5
    v = object()
    @catch(tags=tags, catch_untagged=cu)
    def f():
        "doc"
        throw(v, tag=tag, allow_catchall=ca)
    ctx.check(f.__name__ == "f" and f.__doc__ == "doc", "name lost")
    ts = None if tags is None else (tags if isinstance(tags, tuple) else (tags,))
    row = {(False, False): "a", (False, True): "b", (True, False): "c", (True, True): "d"}[ts is not None, cu]
    col = {(False, False): 0, (False, True): 1, (True, False): 2, (True, True): 3}[tag is not None, ca]
    cell = {"a": " x x", "b": "xx x", "c": "  tt", "d": "xxtt"}[row][col]
    want = cell == "x" or (cell == "t" and tag in ts)
    ctx.event("table")
    for _ in range(2):
        try:
            r = f()
        except Escape:
            got = False
        else:
            got = True
            ctx.check(r is v, "wrong value")
        ctx.check(got == want, "catch table violated", tags=tags, catch_untagged=cu, tag=tag, allow_catchall=ca, got=got, want=want)
    ctx.check(call_ec(lambda ec: v) is v, "normal return value changed")
    ctx.check(call_ec(lambda ec: ec(v)) is v, "escape value changed")
    ctx.seen(row, col, tags, tag)


@section(quick=500, thorough=5000, require={"reentrant": 300})
def reentrant(ctx, rng):
    """The same recursive function opens a call_ec per level; escaping to any level returns from exactly that one."""
    n = rng.randrange(1, 9)
    target = rng.randrange(n)
    out, ecs, nxt = [], [], [0]
    same = rng.random() < 0.5
    def onebody(ec):
        i = nxt[0]; nxt[0] += 1
        ecs.append(ec)
        try:
            if i == n - 1:
                ecs[target](("from", target))
            r = call_ec(onebody)
            out.append(("resumed", i, r))
            return ("ret", i)
        finally:
            out.append(("fin", i))
    def f(i):
        def body(ec):
            ecs.append(ec)
            try:
                if i == n - 1:
                    ecs[target](("from", target))
                r = f(i + 1)
                out.append(("resumed", i, r))
                return ("ret", i)
            finally:
                out.append(("fin", i))
        return call_ec(body)
    r = call_ec(onebody) if same else f(0)
    ctx.event("reentrant")
    want = [("fin", i) for i in range(n - 1, target - 1, -1)]
    val = ("from", target)
    for i in range(target - 1, -1, -1):
        want += [("resumed", i, val), ("fin", i)]
        val = ("ret", i)
    ctx.check(out == want and r == val, "escape did not unwind exactly to its own level", got=(out, r), want=(want, val))
    for ec in ecs:
        try:
            ec(1)
        except RuntimeError:
            pass
        else:
            ctx.violate("expired continuation accepted")
    ctx.seen(n, target)
