"""C37: test sessions generated with known verdicts; counters, reports, captures and control flow are compared."""
import re
from vp.core import section
from vp.macro import Program

HEAD = """from unpythonic.syntax import macros, test, test_signals, test_raises, fail, error, warn, the
from unpythonic.test.fixtures import session, testset, terminate, returns_normally, catch_signals
from unpythonic import restarts, handlers, invoke, use_value
"""
ANSI = re.compile("\x01|\x02|\x1b\\[[0-9;]*m")

class E1(Exception): pass
class E2(E1): pass
class E3(Exception): pass
EXC = {"E1": E1, "E2": E2, "E3": E3}
SUB = {"E1": {"E1", "E2"}, "E2": {"E2"}, "E3": {"E3"}, "ES": {"E1", "E2", "E3"}, "Exception": {"E1", "E2", "E3"}}

def make_names():
    import unpythonic.conditions as c
    def sig(proto, e):
        getattr(c, proto)(e("payload")); return True
    def boom(e): raise e("payload")
    def chain(e):
        try: raise ValueError("inner")
        except ValueError as v: raise e("payload") from v
    def handled(e):
        try: raise e("x")
        except e: return True
    def sighandled(e):
        with c.restarts(ok=lambda: True) as r:
            with c.handlers((e, lambda: c.invoke("ok"))): c.signal(e("x"))
        return True
    return dict(sig=sig, boom=boom, chain=chain, handled=handled, sighandled=sighandled, ES=(E1, E3), **EXC)

class Gen:
    """Emits a test program and, in parallel, the events it should lead to."""
    def __init__(self, rng, ctx):
        self.rng, self.ctx, self.lines, self.n, self.k = rng, ctx, [], 0, 0
        self.catch = [True]
    def emit(self, d, s): self.lines.append("    " * d + s); return len(self.lines)
    def num(self): self.k += 1; return self.k

    # -- one test; returns a list of events (kind, origin, line, message, mode, captured or None)
    def body(self, catching):
        """An expression, with the way it ends: (src, mode, value or exception name)."""
        rng = self.rng
        c = rng.randrange(12)
        e = rng.choice(list(EXC))
        if c < 4: v = rng.choice(["1", "'x'", "[0]", "0", "''", "None", "[]", "False", "3 > 2", "2 > 3", "returns_normally(0)"]); return v, "completed", eval(v, {"returns_normally": lambda x: True})
        if c == 4: return f"boom({e})", "raised", e
        if c == 5: return f"chain({e})", "raised", e
        if c in (6, 7, 8):
            proto = rng.choice(["signal", "cerror", "warn", "error"]) if catching else rng.choice(["signal", "signal"])
            if catching: return f"sig('{proto}', {e})", "signaled", e
            return f"sig('{proto}', {e})", "completed", True
        if c == 9: return f"handled({e})", "completed", True
        if c == 10: return f"sighandled({e})", "completed", True
        return f"[x for x in [boom({e})]]", "raised", e

    def captures(self):
        """A test of captured values: (src, value, captured)."""
        rng = self.rng
        cap = []
        def lit(): return rng.choice([1, 2, 3, 0])
        def term(d, on):
            c = rng.randrange(6)
            if c < 2 or d == 0: v = lit(); return f"R({v})", v
            if c == 2:
                s, v = term(d - 1, on)
                if on: cap.append(v); self.ctx.event("the")
                return f"the[{s}]", v
            if c == 3:
                a, av = term(d - 1, on); b, bv = term(d - 1, on); return f"({a} + {b})", av + bv
            if c == 4:
                a, av = term(d - 1, on); b, bv = term(d - 1, on and bool(av)); return f"({a} and {b})", av and bv
            a, av = term(d - 1, on); b, bv = term(d - 1, on and not av); return f"({a} or {b})", av or bv
        a, av = term(3, True); op = rng.choice(["==", "<", "!=", None])
        if op is None: s, v = a, av
        else:
            mid = len(cap)
            b, bv = term(2, True)
            s, v = f"{a} {op} {b}", {"==": av == bv, "<": av < bv, "!=": av != bv}[op]
            if "the[" not in s: cap[:] = [av]; self.ctx.event("implicit the")
        return s, v, cap

    def one(self, d, postproc):
        rng, catching = self.rng, self.catch[-1]
        msg = rng.choice([None, None, f"m{self.num()}"])
        m = f", '{msg}'" if msg else ""
        c = rng.randrange(13)
        if c < 4:
            src, mode, v = self.body(catching)
            block = rng.random() < 0.4
            if block:
                self.emit(d, f"with test['{msg}']:" if msg else "with test:")
                pre, inner = rng.random() < 0.5, []
                ln = self.emit(d + 1, f"q = {self.num()}") if pre else None
                if pre and postproc != "terminate" and rng.random() < 0.4: inner = self.one(d + 1, postproc); self.ctx.event("test in a test block")
                if rng.random() < 0.6: l2 = self.emit(d + 1, f"return {src}")
                else:
                    l2 = self.emit(d + 1, src)
                    if mode == "completed": v = True
                ln = ln or l2; self.ctx.event("block")
            else: ln, inner = self.emit(d, f"test[{src}{m}]"), []
            if mode == "completed" and v: return inner + [("pass",)]
            return inner + [("fail" if mode == "completed" else "error", "test", ln, msg, mode, v, None)]
        if c < 7:
            which = rng.choice(["test_raises", "test_signals"]); want = rng.choice(list(SUB))
            src, mode, v = self.body(catching)
            if rng.random() < 0.4:
                self.emit(d, f"with {which}[{want}{m}]:")
                ln = self.emit(d + 1, f"q = {self.num()}") if rng.random() < 0.5 else None
                l2 = self.emit(d + 1, src); ln = ln or l2; self.ctx.event("block")
            else: ln = self.emit(d, f"{which}[{want}, {src}{m}]")
            ok = {"test_raises": "raised", "test_signals": "signaled"}[which]
            if mode == ok and v in SUB[want]: return [("pass",)]
            if mode == "completed": return [("fail", which, ln, msg, mode, None, [])]
            return [("error", which, ln, msg, mode, v, [])]
        if c == 7:
            w = rng.choice(["fail", "error", "warn"]); t = f"u{self.num()}"
            ln = self.emit(d, f"{w}['{t}']")
            return [(w, w, ln, t, "completed", None, [])]
        if c < 11:
            s, v, cap = self.captures()
            ln = self.emit(d, f"test[{s}{m}]")
            if v: return [("pass",)]
            return [("fail", "test", ln, msg, "completed", v, cap)]
        # a test inside a test
        if postproc == "terminate": ln = self.emit(d, "test[1]"); return [("pass",)]
        self.k += 1; f = f"inner{self.k}"
        self.emit(d, f"def {f}():")
        ev = []
        for _ in range(rng.randrange(1, 3)): ev += self.one(d + 1, postproc)
        r = rng.choice([0, 1]); self.emit(d + 1, f"return {r}")
        ln = self.emit(d, f"test[{f}()]"); self.ctx.event("test in a test")
        return ev + ([("pass",)] if r else [("fail", "test", ln, None, "completed", 0, None)])

    def items(self, d, depth, postproc, session):
        """Statements of a testset; returns (events, how it ends: None, 'exc', 'term'). After the end, more statements follow, which must not run."""
        rng, ev, end = self.rng, [], None
        def add(x):
            nonlocal end
            if end: return
            for e in x:
                ev.append(e)
                if postproc == "terminate" and e[0] in ("fail", "error", "warn", "stray"): end = "term"; return
        for _ in range(rng.randrange(1, 5)):
            c = rng.randrange(16)
            if c < 9: add(self.one(d, postproc))
            elif c == 9 and self.catch[-1]:
                e = rng.choice(list(EXC)); ln = self.emit(d, f"sig('cerror', {e})"); add([("stray", e)])
            elif c == 10:
                e = rng.choice(list(EXC)); self.emit(d, f"boom({e})")
                if not end: ev.append(("crash", e)); end = "exc"
            elif c == 11:
                self.emit(d, "with catch_signals(False):"); self.catch.append(False)
                x = []
                for _ in range(rng.randrange(1, 3)): x += self.one(d + 1, postproc)
                self.catch.pop(); add(x); self.ctx.event("catch_signals")
            elif c == 12 and session and d == 1 and rng.random() < 0.6:    # in a nested testset: see terminate_nested
                self.emit(d, "terminate()")
                if not end: ev.append(("terminated",)); end = "term"
            elif depth:
                x, e2 = self.testset(d, depth - 1, postproc, session)
                if not end:
                    ev.append(x)
                    if e2 == "term": end = "term"
            else: add(self.one(d, postproc))
            k = self.num(); self.emit(d, f"L({k})")
            if not end: ev.append(("log", k))
        return ev, end

    def testset(self, d, depth, postproc, session):
        rng = self.rng
        name = f"s{self.num()}" if rng.random() < 0.7 else None
        p = rng.choice([None, None, None, "record"])
        args = ([repr(name)] if name else []) + ([f"postproc={p}"] if p else [])
        self.emit(d, f"with testset({', '.join(args)}):")
        ev, end = self.items(d + 1, depth, p or postproc, session)
        return ("testset", name, p, ev), ("term" if end == "term" else None)

class Model:
    """Interprets the expected events: the printed lines, counters, postproc calls and the trace."""
    def __init__(self): self.out, self.trace, self.post, self.cnt = [], [], [], [0, 0, 0, 0]
    def count(self, kind):
        r, f, e, w = {"pass": (1, 0, 0, 0), "fail": (1, 1, 0, 0), "error": (1, 0, 1, 0), "warn": (0, 0, 0, 1), "stray": (1, 0, 1, 0), "crash": (1, 0, 1, 0)}[kind]
        self.cnt = [a + b for a, b in zip(self.cnt, (r, f, e, w))]
    def testset(self, name, p, ev, level, post):
        start = list(self.cnt); post = p or post
        self.out.append(("begin", level, name))
        for x in ev:
            k = x[0]
            if k == "testset": self.testset(*x[1:], level + 1, post)
            elif k == "log": self.trace.append((x[1], None))
            elif k == "terminated": self.out.append(("terminating",))
            else:
                self.count(k)
                if k == "pass": continue
                self.out.append((k, level + 1) + x[1:5])
                if k == "crash": continue
                if post == "record": self.post.append(x)
                if post == "terminate": self.out.append(("terminating",))
        self.out.append(("end", level, name, tuple(b - a for a, b in zip(start, self.cnt))))

END = re.compile(r"Testset(?: '(\w+|top level)')? END: Pass (\d+), Fail (\d+), Error (\d+), Total (\d+) \((\d+)% pass\)(?: \+ (\d+) Warn)?$")
def parse(line):
    line = ANSI.sub("", line)
    m = re.match(r"(\*+) ", line)
    if line == "** TERMINATING SESSION": return ("terminating",)
    level = len(m[1]) // 2 if m else 0
    rest = line[m.end():] if m else line
    m = re.match(r"Testset(?: '(.*)')? BEGIN$", rest)
    if m: return ("begin", level, m[1])
    m = END.match(rest)
    if m:
        p, f, e, t, pct, w = (int(x or 0) for x in m.groups()[1:])
        if p + f + e != t or abs(pct - (100 * p / t if t else 100)) > 1 or (pct == 100) != (p == t): return ("bad summary", rest)
        return ("end", level, m[1], (t, f, e, w))
    m = re.match(r"(SESSION.*) (BEGIN|END)$", rest)
    if m: return ("session", m[2], m[1])
    for a, b in (("FAIL", "fail"), ("ERROR", "error"), ("WARNING", "warn")):
        if rest.startswith(a + ": "):
            body = rest[len(a) + 2:]
            m = re.match(r"\[([^\]]*):(\d+)\] ", body)
            return (b, level, int(m[2]), body[m.end():]) if m else ("bad report", rest)
    if rest.startswith("Testset received signal outside test[]: "): return ("stray", level, rest)
    if rest.startswith("Testset terminated by exception outside test[]: "): return ("crash", level, rest)
    return ("unknown", rest)

def agree(got, want):
    """Does the printed line report the expected event?"""
    if got[0] != want[0]: return False
    k = got[0]
    if k in ("begin", "end", "terminating", "session"): return got == want
    if k in ("stray", "crash"): return got[1] == want[1] and want[2] in got[2] and "payload" in got[2]
    _, level, origin, line, msg, mode = want
    if got[1] != level or got[2] != line: return False
    text = got[3]
    if origin in ("fail", "error", "warn"): return text == msg
    if (f"with message '{msg}'" in text) != (msg is not None): return False
    return text.startswith("Test failed: " if k == "fail" else "Test errored: ")

@section(quick=500, thorough=9000, deadline=60, require={"the": 100, "implicit the": 30, "block": 60, "terminated session": 8, "crash": 30, "stray": 15, "postproc": 60, "catch_signals": 20, "test in a test": 20, "test in a test block": 20, "nested testset": 50, "log": 200})
def sessions(ctx, rng):
    import unpythonic.test.fixtures as fx
    g = Gen(rng, ctx)
    session = rng.random() < 0.6
    if session:
        nm = rng.choice([None, "sess"])
        g.emit(0, f"with session({nm!r}):" if nm else "with session():")
        ev, end = g.items(1, 3, None, True)
        g.emit(0, "L('after')")
        tree = ("testset", "top level", None, ev)
    else: tree, end = g.testset(0, 3, None, False); g.emit(0, "L('after')")
    h = HEAD.count("\n")
    src = HEAD + "\n".join(g.lines) + "\n"
    m = Model(); m.testset(*tree[1:], 0, None); m.trace.append(("after", None))
    out, posts = [], []
    saved = fx.TestConfig.printer, fx.TestConfig.use_color, fx.TestConfig.postproc
    before = [b.get() for b in (fx.tests_run, fx.tests_failed, fx.tests_errored, fx.tests_warned)]
    fx.TestConfig.printer, fx.TestConfig.use_color, fx.TestConfig.postproc = (lambda s: out.append(s)), rng.random() < 0.3, None
    err = None
    p = None
    names = make_names(); names.update(record=posts.append, R=lambda x: x)
    trace = []
    names["L"] = lambda i, v=None: trace.append((i, v))
    try: Program(src, **names)
    except Exception as e: err = e
    finally: fx.TestConfig.printer, fx.TestConfig.use_color, fx.TestConfig.postproc = saved
    ctx.check(err is None, "the test session raised", src=src, err=repr(err)[:600])
    if err is not None: return
    ctx.check(trace == m.trace, "other statements ran than should", src=src, got=trace, expected=m.trace)
    lines = [parse(s) for s in out]
    if session:
        ok = lines and lines[0][:2] == ("session", "BEGIN") and lines[-1][:2] == ("session", "END")
        ctx.check(ok and all(("'sess'" in l[2]) == (nm is not None) for l in (lines[0], lines[-1])), "no BEGIN or END of the session", src=src, out=out[:1] + out[-1:])
        lines = lines[1:-1]
    want = [w if w[0] not in ("fail", "error", "warn") else (w[0], w[1], w[2], w[3] + h, w[4], w[5]) for w in m.out]
    bad = next((i for i in range(max(len(lines), len(want))) if i >= len(lines) or i >= len(want) or not agree(lines[i], want[i])), None)
    ctx.check(bad is None, "the report differs from what happened", src=src, at=bad, got=lines[max(0, (bad or 0) - 1):(bad or 0) + 2], expected=want[max(0, (bad or 0) - 1):(bad or 0) + 2])
    after = [b.get() for b in (fx.tests_run, fx.tests_failed, fx.tests_errored, fx.tests_warned)]
    ctx.check([b - a for a, b in zip(before, after)] == m.cnt, "counters differ from what happened", src=src, got=[b - a for a, b in zip(before, after)], expected=m.cnt)
    ctx.check(fx._threadlocals.nesting_level == 0 and not fx._threadlocals.postproc_stack and list(fx._threadlocals.catch_uncaught_signals) == [True], "state left behind by a session", src=src)
    ctx.check(len(posts) == len(m.post), "postproc called a different number of times", src=src, got=len(posts), expected=len(m.post))
    for c, x in zip(posts, m.post):
        ctx.event("postproc")
        if x[0] == "stray": ctx.check(type(c) is EXC[x[1]], "postproc got another condition", src=src, got=repr(c)); continue
        kind, origin, line, msg, mode, v, cap = x
        ok = type(c) is {"fail": fx.TestFailure, "error": fx.TestError, "warn": fx.TestWarning}[kind]
        ok = ok and c.origin == origin and c.custom_message == msg and c.lineno == line + h and c.mode is getattr(fx, mode)
        ctx.check(ok, "a test reported itself wrongly to postproc", src=src, expected=x, got=(type(c).__name__, c.origin, c.custom_message, c.lineno - h, c.mode))
        if mode != "completed": ctx.check(type(c.result) is EXC[v] and c.result.args == ("payload",), "the exception is not in the report", src=src, expected=v, got=repr(c.result))
        elif v is not None and origin == "test": ctx.check(c.result == v and type(c.result) is type(v), "the result is not in the report", src=src, expected=v, got=repr(c.result))
        if cap is not None:
            got = [b for a, b in c.captured_values]
            ctx.check(got == cap, "the captured values differ", src=src, at=line + h, expected=cap, got=got); ctx.event("captures")
            if cap and origin == "test" and kind == "fail":
                t = ANSI.sub("", str(c)); ctx.check(all(f" = {b!r}" in t for b in cap), "a captured value is not shown", src=src, got=t)
    def walk(t, d):
        if d: ctx.event("nested testset")
        for x in t[3]:
            if x[0] == "testset": walk(x, d + 1)
            else: ctx.event(x[0]); ctx.seen(x[0], x[1] if x[0] in ("fail", "error") else None, x[4] if x[0] in ("fail", "error") else None, d)
    walk(tree, 0)
    if end == "term": ctx.event("terminated session")
    ctx.seen(session, end, tuple(min(c, 8) for c in m.cnt))

@section(quick=12, thorough=100, require={"terminated": 12})
def terminate_nested(ctx, rng):
    """terminate() in a testset nested in the session ends the session."""
    import unpythonic.test.fixtures as fx
    depth = rng.randrange(1, 4)
    src, post = HEAD + "with session():\n", rng.random() < 0.5
    for i in range(depth): src += "    " * (i + 1) + ("with testset(postproc=terminate):\n" if post and i == depth - 1 else "with testset():\n")
    src += "    " * (depth + 1) + ("test[0]\n" if post else "terminate()\n") + "    " * (depth + 1) + "L(0)\n"
    for i in range(depth, 0, -1): src += "    " * i + f"L({i})\n"
    src += "L('after')\n"
    trace, out = [], []
    saved = fx.TestConfig.printer, fx.TestConfig.use_color
    fx.TestConfig.printer, fx.TestConfig.use_color = out.append, False
    try: Program(src, L=lambda i: trace.append(i))
    finally: fx.TestConfig.printer, fx.TestConfig.use_color = saved
    ctx.event("terminated"); ctx.seen(depth, post)
    ctx.check(0 not in trace and trace[-1:] == ["after"] and "** TERMINATING SESSION" in out, "terminate() did not end its testset, or ended more than the session", src=src, got=trace)
    ctx.check(trace == ["after"], "statements after the terminated testset ran", key="terminate-nested-testset" if trace == [*range(depth, 0, -1), "after"] else None, src=src, got=trace)
