"""C31: generated functions under `with tco` and `with autoreturn`, against the same source without the macro."""
import re, sys
from vp.core import section
from vp.lang import Boom
from vp.macro import Program, res

HEAD = ("from unpythonic.syntax import macros, tco, autoreturn, let, letseq, letrec, do, local, cond, aif, it\n"
        "from unpythonic import call_ec, Values\n")
DATA = ["0", "''", "[]", "None", "()", "False", "True", "7", "'s'", "[1, 2]", "(n, acc)", "acc", "n", "-acc", "acc * 2", "{'k': n}",
        "Values(n, acc)", "f'{n}:{acc}'", "[i for i in range(n)]", "n == acc", "not acc"]

class Fun:
    """Writes function bodies. Every call passes a smaller n; a function begins by returning when n is used up."""
    def __init__(self, rng, deep=False, autoreturn=False, tco=True):
        self.r, self.deep, self.auto, self.tco, self.k = rng, deep, autoreturn, tco, 0
        self.it, self.acc = False, 'acc'
    def id(self): self.k += 1; return self.k
    def pick(self, *opts): return self.r.choice(opts)
    # -- expressions not in tail position
    def num(self, d=1):
        r = self.r
        k = r.choice(["acc", "const", "add", "L", "len", "lam", "comp", "call"])
        if k == "const": return str(r.randrange(5))
        if k == "add" and d: return f"({self.num(d - 1)} + {self.num(d - 1)})"
        if k == "L": return f"L({self.id()}, acc + {r.randrange(3)})"
        if k == "len": return f"len({self.pick('[n, acc]', '()', 'str(acc)')})"
        if k == "lam" and d: return f"(lambda x, *, y=1: L({self.id()}, x + y))({self.num(d - 1)})"
        if k == "comp" and d: return f"sum([(lambda y: max(y, {r.randrange(3)}))(i) for i in range(3)])"
        if k == "call" and d and not self.deep: return f"len([{self.call(0)}])"
        return "acc"
    def val(self, data=False):
        w = "[%s]" if data else "%s"   # data: not a call
        if self.r.random() < 0.2: return w % f"L({self.id()}, {self.r.choice(DATA)})"
        if self.it and self.r.random() < 0.3: return "it"
        if self.r.random() < 0.1: return w % f"fail({self.id()})" if not self.deep else "acc"
        return self.r.choice(DATA)
    def test(self):
        return self.pick("n % 2", "acc % 3 == 0", "n > 2", "acc", "[]", self.val(), f"L({self.id()}, n % 3)", f"not {self.num()}")
    def call(self, d):
        r = self.r
        f, shape = r.choice(self.funs)
        m = r.choice(["n - 1", "n - 1", "n - 2"])
        a = self.num(d)
        if shape == "kw" or r.random() < 0.3: return f"{f}(n={m}, acc={a})" if shape != "star" else f"{f}({m}, *[{a}])"
        if r.random() < 0.2: return f"{f}(*[{m}], **{{'acc': {a}}})" if shape != "star" else f"{f}(*({m}, {a}))"
        if shape == "dflt" and r.random() < 0.3: return f"{f}({m})"
        return f"{f}({m}, {a})"
    # -- tail position
    def tail(self, d, data=False):
        r = self.r
        if d <= 0 or r.random() < 0.1:
            if data or (not self.deep and r.random() < 0.3): return self.val(data)
            return self.call(1)
        k = r.choice(["call", "if", "and", "or", "andor", "let", "letseq", "letrec", "do", "cond", "aif", "lam", "ec", "builtin", "par"])
        T = lambda: self.tail(d - 1, data)
        def B(e=None):   # brackets in a macro body denote several items
            e = e or T()
            return f"[{e}]" if e.lstrip("(")[0] == "[" else e
        if data and k in ("letrec", "lam", "ec", "builtin"): k = "if"
        if k == "if": return f"({T()} if {self.test()} else {T()})"
        # `and` with a tail call gives False for any falsey operand (the repository's tests require it)
        if k == "and": return f"(bool({self.val()}) and {T()})" if not self.deep else f"({self.id()} and {T()})"
        if k == "or": return f"({self.val()} or {T()})" if not self.deep else f"([] or {T()})"
        if k == "andor":
            return r.choice(["({0} and {1} or {2})", "({0} or bool({1}) and {2})", "({0} or {1} or {2})", "(0 or {0} or [] or {1} or {2})", "(1 and bool({0}) and bool(n) and bool({1}) and {2})", "((bool({0}) and bool({1})) and {2})", "(bool({0}) and ({1} or {2}))"]) \
                .format(*((self.val(), self.val()) if not self.deep else ("n", "acc")), T()) if not self.deep else f"(n and (0 or {T()}))"
        if k == "let": x = f"v{self.id()}"; return f"let[{x} := {self.num()}][{B(self.sub(T(), x))}]"
        if k == "letseq": return f"letseq[acc := {self.num()}, acc := acc + 1][{B()}]"
        if k == "letrec": h = f"h{self.id()}"; return f"letrec[{h} := lambda x: {self.sub(T(), 'x')}][{h}({self.num()})]"
        if k == "do": x = f"v{self.id()}"; return f"do[L({self.id()}), local[{x} := {self.num()}], {self.sub(T(), x)}]"
        if k == "cond": return f"cond[{B(self.test())}, {B()}, [L({self.id()}), {self.test()}], [L({self.id()}), {T()}], {B()}]"
        if k == "aif":
            old, self.it = self.it, True
            b = B(); c = B()
            self.it = old
            return f"aif[{B(self.val()) if not self.deep else 'n % 2'}, {b}, {c}]"
        if k == "lam": return f"(lambda x, y=0: {self.sub(T(), 'x')})({self.num()})"
        if k == "ec" and not self.deep:
            return f"call_ec(lambda ec: do[ec({T()}) if {self.test()} else L({self.id()}), {T()}])"
        if k == "builtin" and not self.deep: return self.pick("max(n, acc)", "list((n, acc))", "str(acc)", "dict(n=n)", "acc.__add__(1)", "Values(acc, n=n)", "[n].index(n)")
        if k == "par": return f"({T()})"
        return self.val(True) if data else self.call(1)
    def sub(self, s, x):
        """Let the variable x stand for acc in some places."""
        return s if self.r.random() < 0.5 else s.replace("acc +", x + " +", 1)
    # -- statements. ret(e) is a statement that gives the value e.
    def ret(self, e, I): return (f"{I}return {e}\n", f"{I}{e}\n") if self.auto else (f"{I}return {e}\n",) * 2
    def body(self, d, ind, prot=False, infun=True):
        """A list of statements that ends in tail position, with and without autoreturn. prot: in a try or with block, where no tail calls are made."""
        r, I = self.r, " " * ind
        a = b = ""
        for _ in range(r.randrange(3)):
            k = r.choice(["L", "acc", "early", "for", "def", "expr"])
            s = ""
            if k == "L": s = f"{I}L({self.id()}, acc)\n"
            elif k == "acc": s = f"{I}acc = {self.num()}\n"
            elif k == "early": s = f"{I}if {self.test()}: return{' ' + self.tail(1, prot) if r.random() < 0.9 else ''}\n"
            elif k == "for" and not self.deep: s = f"{I}for i in range(3):\n{I} if i == acc: return {self.tail(1, prot)}\n{I} L({self.id()}, i)\n"
            elif k == "expr": s = f"{I}{self.num()}\n"
            elif k == "def" and d and not self.deep:
                h = f"h{self.id()}"
                x, y = self.body(d - 1, ind + 1)
                a += f"{I}def {h}(n, acc=1):\n{I} if n < 0: return n\n" + x
                b += f"{I}def {h}(n, acc=1):\n{I} if n < 0: return n\n" + y
                if r.random() < 0.5: s = f"{I}acc = len([{h}(n - 1)])\n"
            a += s; b += s
        kinds = ["ret", "ret", "if", "if"]
        if self.auto or not self.deep: kinds += ["with", "try", "none", "defn"]
        if self.auto: kinds += ["elif", "class"]
        k = r.choice(kinds) if d else "ret"
        p = prot or self.tco
        if k == "if":
            x, y = self.body(d - 1, ind + 1, prot), self.body(d - 1, ind + 1, prot)
            f = lambda j: f"{I}if {t}:\n{x[j]}{I}else:\n{y[j]}"
            t = self.test()
            return a + f(0), b + f(1)
        if k == "elif":
            x, y, z = (self.body(d - 1, ind + 1, prot) for _ in range(3))
            t, u, full = self.test(), self.test(), r.random() < 0.7
            f = lambda j: f"{I}if {t}:\n{x[j]}{I}elif {u}:\n{y[j]}" + (f"{I}else:\n{z[j]}" if full else "")
            return a + f(0), b + f(1)
        if k == "with":
            x = self.body(d - 1, ind + 1, p)
            f = lambda j: f"{I}with CM({self.k}) as c:\n{x[j]}"
            return a + f(0), b + f(1)
        if k == "try":
            x, y, z, w = (self.body(d - 1, ind + 1, p) for _ in range(4))
            i, he, hf = self.id(), r.random() < 0.5, r.random() < 0.5
            star = "*" * (r.random() < 0.2 and not self.auto)
            if star: y = w = (f"{I} L({self.id()}, acc)\n",) * 2   # no return statement may appear in an except* block
            pre = f"{I} if {self.test()}: raise ValueError({i})\n{I} if {self.test()}: raise KeyError({i})\n"
            last = f"{I} L({self.id()}, acc)\n"   # with an else clause, the end of the try clause is not in tail position
            f = lambda j: (f"{I}try:\n{pre}{last if he else x[j]}{I}except{star} ValueError:\n{y[j]}{I}except{star} KeyError as ex:\n{w[j]}"
                           + (f"{I}else:\n{z[j]}" if he else "") + (f"{I}finally:\n{last}" if hf else ""))
            return a + f(0), b + f(1)
        if k == "none":
            s = self.pick(f"{I}acc = 5\n", f"{I}pass\n", f"{I}for i in range(2): L({self.id()}, i)\n", f"{I}while n > 3: n -= L({self.id()}, 1)\n")
            return a + s, b + s
        if k == "defn":
            h = f"h{self.id()}"
            x, y = self.body(d - 1, ind + 1)
            hd = f"{I}def {h}(n=0, acc=2):\n{I} if n < 0: return n\n"
            return a + hd + x + f"{I}return {h}\n", b + hd + y + (f"{I}return {h}\n" if not self.auto else "")
        if k == "class":
            h = f"C{self.id()}"
            s = f"{I}class {h}:\n{I} z = {r.randrange(9)}\n"
            return a + s + f"{I}return {h}\n", b + s
        x = self.ret(self.tail(d + 1, prot), I)
        return a + x[0], b + x[1]
    def program(self, ind=1):
        r = self.r
        self.funs, defs = [], []
        for i in range(r.randrange(1, 4)):
            kind = r.choice(["def", "def", "def", "lam", "meth", "smeth", "cmeth", "inst", "deco", "prop"] + ["gen", "async"] * (not self.deep and not self.auto))
            shape = r.choice(["pos", "pos", "dflt", "kw", "star"])
            if kind == "lam" and self.auto: kind = "def"
            name = {"meth": f"K{i}.m", "smeth": f"K{i}.m", "cmeth": f"K{i}.m", "inst": f"k{i}.m", "prop": f"k{i}.m"}.get(kind, f"f{i}")
            defs.append((kind, shape, i))
            self.funs.append(({"meth": f"K{i}().m"}.get(kind, name), shape))
        self.real = [(f, s) for (f, s), d in zip(self.funs, defs) if d[0] not in ("gen", "async")]
        self.all, out = self.funs, ["", ""]
        for (kind, shape, i), (name, _) in zip(defs, self.all):
            I = " " * ind
            ps = {"pos": "n, acc", "dflt": "n, acc=3", "kw": "*, n, acc", "star": "n, *rest"}[shape]
            if kind == "lam" and shape == "star": ps = "n, acc, *rest"
            pre = "" if shape != "star" or kind == "lam" else "acc = rest[0] if rest else 1\n"
            d = r.randrange(1, 4)
            g = "{p}L('{k}', n)\n{p}if n <= 0: return acc\n"
            def fn(I, head):
                body = [g.format(p=I + " ", k=name), "", ""]
                x = self.body(d, len(I) + 1)
                return [f"{I}{head}" + (f"{I} {pre}" if pre else "") + body[0] + y for y in x]
            if kind == "lam":
                t = f"{I}{name} = lambda {ps}: do[L('{name}', n), acc if n <= 0 else {self.tail(d + 1)}]\n"
                x = [t, t]
            elif kind in ("def", "deco"): x = [(f"{I}@DECO\n" if kind == "deco" else "") + y for y in fn(I, f"def f{i}({ps}):\n")]
            elif kind in ("meth", "smeth", "cmeth", "inst"):
                sp = {"meth": "self, ", "inst": "self, ", "smeth": "", "cmeth": "cls, "}[kind] + ps
                dec = {"smeth": f"{I} @staticmethod\n", "cmeth": f"{I} @classmethod\n"}.get(kind, "")
                x = [f"{I}class K{i}:\n{dec}{y}" + (f"{I}k{i} = K{i}()\n" if kind == "inst" else "") for y in fn(I + " ", f"def m({sp}):\n")]
            elif kind == "prop":   # a property that gives a function
                y = fn(I + "  ", f"def q({ps}):\n")
                x = [f"{I}class K{i}:\n{I} @property\n{I} def m(self):\n{z}{I}  return (lambda: q)()\n{I}k{i} = K{i}()\n" for z in y]
            elif kind == "gen":
                h = f"{I}def f{i}_gen({ps}):\n"
                y = fn(I, f"def f{i}_gen({ps}):\n")[0] + f"{I} yield -1\n"
                x = [y + f"{I}def f{i}({ps}):\n{I} {pre}{I + ' ' if pre else ''}return DRAIN(f{i}_gen({self.args(shape)}))\n"] * 2
            else:
                y = fn(I, f"async def f{i}_co({ps}):\n")[0]
                x = [y + f"{I}def f{i}({ps}):\n{I} {pre}{I + ' ' if pre else ''}return AWAIT(f{i}_co({self.args(shape)}))\n"] * 2
            out[0] += x[0]; out[1] += x[1]
        return out
    def args(self, shape): return "n=n, acc=acc" if shape == "kw" else "n, acc"

class CM:
    """A context manager that does nothing."""
    def __init__(self, i): self.i = i
    def __enter__(self): return self.i
    def __exit__(self, *a): return False
def DECO(f):
    def g(*a, **k): return f(*a, **k)
    return g
def DRAIN(g):
    """The items of a generator and its return value."""
    out = []
    while True:
        try: out.append(next(g))
        except StopIteration as e: return (out, e.value)
def AWAIT(c):
    try: c.send(None)
    except StopIteration as e: return ("await", e.value)

NAMES = dict(CM=CM, DECO=DECO, DRAIN=DRAIN, AWAIT=AWAIT)

class Run(Program):
    def __init__(self, src, fuel=400):
        super().__init__(src, **NAMES)
        L0, self.depth = self.mod.L, 0
        def L(i, v=None):
            if len(self.trace) >= fuel: raise Boom("fuel")
            if isinstance(i, str):
                f, k = sys._getframe(), 0
                while f: f, k = f.f_back, k + 1
                self.depth = max(self.depth, k)
            return L0(i, v)
        self.mod.L = L

def canon(v, k=0):
    """Functions are compared by what they return."""
    if isinstance(v, type): return ("class", v.__name__, getattr(v, "z", None))
    if callable(v) and k < 3: return ("fun", v.__name__, canon(res(v), k + 1))
    if type(v) in (tuple, list): return (type(v).__name__, [canon(x, k) for x in v])
    return (type(v).__name__, v)

def calls(rng, g, n=None):
    for f, shape in g.all:
        m, a = (rng.randrange(9), rng.randrange(4)) if n is None else (n, 1)
        yield f"{f}(n={m}, {g.acc}={a})" if shape == "kw" else f"{f}({m}, {a})"

def compare(ctx, rng, g, plain, under):
    """The macro version against the plain one."""
    for c in calls(rng, g):
        out = []
        for m in (plain, under):
            del m.trace[:]
            out.append((canon(res(eval, c, m.mod.__dict__)), list(m.trace)))
        (want, wt), (got, gt) = out
        ctx.event("calls"); ctx.event("events", len(wt)); ctx.event("raised", want[1][0] != ("str", "ok"))
        ctx.check(got == want, "wrong result", call=c, got=got, want=want)
        ctx.check(gt == wt, "wrong effects, or in the wrong order", call=c, got=gt[:40], want=wt[:40])

@section(quick=1100, thorough=30000, deadline=200, require={"calls": 1000, "events": 5000, "raised": 60})
def tco(ctx, rng):
    """with tco: the same results and effects as without it."""
    g = Fun(rng)
    src, head = g.program()[0], HEAD
    if len(src) > 7000: return
    if "aif[" not in src:   # any name is as good as any other
        g.acc = rng.choice(["acc", "acc", "it", "x", "e", "jump", "others"])
        head, src = HEAD.replace(", aif, it", ""), re.sub(r"\bacc\b", g.acc, src)
    ctx.note(src=src)
    compare(ctx, rng, g, Run(head + "if True:\n" + src), Run(head + "with tco:\n" + src))
    ctx.seen(src)

@section(quick=350, thorough=10000, deadline=200, require={"chains": 300, "long": 100})
def depth(ctx, rng):
    """Tail calls through any tail position: the stack does not grow with the length of the chain."""
    g = Fun(rng, deep=True)
    src = g.program()[0]
    if len(src) > 7000: return
    ctx.note(src=src)
    under = Run(HEAD + "with tco:\n" + src, fuel=10**6)
    compare(ctx, rng, g, Run(HEAD + "if True:\n" + src), under)
    n = rng.choice([300, 1000, 2500])
    for c, c0 in zip(calls(rng, g, n), calls(rng, g, 12)):
        under.depth = 0; del under.trace[:]
        got0 = res(eval, c0, under.mod.__dict__)
        short = under.depth
        under.depth = 0; del under.trace[:]
        got = res(eval, c, under.mod.__dict__)
        ctx.event("chains"); ctx.event("long", len(under.trace) > 200)
        ctx.check(got[0] == "ok", "a long chain of tail calls failed", call=c, got=got)
        ctx.check(under.depth <= short + 12, "the stack grows with the length of the chain", call=c, short=short, long=under.depth)
    ctx.seen(src)

@section(quick=800, thorough=20000, deadline=200, require={"calls": 700, "events": 4000, "raised": 40})
def autoreturn(ctx, rng):
    """with autoreturn: as if `return` were written in each tail position."""
    both = rng.random() < 0.4
    g = Fun(rng, autoreturn=True, tco=both)
    want, src = g.program()
    if len(src) > 7000: return
    ctx.note(src=src, want=want)
    compare(ctx, rng, g, Run(HEAD + "if True:\n" + want), Run(HEAD + f"with autoreturn{', tco' * both}:\n" + src))
    ctx.event("combo", both)
    ctx.seen(src)
