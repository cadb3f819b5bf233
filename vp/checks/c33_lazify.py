"""C33: programs under `with lazify`, against a call-by-need interpreter; lazy arguments through the functions of the library."""
import ast
import inspect
import sys
from unpythonic.lazyutil import Lazy, force, force1, islazy, passthrough_lazy_args
from unpythonic import (curry, flip, rotate, apply, composel, composer, composel1, pipe, pipe1, piped, notf, andf, orf,
                        call, callwith, memoize, trampolined, jump, Values, box, Some, cons, ll, llist, unbox, tokth, to1st, tolast, withself, composerc, frozendict, piped1, lazy_piped1, exitpipe)
from vp.core import section
from vp.lang import Boom
from vp.macro import Program, res

HEAD = ("from unpythonic.syntax import macros, lazify, lazy, lazyrec, let, letrec, do, local, tco, autocurry\n"
        "from unpythonic import box, Some, unbox, frozendict\n")
BLOCKS = ["lazify"] * 5 + ["lazify, tco", "lazify, tco", "lazify, autocurry", "lazify, autocurry"]   # not with both: a test of the repository relies on eager tail call arguments there

# -- generator -----------------------------------------------------------------------------
# Every variable has a kind: v anything, s a sequence of two, d a dict with keys a and b.
class Gen:
    def __init__(self, rng, block): self.r, self.k, self.funs, self.block = rng, 0, [], block
    def id(self): self.k += 1; return self.k
    def names(self, ns, kind): return [n for n, k in ns if k == kind]
    def ex(self, ns, d, kind="v"):
        r = self.r
        if kind != "v":
            c = self.names(ns, kind)
            k = r.choice(["lit", "lit", "name", "name", "call", "L", "if", "item"]) if d > 0 else r.choice(["lit", "name"])
            if k == "name" and c: return r.choice(c)
            if k == "if": return f"({self.ex(ns, d - 1, kind)} if {self.ex(ns, d - 1)} else {self.ex(ns, d - 1, kind)})"
            if k == "L": return f"L({self.id()}, {self.ex(ns, d - 1, kind)})"
            if k == "call":
                f = [g for g in self.funs if g["ret"] == kind]
                if f: return self.call(r.choice(f), ns, d)
            a, b = self.ex(ns, d - 1), self.ex(ns, d - 1)
            if kind == "s":
                if r.random() < 0.15: return f"[*{self.ex(ns, d - 1, 's')}]" if d > 0 else f"({a}, {b})"
                if "autocurry" in self.block: return r.choice([f"({a}, {b})", f"[{a}, {b}]"])   # constructor calls are not seen through its expansion
                return r.choice([f"({a}, {b})", f"[{a}, {b}]", f"tuple(({a}, {b}))", f"list([{a}, {b}])"])
            return f"{{'a': {a}, 'b': {b}}}" if "autocurry" in self.block or r.random() < 0.5 else f"dict(a={a}, b={b})"
        if d <= 0:
            c = self.names(ns, "v")
            k = r.choice(["name", "name", "name", "const", "fail"])
            if k == "name" and c: return r.choice(c)
            if k == "fail": return f"fail({self.id()})" if r.random() < 0.6 else f"L({self.id()}, {r.randrange(9)})"
            return str(r.randrange(9))
        k = r.choice(["leaf", "L", "L", "L", "tuple", "list", "if", "or", "and", "call", "call", "call", "call", "item", "item", "eq", "let", "letrec", "do", "lam", "comp", "fstr", "box", "ns", "strict", "hof", "some"])
        e = lambda: self.ex(ns, d - 1)
        if k == "L": return f"L({self.id()}, {e()})"
        if k == "tuple": return f"({e()}, {e()})"
        if k == "list": return f"[{e()}, {e()}]"
        if k == "if": return f"({e()} if {e()} else {e()})"
        if k in ("or", "and") and "tco" in self.block: k = "or"
        if k in ("or", "and"): return f"({e()} {k} {e()})"
        if k == "eq": return f"({e()} {r.choice(['==', '!='])} {e()})"
        if k == "call" and self.funs: return self.call(r.choice(self.funs), ns, d)
        if k == "item":
            s, i = self.names(ns, "s"), r.choice(["0", "1", "-1"] if r.random() < 0.7 else [f"(1 if {e()} else 0)", f"L({self.id()}, 0)"])
            dd = self.names(ns, "d")
            if s and r.random() < 0.6: return f"{r.choice(s)}[{i}]" if r.random() < 0.8 else f"{r.choice(s)}[{r.choice([':1', '1:', '::-1'])}]"
            if dd: return f"{r.choice(dd)}['{r.choice('ab')}']"
            f = [g for g in self.funs if g["ret"] == "s"]
            if f: return f"{self.call(r.choice(f), ns, d)}[{i}]"
        if k in ("let", "letrec"):
            xs = [f"x{self.id()}" for _ in range(r.randrange(1, 4))]
            bs, inner = [], list(ns)
            for x in xs:
                kd = r.choice("vvvsd")
                bs.append(f"({x}, {self.ex(inner if k == 'letrec' else ns, d - 1, kd)})"); inner.append((x, kd))
            b = self.ex(inner, d - 1)
            return f"{k}[{', '.join(bs)}][{b if b[0] != '[' else '(%s,)' % b}]"
        if k == "do":
            x = f"x{self.id()}"
            return f"do[local[{x} := {e()}], {e()}, {self.ex(ns + [(x, 'v')], d - 1)}]"
        if k == "lam":
            ps = [f"x{self.id()}" for _ in range(r.randrange(1, 3))]
            return f"(lambda {', '.join(ps)}: {self.ex(ns + [(p, 'v') for p in ps], d - 1)})({', '.join(e() for _ in ps)})"
        if k == "comp":
            x = f"x{self.id()}"
            return f"[{self.ex(ns + [(x, 'v')], d - 1)} for {x} in {self.ex(ns, d - 1, 's')}]"
        if k == "fstr": return f"f'{{{self.ex(ns, 0) if r.random() < 0.5 else 'L(%d, 5)' % self.id()}}}'"
        if k == "box": return f"unbox(box({e()}))"
        if k == "some": return f"Some({e()}).x"
        if k == "ns": return f"NS.a" if r.random() < 0.3 else f"NS.pick({e()}, {e()})"
        if k == "strict": return f"strict({e()}, {self.ex(ns, d - 1, r.choice('sd'))}, kw={e()})"
        if k == "hof":
            f = [g for g in self.funs if g["sig"] == "v" and g["ret"] == "v"]
            if f: return f"twice({r.choice(f)['name']}, {e()})"
        return self.ex(ns, 0)
    def call(self, f, ns, d):
        r, a = self.r, []
        ps = list(f["params"])
        # a run of arguments through *, the rest by position or name
        pos = [self.ex(ns, d - 1, k) for _, k in ps]
        if r.random() < 0.1: i = r.randrange(len(pos)); pos[i] = f"lazy[{pos[i]}]" if r.random() < 0.5 else f"lazyrec[{pos[i]}]"
        if f["star"]: pos += [self.ex(ns, d - 1) for _ in range(r.randrange(3))]
        named = []
        if not f["star"] and r.random() < 0.4 and pos and "autocurry" not in self.block:
            j = r.randrange(len(pos)); named = [f"{n}={v}" for (n, _), v in zip(ps[j:], pos[j:])]; r.shuffle(named); pos = pos[:j]
        if f["kw"]:
            if r.random() < 0.7: named.append(f"{f['kw']}={self.ex(ns, d - 1)}")
        if len(pos) >= 2 and r.random() < 0.25: pos[:2] = [f"*({pos[0]}, {pos[1]})" if r.random() < 0.5 else f"*[{pos[0]}, {pos[1]}]"]
        elif f["star"] and r.random() < 0.3:
            pos.append(f"*{self.ex(ns, d - 1, 's')}")
        return f"{f['name']}({', '.join(pos + named)})"
    def stmts(self, ns, d, ind, depth, ret):
        r, o, I, ns = self.r, "", " " * ind, list(ns)
        for _ in range(r.randrange(0, 4)):
            k = r.choice(["L", "assign", "assign", "if", "try", "aug", "for", "def", "unpack", "setitem", "auged"])
            x = f"x{self.id()}"
            if k == "L": o += f"{I}L({self.id()}, {self.ex(ns, d)})\n"
            elif k == "assign":
                kd = r.choice("vvsd"); e = self.ex(ns, d, kd)
                if kd != "v" and r.random() < 0.3: e = "lazyrec" + {"s": f"[[{self.ex(ns, 1)}, {self.ex(ns, 1)}]]", "d": f"[{{'a': {self.ex(ns, 1)}, 'b': {self.ex(ns, 1)}}}]"}[kd]
                o += f"{I}{x} = {e}\n"; ns.append((x, kd))
            elif k == "if": o += f"{I}if {self.ex(ns, d)}:\n{I} return {self.ex(ns, d, ret)}\n"
            elif k == "try": o += f"{I}try: {x} = {self.ex(ns, d)}\n{I}except Boom as err: {x} = err.args\n"; ns.append((x, "v"))
            elif k == "aug":
                c = [n for n in self.names(ns, "v") if n[0] == "p" and n in self.own]
                if c: n = r.choice(c); o += f"{I}{n} = ({n},) if L({self.id()}, 1) else 0\n{I}{n} += ({self.ex([m for m in ns if m[0] != n], 1)},)\n"
            elif k == "auged":   # a parameter that is a promise
                c = [n for n in self.names(ns, "s") if n[0] == "q" and n in self.own]
                if c: n = r.choice(c); o += f"{I}{n} *= 1\n"
            elif k == "setitem":
                c = self.names(ns, "d")
                if c:
                    n, kk = r.choice(c), r.choice("ab")
                    o += f"{I}{n}['{kk}'] = {self.ex([m for m in ns if m[1] == 'v'], 1)}\n" if r.random() < 0.6 else f"{I}{n}['{kk}'] = 5\n{I}{n}['{kk}'] += 1\n"
            elif k == "for": o += f"{I}for {x} in {self.ex(ns, 1, 's')}: L({self.id()}, {self.ex(ns + [(x, 'v')], 1)})\n"
            elif k == "unpack": o += f"{I}{x}, y{x} = {self.ex(ns, d, 's')}\n"; ns += [(x, "v"), ("y" + x, "v")]
            elif k == "def" and depth:
                o += self.fun(f"h{self.id()}", ind, depth - 1, ns)
        return o + f"{I}return {self.ex(ns, d, ret)}\n"
    def fun(self, name, ind, depth, ns):
        r = self.r
        sig = r.choice("vvvsd") if r.random() < 0.3 else "v"
        ps = [(f"{'q' if r.random() < 0.3 else 'p'}{self.id()}", r.choice("vvvsd") if sig == "v" and i else sig) for i in range(r.randrange(1, 4))]
        f = dict(name=name, params=ps, star=f"a{self.id()}" if r.random() < 0.2 else None, kw=None, ret=r.choice("vvvvsd"))
        f["sig"] = "v" if len(ps) == 1 and ps[0][1] == "v" and not f["star"] else "-"
        if not f["star"] and r.random() < 0.3: f["kw"] = f"k{self.id()}"
        if r.random() < 0.05 and ps[-1][1] == "v" and "autocurry" not in self.block: ps[-1] = ("f", "v")   # an awkward name
        args = ", ".join([n for n, _ in ps] + (["*" + f["star"]] if f["star"] else []) + ([f"{f['kw']}={self.ex([m for m in ns], 1) if r.random() < 0.6 else 3}"] if f["kw"] else []))
        old, own, self.own = self.funs, getattr(self, "own", ()), {n for n, _ in ps}
        inner = list(ns) + ps + ([(f["kw"], "v")] if f["kw"] else [])
        if f["star"]: inner.append((f["star"], "v"))
        if r.random() < 0.12 and not ns:
            t = " " * ind + f"{name} = lambda {args}: {self.ex(inner, 3, f['ret'])}\n"
        else:
            t = " " * ind + f"def {name}({args}):\n{self.stmts(inner, 2, ind + 1, depth, f['ret'])}"
        self.funs, self.own = old + [f], own
        return t
    def program(self):
        out = ""
        for i in range(self.r.randrange(2, 6)):
            out += self.fun(f"f{i}", 1, 1, [])
        return out

# -- call by need --------------------------------------------------------------------------
class Thunk:
    def __init__(self, f): self.f, self.v = f, None
    def get(self):
        if self.f:
            try: self.v = (True, self.f())
            except Exception as e: self.v = (False, e)
            self.f = None
        if self.v[0]: return self.v[1]
        raise self.v[1]
def f1(v): return v.get() if isinstance(v, Thunk) else v
def deep(v):
    if isinstance(v, Thunk): return v.get()
    if type(v) is tuple: return tuple(deep(x) for x in v)
    if type(v) is list:
        for i, x in enumerate(v): v[i] = deep(x)
        return v
    if type(v) is dict:
        for k, x in list(v.items()): v[k] = deep(x)
        return v
    if isinstance(v, box): v.set(deep(v.get())); return v
    if isinstance(v, Some): return Some(deep(v.x))
    return v
class Ret(Exception): pass
class Scope:
    def __init__(self, up): self.d, self.up = {}, up
    def get(self, n):
        s = self
        while s:
            if n in s.d: return s.d[n]
            s = s.up
        raise NameError(n)
CTORS = {"list": list, "tuple": tuple, "dict": dict, "box": box, "Some": Some}
MACROS = {"let", "letrec", "do", "lazy", "lazyrec", "local"}
REFS = (ast.Name, ast.Attribute, ast.Subscript)
def macro(e): return e.value.id if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Name) and e.value.id in MACROS else "let" if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Subscript) and macro(e.value) in ("let", "letrec") else None
def isref(e): return isinstance(e, REFS) and not macro(e)
def literal(e): return isinstance(e, (ast.Tuple, ast.List, ast.Dict, ast.Set)) or isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in CTORS
OPS = {ast.Add: lambda a, b: a + b, ast.Mult: lambda a, b: a * b, ast.Eq: lambda a, b: a == b, ast.NotEq: lambda a, b: a != b, ast.Is: lambda a, b: a is b}

class Fn:
    """A lazy function."""
    def __init__(self, node, env, ev):
        self.node, self.env, self.ev, a = node, env, ev, node.args
        P = inspect.Parameter
        n = len(a.args) - len(a.defaults)
        default = lambda e: ev.ref(e, env) if isref(e) else ev.full(e, env)
        ps = [P(x.arg, P.POSITIONAL_OR_KEYWORD, default=P.empty if i < n else default(a.defaults[i - n])) for i, x in enumerate(a.args)]
        if a.vararg: ps.append(P(a.vararg.arg, P.VAR_POSITIONAL))
        self.sig = inspect.Signature(ps)
    def __call__(self, *args, **kw):
        b = self.sig.bind(*args, **kw); b.apply_defaults()
        s = Scope(self.env); s.d.update(b.arguments)
        if isinstance(self.node, ast.Lambda): return self.ev.full(self.node.body, s)
        try: self.ev.block(self.node.body, s)
        except Ret as r: return r.args[0]

class Need:
    def block(self, b, s):
        for t in b: self.stmt(t, s)
    def assign(self, t, v, s):
        if isinstance(t, ast.Name): s.d[t.id] = v
        elif isinstance(t, ast.Tuple):
            vs = list(v)
            if len(vs) != len(t.elts): raise ValueError
            for x, y in zip(t.elts, vs): self.assign(x, y, s)
        else: f1(self.flat(t.value, s))[self.full(t.slice, s)] = v
    def stmt(self, t, s):
        if isinstance(t, ast.Expr): self.full(t.value, s)
        elif isinstance(t, ast.Return): raise Ret(self.full(t.value, s))
        elif isinstance(t, ast.Assign): self.assign(t.targets[0], self.full(t.value, s), s)
        elif isinstance(t, ast.AugAssign):
            if isinstance(t.target, ast.Name):
                a = f1(s.get(t.target.id)); b = self.full(t.value, s)
                if isinstance(a, list) and isinstance(t.op, ast.Mult): a *= b
                else: a = OPS[type(t.op)](a, b)
                s.d[t.target.id] = a
            else:
                o, i = self.flat(t.target.value, s), self.full(t.target.slice, s)
                o[i] = OPS[type(t.op)](f1(o[i]), self.full(t.value, s))
        elif isinstance(t, ast.If):
            self.block(t.body if self.full(t.test, s) else t.orelse, s)
        elif isinstance(t, ast.For):
            for x in self.full(t.iter, s): self.assign(t.target, x, s); self.block(t.body, s)
        elif isinstance(t, ast.Try):
            try: self.block(t.body, s)
            except Boom as e: s.d["err"] = e; self.block(t.handlers[0].body, s)
        elif isinstance(t, ast.FunctionDef): s.d[t.name] = Fn(t, s, self)
        else: raise NotImplementedError(ast.dump(t))
    def flat(self, e, s):
        if isinstance(e, ast.Name): return f1(s.get(e.id))
        if isref(e): return f1(self.ref(e, s))
        return self.full(e, s)
    def ref(self, e, s):
        """Find the thing a reference refers to, without its value."""
        if isinstance(e, ast.Name): return s.get(e.id)
        if isinstance(e, ast.Attribute): return getattr(self.flat(e.value, s), e.attr)
        o = self.flat(e.value, s)
        return o[self.full(e.slice, s)]
    def arg(self, e, s):
        return self.ref(e, s) if isref(e) else self.rec(e, s)
    def rec(self, e, s):
        """Build a container literal of promises; delay anything else."""
        if isinstance(e, (ast.Tuple, ast.List)):
            out = []
            for x in e.elts:
                if isinstance(x, ast.Starred): out += self.rec(x.value, s) if literal(x.value) else self.full(x.value, s)
                else: out.append(self.rec(x, s))
            return tuple(out) if isinstance(e, ast.Tuple) else out
        if isinstance(e, ast.Dict): return {self.full(k, s): self.rec(v, s) for k, v in zip(e.keys, e.values)}
        if literal(e):
            one = e.func.id in ("box", "Some")
            return CTORS[e.func.id](*[self.rec(x, s) if one or literal(x) else self.full(x, s) for x in e.args], **{k.arg: self.rec(k.value, s) for k in e.keywords})
        if macro(e) == "lazyrec": return self.rec(e.slice, s) if literal(e.slice) else Thunk(lambda: self.full(e.slice, s))
        if macro(e) == "lazy": return Thunk(lambda: self.full(e.slice, s))
        return Thunk(lambda: self.full(e, s))
    def unpack(self, e, s, maps=False):
        if isref(e): return self.flat(e, s)
        return self.rec(e, s) if literal(e) else self.full(e, s)
    def call(self, f, args, kw):
        if getattr(f, "lazyaware", False) or isinstance(f, Fn): return f(*args, **kw)
        args = deep(tuple(args)); return f(*args, **deep(dict(kw)))
    def full(self, e, s):
        if isref(e): return deep(self.ref(e, s))
        m = macro(e)
        if m in ("let", "letrec"):
            rec = e.value.value.id == "letrec"
            bs = e.value.slice.elts if isinstance(e.value.slice.elts[0], ast.Tuple) else [e.value.slice]
            n = Scope(s)
            for b in bs: n.d[b.elts[0].id] = self.arg(b.elts[1], n if rec else s)
            return self.full(e.slice, n)
        if m == "do":
            n = Scope(s)
            for x in e.slice.elts:
                if macro(x) == "local": n.d[x.slice.target.id] = self.full(x.slice.value, n)
                else: v = self.full(x, n)
            return v
        if m in ("lazy", "lazyrec"): return self.rec(e, s)   # a promise; the reader of the variable gets its value
        if isinstance(e, ast.Constant): return e.value
        if isinstance(e, ast.Tuple): return tuple(self.items(e, s))
        if isinstance(e, ast.List): return self.items(e, s)
        if isinstance(e, ast.Dict): return {self.full(k, s): self.full(v, s) for k, v in zip(e.keys, e.values)}
        if isinstance(e, ast.IfExp): return self.full(e.body if self.full(e.test, s) else e.orelse, s)
        if isinstance(e, ast.BoolOp):
            for x in e.values:
                v = self.full(x, s)
                if bool(v) == isinstance(e.op, ast.Or): break
            return v
        if isinstance(e, ast.Compare): return OPS[type(e.ops[0])](self.full(e.left, s), self.full(e.comparators[0], s))
        if isinstance(e, ast.UnaryOp): return -self.full(e.operand, s)
        if isinstance(e, ast.JoinedStr): return "".join(str(self.full(x.value, s)) for x in e.values)
        if isinstance(e, ast.Slice): return slice(*[x and self.full(x, s) for x in (e.lower, e.upper, e.step)])
        if isinstance(e, ast.Lambda): return Fn(e, s, self)
        if isinstance(e, ast.ListComp):
            n, out = Scope(s), []
            for x in self.full(e.generators[0].iter, s):
                n.d[e.generators[0].target.id] = x
                out.append(self.full(e.elt, n))
            return out
        if isinstance(e, ast.Call):
            if literal(e): return CTORS[e.func.id](*[self.full(x, s) for x in e.args], **{k.arg: self.full(k.value, s) for k in e.keywords})
            f, args, kw = self.full(e.func, s), [], {}
            for x in e.args:
                if isinstance(x, ast.Starred): args += self.unpack(x.value, s)
                else: args.append(self.arg(x, s))
            for k in e.keywords: kw[k.arg] = self.arg(k.value, s)
            return self.call(f, args, kw)
        raise NotImplementedError(ast.dump(e))
    def items(self, e, s):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred): out += self.full(x.value, s)
            else: out.append(self.full(x, s))
        return out

def plain(v):
    """No promise may be left anywhere; functions by kind."""
    if isinstance(v, (Lazy, Thunk)): return ("PROMISE",)
    if isinstance(v, tuple): return tuple(map(plain, v))
    if isinstance(v, list): return ["list"] + list(map(plain, v))
    if isinstance(v, dict): return {k: plain(x) for k, x in v.items()}
    if callable(v) and not isinstance(v, type): return "function"
    return v
class Trace:
    def __init__(self): self.t = []
    def L(self, i, v=None):
        if len(self.t) > 400: raise OverflowError
        self.t.append((i, plain(v))); return v
    def fail(self, i): self.t.append(("fail", i)); raise Boom(i)
    def names(self):
        L, fail = self.L, self.fail
        class NS:
            a = 17
            @staticmethod
            def pick(x, y): return L("pick", (x, y))[1]
        def strict(a, b, *, kw): return L("strict", (a, b, kw))
        def twice(f, x): return (f(x), f(L("twice", x)))
        return dict(L=L, fail=fail, NS=NS, strict=strict, twice=twice, Boom=Boom)

@section(quick=1400, thorough=40000, deadline=240, require={"calls": 2500, "events": 4000, "ok": 1200, "skipped": 500})
def programs(ctx, rng):
    block = rng.choice(BLOCKS)
    g = Gen(rng, block)
    body = g.program()
    if len(body) > 9000: return
    src = HEAD + f"with {block}:\n" + body
    ctx.note(src=src)
    a, b = Trace(), Trace()
    got = res(lambda: Program(src, **a.names()))
    top = Scope(None); top.d.update(b.names(), unbox=unbox)
    ev = Need()
    want = res(lambda: ev.block(ast.parse("if 1:\n" + body).body[0].body, top))
    ctx.check(got[0] == want[0] and a.t == b.t, "wrong evaluations in the definitions", got=(got, a.t), want=(want, b.t))
    if want[0] != "ok": return
    p = got[1]
    del a.t[:], b.t[:]
    nargs = len({i for i in range(len(body)) if body.startswith("L(", i)})
    for _ in range(rng.randrange(2, 6)):
        f = rng.choice(g.funs)
        args = [{"v": rng.choice([0, 1, None, (3,)]), "s": (rng.randrange(5), rng.randrange(5)), "d": {"a": 1, "b": (2,)}}[k] for _, k in f["params"]]
        import copy
        try: got, want = res(getattr(p.mod, f["name"]), *copy.deepcopy(args)), res(lambda: ev.call(top.get(f["name"]), copy.deepcopy(args), {}))
        except OverflowError: return
        if got[0] == want[0] == "exc": got, want = got[:2], want[:2]
        got, want = (got[0], plain(got[1])), (want[0], plain(want[1]))
        ctx.check(got == want, "wrong result", call=(f["name"], args), got=got, want=want, trace=a.t[-8:])
        ctx.check(a.t == b.t, "wrong evaluations", call=(f["name"], args), got=a.t[:60], want=b.t[:60])
        ctx.event("calls"); ctx.event("events", len(b.t)); ctx.event(want[0]); ctx.event("skipped", len({i for i, _ in b.t if isinstance(i, int)}) < nargs)
        del a.t[:], b.t[:]
    ctx.seen(src)

# -- lazy functions through the library ------------------------------------------------------------
# U is an argument that is used (evaluated exactly once), N one that is not (never evaluated), S a list of
# values that is used. `k1`, `k2`, `kk` are lazy functions that use their first / second / keyword argument only.
LIB = """
curry(k1)(U, N) | curry(k1)(U)(N) | curry(k1, U)(N) | curry(k2)(N)(U) | curry(kk)(N, kw=U) | curry(k3, N)(N)(U)
flip(k1)(N, U) | flip(k2)(U, N) | flip(flip(k1))(U, N) | rotate(-1)(k3)(N, U, N) | rotate(1)(k3)(U, N, N) | curry(flip(k1))(N)(U)
apply(k1, [U, N]) | apply(k1, U, [N]) | apply(k2, N, U, []) | apply(kk, [N], kw=U)
call(k1, U, N) | call(k2, N, U) | call(kk, N, kw=U) | callwith(U, N)(k1) | callwith(N, U)(k2) | callwith(N, kw=U)(kk) | callwith(N)(callwith(N)(curry(k3)))(U)
memoize(k1)(*(9, 9)) | withself(lambda self, a, b: b)(N, U) | withself(lambda self, a, b: b)(N, b=U)
composel(k1, idn)(U, N) | composer(idn, k1)(U, N) | composel1(idn, curry(k2)(N))(U) | composel(mk, k1)(U, U) | composer1(curry(k2)(N), idn)(U) | composelc(k1, idn)(U, N) | composerc(idn, k1)(U, N)
pipe1(U, idn, curry(k2)(N))
(piped1(U) | idn | curry(k2)(N) | exitpipe) | (piped1(N) | always9 | exitpipe) | (piped(U, N) | k1 | exitpipe) | (piped(U, U) | mk | k2 | exitpipe)
(lazy_piped1(U) | idn | curry(k2)(N) | exitpipe) | (lazy_piped1(N) | always9 | exitpipe) | (lazy_piped(U, N) | k1 | exitpipe)
notf(k1)(U, N) | notf(k2)(N, U) | andf(k1, k2)(U, U) | orf(k2, fail1)(N, U) | andf(no, k1)(N, N) | orf(no, k1)(U, N)
tokth(1, idn)(3, U) | to1st(idn)(U, 3) | tolast(idn)(3, U) | tokth(1, always9)(3, N)
tramp1(U, N) | tramp2(N, U) | fix0(N, U) | looped_k(N, U) | dec(U, N) | dec(b=N, a=U) | (lambda *a: a[1])(N, U) | (lambda **k: k['x'])(x=U, y=N) | k2(a=N, b=U) | k2(*[N, U]) | kk(**{'kw': U, 'a': N}) | (lambda a, b=U: b)(N)
let[(x, N), (y, U)][y] | letseq[(x, U), (y, x), (z, k1(x, N))][(x, y, z)] | letrec[(x, N), (f, lambda q: q), (y, f(U))][f(y)] | do[local[y := U], y] | k1(U, k1(N, N)) | k2(k2(N, N), U) | k1(k2(N, U), N)
k1((U, U), N)[0] | obj(U, U).a | obj(U, U).m(N) | obj(U, U).m2(U, N)[0] | strict1(U) | strict1([U, U], k=(U,)) | k2(N, strict1(U, k=U)) | k1(strict1(U), strict1(N)) | [k1(U, N), k2(N, U)] | (U if k1(U, N) else N) | (k2(N, U) or N) | strict1(k2)(N, U) | box(k1(U, N)).x
""".replace("\n", " | ")
def _split(s):
    out, d, cur = [], 0, ""
    for part in s.split(" | "):
        cur = cur + " | " + part if cur else part
        if sum(cur.count(c) for c in "([{") == sum(cur.count(c) for c in ")]}"):
            if cur.strip(): out.append(cur.strip())
            cur = ""
    return out
LIB = _split(LIB)
LIBDEFS = """
def k1(a, b): return a
def k2(a, b): return b
def k3(a, b, c): return c
def kk(a, *, kw): return kw
def idn(a): return a
def mk(a, b): return Values(a, b)
def mk2(a, b): return (a, b)
def always9(a): return 9
def fail1(a, b): return fail(0)
def no(a, b): return False
@trampolined
def tramp1(a, b): return jump(tramp2, b, a)
@trampolined
def tramp2(a, b): return b
@fix()
def fix0(a, b): return b
def looped_k(a, b):
 @looped_over(range(3), acc=None)
 def out(loop, x, acc): return loop(k2(a, b))
 return out
def ident_dec(f): return f
@ident_dec
def dec(a, b): return a
class obj:
 def __init__(self, a, b):
  self.a = a
  self.b = b
 def m(self, z): return self.b
 def m2(self, y, z): return (y, self.b)
"""
LIBHEAD = ("from unpythonic.syntax import macros, lazify, lazy, lazyrec, let, letseq, letrec, do, local, tco, autocurry\n"
           "from unpythonic import *\nfrom unpythonic.funutil import *\nfrom unpythonic.tco import trampolined, jump\nfrom unpythonic.lazyutil import force\n")

@section(quick=500, thorough=6000, deadline=90, require={"uses": 2000})
def library(ctx, rng):
    block = rng.choice(["lazify", "lazify", "lazify", "lazify, tco", "lazify, autocurry"])
    forms, used, unused = [], [], []
    def strict1(*args, **kw):
        for v in force_check(args) + force_check(list(kw.values())): pass
        return args[0]
    bad = []
    def force_check(vs):
        for v in vs:
            if isinstance(v, Lazy): bad.append(repr(v))
            if isinstance(v, (list, tuple)): force_check(list(v))
        return list(vs)
    k = 0
    src = LIBHEAD + f"with {block}:\n" + "".join(" " + l + "\n" for l in LIBDEFS.strip().splitlines())
    tests = []
    for _ in range(rng.randrange(3, 8)):
        t = rng.choice(LIB)
        if "autocurry" in block and ("looped" in t or "fix0" in t or "tramp1" in t): continue
        e, plainsrc, u, n = "", "", [], []
        import re
        pos = 0
        for m in re.finditer(r"\b[UN]\b", t):
            k += 1
            e += t[pos:m.start()]; pos = m.end()
            if m.group() == "U":
                kind = rng.random()
                if kind < 0.6: e += f"L({k}, {k + 100})"
                elif kind < 0.8: e += f"k1(L({k}, {k + 100}), fail({k}))"
                else: e += f"lazy[L({k}, {k + 100})]"
                u.append(k)
            else:
                e += rng.choice([f"fail({k})", f"L({k}, fail({k}))", f"k1(fail({k}), 1)", f"lazy[fail({k})]", f"(fail({k}) + 1)"]); n.append(k)
        e += t[pos:]
        name = f"t{len(tests)}"
        src += f" def {name}(): return {e}\n"
        tests.append((name, t, u, n, e))
    ctx.note(src=src)
    tr = Trace()
    names = tr.names(); names["strict1"] = strict1
    p = res(lambda: Program(src, **names))
    ctx.check(p[0] == "ok", "program does not compile", got=p)
    for name, t, u, n, e in tests:
        del tr.t[:], bad[:]
        got = res(lambda: force(getattr(p[1].mod, name)()))
        ctx.check(got[0] == "ok", "lazy call failed", form=t, expr=e, got=got, block=block)
        ids = [i for i, *_ in tr.t]
        ctx.check(sorted(map(str, ids)) == sorted(map(str, u)), "wrong evaluations", form=t, expr=e, got=tr.t, want=u, block=block)
        ctx.check(not bad, "a strict function got a promise", form=t, expr=e, got=bad)
        vals = {k + 100 for k in u}
        def leaves(v):
            if isinstance(v, Values): v = v.rets
            return [x for w in v for x in leaves(w)] if isinstance(v, (list, tuple)) else [v]
        ctx.check(all(not isinstance(v, Lazy) for v in leaves(got[1])), "result is a promise", form=t, got=got)
        if "notf" not in t and "always9" not in t and "andf(no" not in t and "memoize" not in t and "(3, U)" not in t and "(U, 3)" not in t: ctx.check(set(leaves(got[1])) <= vals, "wrong value", form=t, expr=e, got=got[1], want=vals)
        ctx.event("uses"); ctx.seen(t, block)
