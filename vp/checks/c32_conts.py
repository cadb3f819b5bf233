"""C32: programs with call_cc under `with continuations`, against an interpreter in which a continuation is an explicit list of frames.

A frame is the rest of a function body with its variables and the continuation of its function as of the capture. An activation
has P, what its frame has captured (nothing for a function call), and C, the value of `cc`. Returning goes to P, then C."""
import sys
from collections import ChainMap
from unpythonic import Values, identity
from unpythonic.syntax import iscontinuation, get_cc
from vp.core import section
from vp.lang import Boom
from vp.macro import Program, res

HEAD = ("from unpythonic.syntax import macros, continuations, call_cc, let, do, local\n"
        "from unpythonic import Values, identity\nfrom unpythonic.syntax import get_cc, iscontinuation\nK, S = [], []\n")
FUEL = 150
ZZ = {"posd": ("zz",), "kwd": ("zz", "yy")}

# -- the program ---------------------------------------------------------------------------
class Gen:
    def __init__(self, rng): self.r, self.k, self.zz = rng, 0, ()
    def id(self): self.k += 1; return self.k
    def num(self, ns):
        r = self.r
        if self.zz and r.random() < 0.1: return r.choice(self.zz)
        k = r.choice(["name", "name", "name", "const", "add", "L", "tuple"])
        if k == "name" and ns: return r.choice(ns)
        if k == "add" and ns: return f"({r.choice(ns)}, {r.randrange(9)})"
        if k == "L": return f"L({self.id()}, {self.num(ns)})"
        if k == "tuple": return f"({self.num(ns)},)"
        return str(r.randrange(9))
    def dat(self, ns):
        """In a tail position L would be taken for a function of the block."""
        t = self.num(ns)
        return f"({t},)" if t[0] == "L" else t
    def test(self, ns): return self.r.choice([f"len(K) % 2", "len(K) > 2", f"L({self.id()}, len(S)) > 1", "True", "False", self.num(ns), "TICK(2)", "TICK(3)"])
    def call(self, ns, nargs=None):
        f, n, _ = self.r.choice(self.scope)
        return (f, [self.num(ns) for _ in range(n)])
    def body(self, ns, d, nret, tail=True):
        """Statements; ends in a return."""
        r, ns, out = self.r, list(ns), []
        for _ in range(r.randrange(1, 6)):
            k = r.choice(["callcc", "callcc", "stash", "ifret"] if self.dense else ["expr", "assign", "callcc", "callcc", "callcc", "ifret", "stash", "stash", "stash", "setcc", "call", "kcall", "def", "push", "getcc", "append", "try", "for"])
            if k == "expr": out.append(("expr", f"L({self.id()}, {self.num(ns)})"))
            elif k == "append": out.append(("expr", f"K.append(K.pop(0)) if K else L({self.id()}, None)"))
            elif k == "assign": x = f"v{self.id()}"; out.append(("assign", x, self.num(ns))); ns.append(x)
            elif k == "ifret": out.append(("ifret", self.test(ns), self.ret(ns, 1, nret)))
            elif k == "stash": out.append(("stash",))
            elif k == "setcc" and r.random() < 0.4: out.append(("setcc", r.choice(["identity", r.randrange(3)])))
            elif k in ("call", "try"): x = f"v{self.id()}"; out.append((k, x, self.call(ns))); ns.append(x)
            elif k == "for": out.append(("for", self.id(), self.call(ns)))
            elif k == "kcall" and r.random() < 0.4: x = f"v{self.id()}"; out.append(("kcall", x, r.randrange(3), [self.num(ns) for _ in range(r.choice([1, 1, 2]))])); ns.append(x)
            elif k == "push" and r.random() < 0.7: out.append(("push", f"o{self.id()}", self.call(ns)))
            elif k == "def" and d:
                h = f"h{self.id()}"; f = self.fun(h, d - 1, ns)
                out.append(("def", f)); self.scope = self.scope + [(h, len(f["params"]), f["nret"])]
            elif k == "callcc":
                c, c2, cond = self.call(ns), None, None
                m = next(n for f, _, n in self.scope if f == c[0])
                if r.random() < 0.3:
                    cond = self.test(ns); c2 = self.call(ns) if r.random() < 0.5 else None
                    if r.random() < 0.3: c = None
                elif r.random() < 0.1: c = None
                if r.random() < 0.05: m = r.randrange(4)   # a wrong number of values
                out.append(("callcc", *self.targets(ns, m), cond, c, c2))
                out.append(("expr", f"L({self.id()})"))   # also limits the length of the run
                ns = self.after
            elif k == "getcc":
                x, y = f"v{self.id()}", f"v{self.id()}"
                out.append(("callcc", [x, y], None, None, ("get_cc", [self.num(ns)]), None))
                out.append(("expr", f"L({self.id()})"))
                if r.random() < 0.7: out.append(("ifret", f"iscontinuation({x}) and TICK(3)", ("again", x, [self.num(ns + [y])])))
                if r.random() < 0.3: out.append(("expr", f"K.append({x}) if iscontinuation({x}) else None"))
                ns.append(y)
        if r.random() < 0.85: out.append(("ret", self.ret(ns, 2, nret)))
        return out
    def targets(self, ns, m):
        r = self.r
        name = lambda: f"v{self.id()}" if r.random() < 0.8 or not ns else r.choice(ns)
        if m == 1 and r.random() < 0.3: self.after = list(ns); return [], None
        ts = list(dict.fromkeys(name() for _ in range(m)))
        if len(ts) < m: ts = [f"v{self.id()}" for _ in range(m)]
        star = None
        if r.random() < 0.3 or not ts: star = f"v{self.id()}"; ts = ts[:r.randrange(len(ts) + 1)]
        self.after = [n for n in ns if n not in ts] + ts + ([star] if star else [])
        return ts, star
    def ret(self, ns, d, nret):
        r = self.r
        if self.dense and r.random() < 0.6 and nret == 1: return ("if", "K and TICK(2)", ("ktail", r.randrange(5), [self.dat(ns)]), ("data", self.dat(ns)))
        k = r.choice(["data", "data", "tail", "tail", "tailcc", "ktail", "ktail", "ktail", "pop", "if", "or", "and", "let", "do", "none"])
        if d and k == "if": return ("if", self.test(ns), self.ret(ns, d - 1, nret), self.ret(ns, d - 1, nret))
        if d and k == "or": return ("or", self.r.choice(["0", "None", "()", self.num(ns)]), self.ret(ns, d - 1, nret))
        if d and k == "and": return ("and", self.test(ns), self.ret(ns, d - 1, nret))
        if d and k == "let": x = f"v{self.id()}"; return ("let", x, self.num(ns), self.ret(ns + [x], d - 1, nret))
        if d and k == "do": return ("do", f"L({self.id()}, {self.num(ns)})", self.ret(ns, d - 1, nret))
        if k == "tail": return ("tail", self.call(ns), None)
        if k == "tailcc": return ("if", "K", ("tail", self.call(ns), r.randrange(3)), ("data", "0") if nret == 1 else ("vals", ["0"] * nret))
        if k == "ktail": return ("if", "K", ("ktail", r.randrange(3), [self.num(ns) for _ in range(r.choice([1, 1, 2]))]), ("data", "0"))
        if k == "pop": return ("if", "S", ("pop",), ("data", "0"))
        if k == "none" and nret == 1: return ("none",)
        if r.random() < 0.03: return ("vals", [self.num(ns) for _ in range(nret)], "named")
        return ("vals", [self.num(ns) for _ in range(nret)]) if nret != 1 or r.random() < 0.1 else ("data", self.dat(ns))
    def fun(self, name, d, ns=()):
        r = self.r
        ps = [f"p{self.id()}" for _ in range(r.randrange(3))]
        f = dict(name=name, params=ps, nret=r.choice([1, 1, 1, 2, 3]) if not self.dense else 1, cc=r.choice([None, None, "pos", "posd", "kw", "kwd"]), lam=False)
        old, oldz, self.zz = self.scope, self.zz, ZZ.get(f["cc"], self.zz)
        self.scope = old + ([(name, len(ps), f["nret"])] if name[0] == "h" else [])
        if r.random() < 0.1: f["lam"] = True; f["body"] = [("ret", self.ret(list(ns) + ps, 2, f["nret"]))]
        else: f["body"] = self.body(list(ns) + ps, d, f["nret"])
        self.scope, self.zz = old, oldz
        return f
    def program(self):
        r = self.r
        self.dense = r.random() < 0.4   # captures and continuations only
        names = [f"f{i}" for i in range(r.randrange(2, 5))]
        sig = [(n, r.randrange(3), r.choice([1, 1, 1, 2, 3]) if not self.dense else 1) for n in names]
        self.scope, out = sig, []
        for i, (n, k, m) in enumerate(sig):
            if r.random() < 0.85: self.scope = sig[i + 1:] or [("leaf", 0, 1)]   # mostly without recursion
            ps = [f"p{self.id()}" for _ in range(k)]
            f = dict(name=n, params=ps, nret=m, cc=r.choice([None, None, "pos", "posd", "kw", "kwd"]), lam=False)
            self.zz = ZZ.get(f["cc"], ())
            if r.random() < 0.15: f["lam"] = True; f["body"] = [("ret", self.ret(ps, 2, m))]
            else: f["body"] = self.body(ps, 2, m)
            self.scope, self.zz = sig, ()
            out.append(f)
        out.append(dict(name="leaf", params=[], nret=1, cc=None, lam=False, body=[("stash",), ("ret", ("data", "7"))]))
        top = []
        if r.random() < 0.3:   # captures at the top level of the block
            for _ in range(r.randrange(1, 3)):
                top += [("callcc", *self.targets([], 1), None, self.call([]), None), ("expr", f"L({self.id()}, len(K))")]
        return out, top

# -- as text -------------------------------------------------------------------------------
def tcall(c, extra=""): return f"{c[0]}({', '.join(c[1] + ([extra] if extra else []))})"
def kref(i): return f"K[{i} % len(K)]"
def tret(n):
    k = n[0]
    if k == "data": return n[1]
    if k == "vals": return f"Values({', '.join(n[1][:-1] + ['kk=' + n[1][-1]] if len(n) > 2 else n[1])})"
    if k == "none": return "None"
    if k == "tail": return tcall(n[1], "" if n[2] is None else f"cc={kref(n[2])}")
    if k == "ktail": return f"{kref(n[1])}({', '.join(n[2])})"
    if k == "again": return f"{n[1]}({', '.join([n[1]] + n[2])})"
    if k == "pop": return "S.pop()()"
    if k == "if": return f"({tret(n[2])} if {n[1]} else {tret(n[3])})"
    if k == "or": return f"({n[1]} or {tret(n[2])})"
    if k == "and": return f"(bool({n[1]}) and {tret(n[2])})"
    if k == "let": return f"let[{n[1]} := {n[2]}][{tret(n[3])}]"
    if k == "do": return f"do[{n[1]}, {tret(n[2])}]"
def text(b, ind):
    o, I = "", " " * ind
    for s in b:
        k = s[0]
        if k == "expr": o += f"{I}{s[1]}\n"
        elif k == "assign": o += f"{I}{s[1]} = {s[2]}\n"
        elif k == "ifret": o += f"{I}if {s[1]}:\n{I} return {tret(s[2])}\n"
        elif k == "ret": o += f"{I}return {tret(s[1])}\n"
        elif k == "stash": o += f"{I}if cc is not identity: K.append(cc)\n"
        elif k == "setcc": o += f"{I}cc = identity\n" if s[1] == "identity" else f"{I}if K: cc = {kref(s[1])}\n"
        elif k == "call": o += f"{I}{s[1]} = {tcall(s[2])}\n"
        elif k == "for": o += f"{I}for i{s[1]} in range(2): L({s[1]}, {tcall(s[2])})\n"
        elif k == "try": o += f"{I}try:\n{I} {s[1]} = {tcall(s[2])}\n{I}except TypeError:\n{I} {s[1]} = -1\n"
        elif k == "kcall": o += f"{I}{s[1]} = {kref(s[2])}({', '.join(s[3])}) if K else -1\n"
        elif k == "push": o += f"{I}{s[1]} = cc\n{I}S.append(lambda: {tcall(s[2], 'cc=' + s[1])})\n"
        elif k == "def": o += tfun(s[1], ind)
        elif k == "callcc":
            _, ts, star, cond, c, c2 = s
            lhs = ", ".join(ts + (["*" + star] if star else [])) + ("," if star and not ts else "")
            e = tcall(c) if c else "None"
            if cond: e = f"{e} if {cond} else {tcall(c2) if c2 else 'None'}"
            o += f"{I}{lhs + ' = ' if lhs else ''}call_cc[{e}]\n"
    return o or f"{I}pass\n"
def tfun(f, ind):
    I = " " * ind
    ps = ", ".join(f["params"] + {None: [], "pos": ["cc"], "kw": ["*", "cc"], "posd": ["cc", "zz=99"], "kwd": ["zz=99", "*", "yy=98", "cc"]}[f["cc"]])
    if f["lam"]: return f"{I}{f['name']} = lambda {ps}: do[L('{f['name']}'), {tret(f['body'][0][1])}]\n"
    return f"{I}def {f['name']}({ps}):\n{I} L('{f['name']}')\n{text(f['body'], ind + 1)}"

# -- reference -----------------------------------------------------------------------------
class Frame:
    def __init__(self, stmts, env, ts, star, pcc, top): self.stmts, self.env, self.ts, self.star, self.pcc, self.top = stmts, env, ts, star, pcc, top
class Kont:
    """A continuation: frames to run one after another."""
    is_continuation = True   # as far as iscontinuation is concerned
    def __init__(self, ref, frames): self.ref, self.frames = ref, frames
    def __call__(self, *a): return self.ref.unwrap(self.ref.invoke(self.frames, list(a), []))
class Fn:
    def __init__(self, ref, f, env): self.ref, self.f, self.env = ref, f, env
    def __call__(self, *a): return self.ref.unwrap(self.ref.apply(self, list(a), []))
def cat(a, b): return (a + b)[:2000]   # no run gets that far
class KW:
    """A named return value."""
    def __init__(self, v): self.v = v
def spread(v): return list(v.rets) + [KW(x) for x in v.kwrets.values()] if isinstance(v, Values) else [v]
class Done:
    def __init__(self, vals): self.vals = vals

class Ref:
    def __init__(self, L, TICK):
        self.K, self.S = [], []
        self.g = dict(L=L, TICK=TICK, K=self.K, S=self.S, iscontinuation=lambda x: isinstance(x, Kont), len=len, bool=bool)
    def ev(self, t, env): return eval(t, self.g, env)
    def unwrap(self, d):
        v = d.vals
        if isinstance(v, list): return v[0] if len(v) == 1 and not isinstance(v[0], KW) else Values(*[x for x in v if not isinstance(x, KW)], **{"kk": x.v for x in v if isinstance(x, KW)})
        return v[0]   # cut short at the top level
    def val(self, C): return Kont(self, C) if C else identity
    def frames(self, k): return k.frames if isinstance(k, Kont) else []
    def invoke(self, k, vals, A):
        """Run the continuation k with the given values, then A."""
        if not k:
            if A: return self.invoke(A, vals, [])
            return Done(vals)
        F, rest = k[0], k[1:]
        if any(isinstance(x, KW) for x in vals): raise TypeError("named value")   # no target has that name
        n, m = len(vals), len(F.ts)
        if F.star is None and (n > 1 if not F.ts else n != m) or n < m: raise TypeError("arity")
        env = ChainMap(dict(zip(F.ts, vals)), *F.env.maps)
        if F.star is not None: env[F.star] = tuple(vals[m:])
        return self.run(F.stmts, env, F.pcc, cat(rest, A), F.top)
    def apply(self, fn, args, C):
        f = fn.f
        if len(args) != len(f["params"]): raise TypeError("arity")
        self.g["L"](f["name"])
        return self.run(f["body"], ChainMap(dict(zip(f["params"], args), zz=99, yy=98), *fn.env.maps), [], C)
    def callee(self, name, env): return env[name]
    def tailcall(self, c, env, C):
        if c[0] == "get_cc":
            a = [self.ev(x, env) for x in c[1]]
            return self.invoke(C, [self.val(C)] + a, [])
        fn = env[c[0]]
        return self.apply(fn, [self.ev(x, env) for x in c[1]], C)
    def plaincall(self, c, env): return self.unwrap(self.tailcall(c, env, []))
    def run(self, stmts, env, P, C, top=""):
        for j, s in enumerate(stmts):
            k = s[0]
            if k == "expr": self.ev(s[1], env)
            elif k == "assign": env[s[1]] = self.ev(s[2], env)
            elif k == "ifret":
                if self.ev(s[1], env): return self.ret(s[2], env, P, C)
            elif k == "ret": return self.ret(s[1], env, P, C)
            elif k == "stash":
                if C: self.K.append(self.val(C))
            elif k == "setcc":
                if s[1] == "identity": C = []
                elif self.K: C = self.frames(self.K[s[1] % len(self.K)])
            elif k == "call": env[s[1]] = self.plaincall(s[2], env)
            elif k == "try":
                try: env[s[1]] = self.plaincall(s[2], env)
                except TypeError: env[s[1]] = -1
            elif k == "for":
                for _ in range(2): self.g["L"](s[1], self.plaincall(s[2], env))
            elif k == "kcall":
                if self.K: kk = self.K[s[2] % len(self.K)]; env[s[1]] = kk(*[self.ev(x, env) for x in s[3]])
                else: env[s[1]] = -1
            elif k == "push": self.S.append((s[2], env, C))
            elif k == "def": env[s[1]["name"]] = Fn(self, s[1], env)
            elif k == "callcc":
                _, ts, star, cond, c, c2 = s
                if cond and not self.ev(cond, env): c = c2
                k = [Frame(stmts[j + 1:], env, ts, star, cat(P, C), "frame" if top else "")]
                if top == "module":   # at module level, an ordinary call
                    if c: self.tailcall(c, env, k)
                    else: self.invoke(k, [None] * len(ts), [])
                    return Done((None,))
                if c: return self.tailcall(c, env, k)
                return self.invoke(k, [None] * len(ts), [])
        if top: return Done((None,))   # the end of the block: the program ends there
        return self.invoke(P, [None], C)
    def ret(self, n, env, P, C):
        k = n[0]
        if k == "data":
            v = self.ev(n[1], env)
            return self.invoke(P, spread(v), C)
        if k == "vals":
            v = [self.ev(x, env) for x in n[1]]
            if len(n) > 2: v[-1] = KW(v[-1])
            return self.invoke(P, v, C)
        if k == "none": return self.invoke(P, [None], C)
        if k == "tail":
            if n[2] is None: return self.tailcall(n[1], env, cat(P, C))
            args = [self.ev(x, env) for x in n[1][1]]
            return self.apply(env[n[1][0]], args, cat(P, self.frames(self.K[(self.ev(n[2], env) if isinstance(n[2], str) else n[2]) % len(self.K)])))
        if k == "ktail":
            kk = self.K[(self.ev(n[1], env) if isinstance(n[1], str) else n[1]) % len(self.K)]
            return self.invoke(kk.frames, [self.ev(x, env) for x in n[2]], cat(P, C))
        if k == "again": return self.invoke(env[n[1]].frames, [env[n[1]]] + [self.ev(x, env) for x in n[2]], cat(P, C))
        if k == "pop":
            (c, e, c1) = self.S.pop()
            return self.apply(e[c[0]], [self.ev(x, e) for x in c[1]], c1)   # the explicit cc replaces the one of the lambda
        if k == "if": return self.ret(n[2] if self.ev(n[1], env) else n[3], env, P, C)
        if k == "or":
            v = self.ev(n[1], env)
            if v: return self.invoke(P, spread(v), C)
            return self.ret(n[2], env, P, C)
        if k == "and":
            if self.ev(n[1], env): return self.ret(n[2], env, P, C)
            return self.invoke(P, [False], C)
        if k == "let": return self.ret(n[3], ChainMap({n[1]: self.ev(n[2], env)}, *env.maps), P, C)
        if k == "do":
            self.ev(n[1], env)
            return self.ret(n[2], env, P, C)

class Fuel:
    """Trace with a limit on its length; a counter that the program can test."""
    def __init__(self): self.trace, self.t = [], 0
    def L(self, i, v=None):
        if len(self.trace) >= FUEL: raise Boom("fuel")
        self.trace.append((i, show(v))); return v
    def TICK(self, n): self.t += 1; return self.t % n == 0

def show(v, d=5):
    if isinstance(v, Kont) or callable(v): return "fun"
    if isinstance(v, tuple): return tuple(show(x, d - 1) for x in v) if d else "..."
    if isinstance(v, Values): return ("Values", tuple(show(x, d - 1) for x in v.rets), {k: show(x, d - 1) for k, x in v.kwrets.items()}) if d else "..."
    return v
def result(f, *a):
    r = res(f, *a)
    return ("exc", r[1]) if r[0] == "exc" else (r[0], show(r[1]))

@section(quick=2600, thorough=40000, deadline=240, require={"calls": 2000, "events": 8000, "resumed": 500, "captures": 1500, "multi": 120})
def programs(ctx, rng):
    g = Gen(rng)
    funs, top = g.program()
    src = HEAD + "with continuations:\n" + "".join(tfun(f, 1) for f in funs) + (text(top, 1) if top else "")
    if len(src) > 8000: return
    ctx.note(src=src)
    sys.setrecursionlimit(8000)
    a, b = Fuel(), Fuel()
    ref = Ref(b.L, b.TICK)
    genv = ChainMap({})
    for f in funs: genv[f["name"]] = Fn(ref, f, genv)
    # the block itself is run when the program is loaded
    p = Program.__new__(Program)
    want = result(lambda: ref.run(top, ChainMap({}, *genv.maps), [], [], "module").vals[0]) if top else ("ok", None)
    got = result(lambda: loaded(src, a, p) and None)
    K, S = p.mod.K, p.mod.S
    def same(what):
        ctx.check(got == want, "wrong result", what=what, got=got, want=want)
        ctx.check(a.trace == b.trace, "wrong effects", what=what, got=a.trace[:40], want=b.trace[:40])
        ctx.check((len(K), len(S)) == (len(ref.K), len(ref.S)), "different continuations were captured", what=what, got=(len(K), len(S)), want=(len(ref.K), len(ref.S)))
        ctx.event("calls"); ctx.event("events", len(b.trace)); ctx.event("captures", len(K)); ctx.event(want[0])
        del a.trace[:], b.trace[:]
    same("load")
    if want[0] != "ok": return   # the block was left early
    for _ in range(rng.randrange(4, 11)):
        k = rng.choice(["call", "call", "resume", "resume", "resume"])
        vals = [rng.randrange(20, 30) for _ in range(rng.choice([0, 1, 1, 1, 2, 3]))]
        if k == "call":
            f = rng.choice(funs)
            vals = [rng.randrange(9) for _ in f["params"]]
            what = f"{f['name']}{tuple(vals)}"
            got, want = result(getattr(p.mod, f["name"]), *vals), result(genv[f["name"]], *vals)
        elif K:
            i = rng.randrange(len(K))
            what = f"K[{i}]{tuple(vals)}"
            ctx.check(iscontinuation(K[i]) or callable(K[i]), "not a continuation", what=what)
            F = ref.K[i].frames[0] if isinstance(ref.K[i], Kont) else None
            if F and F.star is None and len(F.ts) == len(vals) > 0 and rng.random() < 0.5:   # the targets are its parameters
                j = rng.randrange(len(vals)); ctx.event("by name")
                got = result(lambda: K[i](*vals[:j], **dict(zip(F.ts[j:], vals[j:]))))
            else: got = result(K[i], *vals)
            want = result(ref.K[i], *vals)
            ctx.event("resumed"); ctx.event("multi", want[0] == "ok" and len(b.trace) > 1)
        else: continue
        same(what)
        if len(K) > 12: del K[5:], ref.K[5:]
        if len(S) > 8: del S[4:], ref.S[4:]
    ctx.seen(src)

def loaded(src, fuel, p):
    from mcpyrate.compiler import run, create_module
    import mcpyrate.quotes
    from mcpyrate.core import MacroApplicationError
    mcpyrate.quotes._lookup_cache.clear()
    object.__setattr__(p, "mod", create_module("vp_prog"))
    p.mod.__dict__.update(L=fuel.L, TICK=fuel.TICK)
    try: run(src, p.mod)
    except MacroApplicationError as e:
        while isinstance(e, MacroApplicationError) and e.__cause__: e = e.__cause__
        raise RuntimeError("expansion failed") from e
    return True

def F(name, params, *body): return dict(name=name, params=params, nret=1, cc=None, lam=False, body=list(body))
def case(k, r): return ("ifret", f"t[0] == '{k}'", r)
MACHINE = [
    F("run", ["t"], ("expr", "L(t[0])"), case("v", ("data", "(t[1],)")), case("k", ("if", "K", ("ktail", "t[1]", ["t[2]"]), ("data", "0"))),
      case("s", ("tail", ("keep", ["t[1]"]), None)), case("c", ("tail", ("cap", ["t[1]", "t[2]", "t[3]"]), None)),
      case("e", ("if", "K", ("tail", ("run", ["t[2]"]), "t[1]"), ("data", "1"))), case("p", ("tail", ("plain", ["t[1]"]), None))),
    F("keep", ["t"], ("stash",), ("ret", ("tail", ("run", ["t"]), None))),
    F("cap", ["a", "b", "c"], ("callcc", ["x"], None, None, ("run", ["a"]), None), ("expr", "L(x)"),
      ("callcc", ["y"], None, None, ("run", ["b"]), None), ("expr", "L((x, y))"), ("ret", ("tail", ("run", ["c"]), None))),
    F("plain", ["t"], ("call", "x", ("run", ["t"])), ("ret", ("data", "(x,)")))]
def tree(r, d):
    k = r.choice("cccscskkep") if d else r.choice("vvkks")
    if k == "v": return ("v", r.randrange(9))
    if k == "k": return ("k", r.randrange(12), r.randrange(10, 20))
    if k == "c": return ("c", tree(r, d - 1), tree(r, d - 1), tree(r, d - 1))
    if k == "e": return ("e", r.randrange(12), tree(r, d - 1))
    return (k, tree(r, d - 1) if d else ("v", 5))
machine = []

@section(quick=3000, thorough=150000, require={"calls": 6000, "events": 40000, "resumed": 2500, "captures": 2000, "ok": 3000})
def histories(ctx, rng):
    """A machine that captures, keeps and calls continuations as told by a tree: long histories of captures and resumptions."""
    sys.setrecursionlimit(8000)
    if not machine:
        src = HEAD + "with continuations:\n" + "".join(tfun(f, 1) for f in MACHINE)
        fuel, p = Fuel(), Program.__new__(Program)
        loaded(src, fuel, p); machine.append((fuel, p))
    a, p = machine[0]
    b = Fuel()
    ref, genv, K = Ref(b.L, b.TICK), ChainMap({}), p.mod.K
    for f in MACHINE: genv[f["name"]] = Fn(ref, f, genv)
    del K[:], a.trace[:]
    log = []
    for _ in range(rng.randrange(2, 7)):
        if K and rng.random() < 0.5:
            i, v = rng.randrange(len(K)), rng.randrange(20, 30)
            log.append(("resume", i, v)); ctx.event("resumed")
            got, want = result(K[i], v), result(ref.K[i], v)
        else:
            t = tree(rng, 3); log.append(t)
            got, want = result(p.mod.run, t), result(genv["run"], t)
        ctx.check(got == want, "wrong result", history=log, got=got, want=want)
        ctx.check(a.trace == b.trace, "wrong effects", history=log, got=a.trace[:60], want=b.trace[:60])
        ctx.check(len(K) == len(ref.K), "different continuations were captured", history=log)
        ctx.event("calls"); ctx.event("events", len(b.trace)); ctx.event("captures", len(K)); ctx.event(want[0])
        del a.trace[:], b.trace[:]
        if len(K) > 12: del K[8:], ref.K[8:]
    ctx.seen(tuple(log))

DEEP = """from unpythonic.syntax import macros, continuations, call_cc
from unpythonic import identity
from unpythonic.syntax import get_cc, iscontinuation
K = []
with continuations:
 def down(n, cc):
  if n == 0: return DEPTH()
  return down(n - 1)
 def even(n): return DEPTH() if n == 0 else odd(n - 1)
 odd = lambda n: DEPTH() if n == 0 else even(n - 1)
 def save(x, cc):
  K.append(cc)
  return x
 def rounds(n, acc):
  acc = call_cc[save(acc)]
  if n == 0: return DEPTH()
  return rounds(n - 1, acc + 1)
 def goto(n):
  k, m = call_cc[get_cc(n)]
  if m == 0: return DEPTH()
  return k(k, m - 1)
 def nest(n):
  x = call_cc[down(n)]
  y = call_cc[even(n)]
  return x
"""
@section(quick=24, thorough=300, require={"deep": 48})
def deep(ctx, rng):
    """A chain of tail calls, through captured continuations or not, does not use up the stack."""
    def depth(**kw):
        f, n = sys._getframe(), 0
        while f: f, n = f.f_back, n + 1
        cc = kw.get("cc", identity)
        return cc(n)
    p = Program(DEEP, DEPTH=depth)
    for name, extra in rng.sample([("down", ()), ("even", ()), ("goto", ()), ("rounds", (0,)), ("nest", ())], 4):
        n = rng.randrange(200, 2500)
        base = getattr(p.mod, name)(rng.randrange(2, 5), *extra)
        del p.mod.K[:]
        got = getattr(p.mod, name)(n, *extra)
        ctx.check(got <= base + 12, "the stack grows along a chain of tail calls", name=name, n=n, short=base, long=got)
        ctx.event("deep"); ctx.seen((name, n // 100))
        if name == "rounds":
            ctx.check(len(p.mod.K) == n + 1, "number of captures", got=len(p.mod.K))
            k = rng.choice(p.mod.K); del p.mod.K[:]
            ctx.check(k(0) <= base + 12, "the stack grows along a chain of tail calls", name="resumed", n=n)
