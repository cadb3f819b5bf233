"""C34: programs under `with autocurry` and `with prefix`, against the same programs in plain Python."""
import inspect
from unpythonic import Values
from vp.core import section
from vp.macro import Program, res

# -- reference model of a curried call -------------------------------------------------------
class P:
    """A partial application in the reference programs."""
    def __init__(self, f, a, k): self.f, self.a, self.k = f, a, k
    def __call__(self, *a, **k): return rc(self, *a, **k)

def rc(f, /, *a, **k):
    if isinstance(f, P): return rc(f.f, *f.a, *a, **{**f.k, **k})
    try: sig = inspect.signature(f)
    except (ValueError, TypeError): return f(*a, **k)
    if not inspect.isfunction(f) and not inspect.ismethod(f): return f(*a, **k)
    ps = list(sig.parameters.values())
    pos = [p for p in ps if p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD)]
    va = any(p.kind == p.VAR_POSITIONAL for p in ps)
    free = [p for p in pos if p.name not in k] if not va else pos
    bound = {p.name for p in free[:len(a)]} | set(k)
    if any(p.default is p.empty and p.name not in bound for p in ps if p.kind not in (p.VAR_POSITIONAL, p.VAR_KEYWORD)): return P(f, a, k)
    now, rest = (a, ()) if va else (a[:len(free)], a[len(free):])
    r = f(*now, **k)
    if not rest: return r
    if not callable(r): raise TypeError("too many arguments")
    return rc(r, *rest)

# -- generator: expressions in two forms (the program under test, the reference) ----------------
# Types: "i" an int, or (argument types, result type) for a function of fixed arity.
class Gen:
    def __init__(self, rng, mode): self.r, self.k, self.mode, self.ql = rng, 0, mode, 0
    def id(self): self.k += 1; return self.k
    # One call f(args), in the syntaxes of the mode.
    def call(self, f, args, kws=()):
        r = self.r
        src, ref = [a[0] for a in args], [a[1] for a in args]
        ks = [f"{k}={v[0]}" for k, v in kws], [f"{k}={v[1]}" for k, v in kws]
        rf = f"rc({', '.join([f[1]] + ref + ks[1])})" if self.curry else f"{f[1]}({', '.join(ref + ks[1])})"
        if self.prefix and self.ql == 0 and r.random() < 0.8:
            items = list(src)
            if kws:
                if r.random() < 0.4: items.insert(r.randrange(len(items) + 1), f"kw({', '.join(ks[0])})")
                else:
                    for kk in ks[0]: items.append(f"kw({kk})")
                    if r.random() < 0.3: items.insert(r.randrange(len(src) + 1), f"kw({kws[0][0]}={self.never()})")     # the rightmost wins
            sf = f"({', '.join([f[0]] + items)}{',' if not items else ''})"
            if r.random() < 0.15: sf = f"(q, u, {sf[1:]}"
        else: sf = f"{f[0]}({', '.join(src + ks[0])})"
        return sf, rf
    def never(self): return f"L({self.id()}, 0)"
    curry = property(lambda s: "autocurry" in s.mode)
    prefix = property(lambda s: "prefix" in s.mode)

    def ex(self, ns, t, d):
        r = self.r
        cands = [n for n, tt in ns if tt == t]
        if d <= 0:
            if cands and r.random() < 0.8: n = r.choice(cands); return n, n
            if t == "i": v = str(r.randrange(9)); return v, v
            return self.lam(ns, t, 0)
        ks = ["call", "call", "call", "name", "if", "L"] + (["arith", "let", "do", "cmp", "fstr", "sub", "builtin", "comp", "lamcall", "quote", "quote"] if t == "i" else ["lam", "lam", "partial", "partial"])
        k = r.choice(ks)
        if k == "name" and cands: n = r.choice(cands); return n, n
        if k == "L": i = self.id(); a = self.ex(ns, t, d - 1); return self.lcall(i, a)
        if k == "if":
            c, a, b = self.ex(ns, "i", d - 1), self.ex(ns, t, d - 1), self.ex(ns, t, d - 1)
            return tuple(f"({a[j]} if {c[j]} else {b[j]})" for j in (0, 1))
        if k == "arith":
            a, b, op = self.ex(ns, "i", d - 1), self.ex(ns, "i", d - 1), r.choice("+-*")
            return tuple(f"(({a[j]} {op} {b[j]}) % 97)" for j in (0, 1))
        if k == "cmp":
            a, b = self.ex(ns, "i", d - 1), self.ex(ns, "i", d - 1)
            return tuple(f"({a[j]} < {b[j]} < 50 or not {a[j]})" for j in (0, 1))
        if k == "let":
            x = f"x{self.id()}"; v, b = self.ex(ns, "i", d - 1), self.ex(ns + [(x, "i")], "i", d - 1)
            form = r.choice(["let[({x}, {v})][{b}]", "let[{x} << {v}][{b}]", "let[[{x}, {v}]][{b}]"] if not self.prefix else ["let[({x}, {v})][{b}]", "let[(({x}, {v}),)][{b}]" if False else "let[({x}, {v})][{b}]", "let[[{x} << {v}] in {b}]", "let[{b}, where(({x}, {v}))]" if False else "let[{b}, where[({x}, {v})]]"])
            return form.format(x=x, v=v[0], b=b[0]), f"(lambda {x}: {b[1]})({v[1]})"
        if k == "do":
            x = f"x{self.id()}"; v, m, b = self.ex(ns, "i", d - 1), self.ex(ns, "i", d - 1), self.ex(ns + [(x, "i")], "i", d - 1)
            return f"do[local[{x} := {v[0]}], {m[0]}, {b[0]}]", f"(lambda {x}: ({m[1]}, {b[1]})[1])({v[1]})"
        if k == "fstr":
            a = self.ex(ns, "i", d - 2)
            if '"' in a[0] or "'" in a[0] or "{" in a[0] or "\\" in a[0]: return a
            return tuple(f"len(f'{{{a[j]}}}')" if not (self.curry and j) else f"len(f'{{{a[j]}}}')" for j in (0, 1))
        if k == "sub":
            a, b = self.ex(ns, "i", d - 1), self.ex(ns, "i", d - 1)
            if r.random() < 0.5: return tuple(f"ARR[{a[j]}, {b[j]}]" for j in (0, 1))
            return tuple(f"[{a[j]}, {b[j]}][-1]" for j in (0, 1))
        if k == "builtin":
            a, b = self.ex(ns, "i", d - 1), self.ex(ns, "i", d - 1)
            return self.call(("max", "max"), [a, b])
        if k == "comp":
            x = f"x{self.id()}"; a, b = self.ex(ns, "i", d - 1), self.ex(ns + [(x, "i")], "i", d - 1)
            it = "[1, 2]" if not self.prefix or self.ql else "(q, 1, 2)", "(1, 2)"
            return tuple(f"sum([{b[j]} for {x} in {it[j]} if {a[j]} or {x}])" for j in (0, 1))
        if k == "lamcall":
            n = r.randrange(1, 3); tt = (("i",) * n, "i")
            return self.apply(ns, self.lam(ns, tt, d - 1), tt, "i", d)
        if k == "quote": return self.quote(ns, d)
        if k == "lam": return self.lam(ns, t, d)
        if k == "partial" and self.curry:
            # a function with some arguments missing
            ext = tuple(r.choice(["i", "i", (("i",), "i")]) for _ in range(r.randrange(1, 3)))
            tt = (ext + t[0], t[1])
            c = [n for n, x in ns if x == tt]
            f = (r.choice(c),) * 2 if c and r.random() < 0.7 else self.lam(ns, tt, d - 1)
            return self.call(f, [self.ex(ns, x, d - 1) for x in ext])
        # call of a function that is in scope, with result t
        fs = [(n, tt) for n, tt in ns if isinstance(tt, tuple) and self.result(tt, t) is not None]
        if fs: n, tt = r.choice(fs); return self.apply(ns, (n, n), tt, t, d)
        if t == "i": v = str(r.randrange(9)); return v, v
        return self.lam(ns, t, d - 1)
    def lcall(self, i, a): return self.call(("L", "L"), [(str(i), str(i)), a])
    def result(self, tt, t):
        """Chain of argument types that takes a function of type tt to t."""
        if tt[1] == t: return list(tt[0])
        if isinstance(tt[1], tuple):
            rest = self.result(tt[1], t)
            if rest is not None: return list(tt[0]) + rest
        return None
    def apply(self, ns, f, tt, t, d):
        r = self.r
        args = [self.ex(ns, x, d - 1) for x in self.result(tt, t)]
        if not self.curry:      # exact groups
            while True:
                n = len(tt[0]); f = self.call(f, args[:n]); args = args[n:]; tt = tt[1]
                if not args: return f
        if not args: return self.call(f, [])
        while args:
            n = r.randrange(1, len(args) + 1) if r.random() < 0.6 else len(args)
            f = self.call(f, args[:n]); args = args[n:]
        return f
    def lam(self, ns, t, d):
        ps = [f"p{self.id()}" for _ in t[0]]
        b = self.ex(ns + list(zip(ps, t[0])), t[1], d - 1)
        return tuple(f"(lambda {', '.join(ps)}: {b[j]})" for j in (0, 1))
    def quote(self, ns, d):
        if not self.prefix: return self.ex(ns, "i", d - 1)
        s, f = self.tup(ns, d) if self.ql == 0 else self.tup0(ns, d)
        if self.ql == 0: s = f"(q, {s[1:]}" if s != "()" else "(q, 1)"; f = f if f != "()" else "(1,)"
        if self.curry: return f"total({s})", f"total({f})"
        return f"total({s})", f"total({f})"
    def tup(self, ns, d):
        """The inside of a quoted tuple."""
        self.ql += 1
        items = []
        for _ in range(self.r.randrange(1, 4)):
            k = self.r.choice(["e", "e", "t", "q", "u", "empty"])
            if k == "t" and d > 0: items.append(self.tup0(ns, d - 1))
            elif k == "q" and d > 0:
                t = self.tup0(ns, d - 1, 1); items.append((f"(q, {t[0][1:]}", t[1]))
            elif k == "u" and self.ql >= 1:
                lev, self.ql = self.ql, 0
                a, b = self.ex(ns, "i", d - 1), self.ex(ns, "i", d - 1)
                self.ql = lev
                i = self.id()
                ref = f"rc(pair, {a[1]}, {b[1]})" if self.curry else f"pair({a[1]}, {b[1]})"
                items.append((f"({'u, ' * lev}pair, {a[0]}, {b[0]})", ref))
            elif k == "empty": items.append(("()", "()"))
            else: items.append(self.ex(ns, "i", d - 2))
        self.ql -= 1
        return tuple(f"({', '.join(x[j] for x in items)},)" for j in (0, 1))
    def tup0(self, ns, d, more=0):
        self.ql -= 1 - more
        try: return self.tup(ns, d)
        finally: self.ql += 1 - more

    def ty(self, d=1):
        r = self.r
        if d < 0 or r.random() < 0.5: return "i"
        return (tuple(self.ty(d - 1) for _ in range(r.randrange(1, 4))), self.ty(d - 1) if self.curry else "i")
    def stmt(self, ns, d, ind):
        """One statement; returns (source lines, reference lines)."""
        r, i = self.r, self.id()
        k = r.choice(["assign", "assign", "aug", "unpack", "expr"] + (["if", "for", "try", "with", "while", "def"] if d > 0 else []))
        E = lambda t="i": self.ex(ns, t, d)
        sp = " " * ind
        if k == "assign":
            t = self.ty(); e = self.ex(ns, t, d); ns.append((f"v{i}", t))
            return tuple([f"{sp}v{i} = {e[j]}"] for j in (0, 1))
        if k == "unpack":
            self.ql += self.prefix; a, b = E(), E(); self.ql -= self.prefix; ns += [(f"v{i}", "i"), (f"w{i}", "i")]
            qq = "(q, " if self.prefix else "("
            return [f"{sp}v{i}, w{i} = {qq}{a[0]}, {b[0]})"], [f"{sp}v{i}, w{i} = {a[1]}, {b[1]}"]
        if k == "aug":
            vs = [n for n, t in ns if t == "i" and n[0] == "v"]
            e = E()
            if not vs: return tuple([f"{sp}{e[j]}"] for j in (0, 1))
            v = r.choice(vs)
            return tuple([f"{sp}{v} += {e[j]}"] for j in (0, 1))
        if k == "expr": e = E(); return tuple([f"{sp}{e[j]}"] for j in (0, 1))
        if k == "if":
            c, a, b = E(), self.stmt(list(ns), d - 1, ind + 1), self.stmt(list(ns), d - 1, ind + 1)
            return tuple([f"{sp}if {c[j]}:"] + a[j] + [f"{sp}else:"] + b[j] for j in (0, 1))
        if k == "for":
            b = self.stmt(ns + [(f"v{i}", "i")], d - 1, ind + 1)
            it = "[1, 2]" if not self.prefix else "(q, 1, 2)"
            return [f"{sp}for v{i} in {it}:"] + b[0], [f"{sp}for v{i} in (1, 2):"] + b[1]
        if k == "while":
            b, c = self.stmt(list(ns), d - 1, ind + 1), E()
            return tuple([f"{sp}while {c[j]}:"] + b[j] + [f"{sp} break"] for j in (0, 1))
        if k == "with":
            a, b = E(), self.stmt(ns + [(f"v{i}", "i")], d - 1, ind + 1)
            c = self.call(("CM", "CM"), [a])
            return tuple([f"{sp}with {c[j]} as v{i}:"] + b[j] for j in (0, 1))
        if k == "try":
            a, b = self.stmt(list(ns), d - 1, ind + 1), self.stmt(list(ns), d - 1, ind + 1)
            f = self.call(("fail", "fail"), [(str(i), str(i))])
            ex = "(q, KeyError, Boom)" if self.prefix else "(KeyError, Boom)"
            return tuple([f"{sp}try:"] + a[j] + [f"{sp} {f[j]}", f"{sp}except {ex if j == 0 else '(KeyError, Boom)'}:"] + b[j] for j in (0, 1))
        return self.fun(ns, d, ind)
    def fun(self, ns, d, ind):
        r, sp = self.r, " " * ind
        name = f"f{self.id()}"
        t = (tuple(self.ty(0) for _ in range(r.randrange(1, 4))), self.ty(0) if self.curry else "i")
        ps = [f"p{self.id()}" for _ in t[0]]
        if r.random() < 0.1: ps[0] = "f"
        inner = [x for x in ns if x[0] not in ps and x[0] != name] + list(zip(ps, t[0]))
        inner = [x for x in inner if not x[0].startswith(("v", "w"))] + [x for x in inner if x[0].startswith(("v", "w")) and r.random() < 0.0]
        if r.random() < 0.15: inner.append((name, t)) if False else None
        body = ([], [])
        loc = list(inner)
        i = self.id()
        l = self.lcall(i, ("0", "0"))
        for j in (0, 1): body[j].append(f"{sp} {l[j]}")
        for _ in range(r.randrange(0, 3)):
            s = self.stmt(loc, d - 1, ind + 1)
            for j in (0, 1): body[j].extend(s[j])
        e = self.ex(loc, t[1], d)
        sig = list(ps)
        dk = None
        if r.random() < 0.25:
            dv = self.ex([x for x in ns if not x[0].startswith(("v", "w"))], "i", 1); dk = f"k{self.id()}"; sig2 = [sig + [f"{dk}={dv[j]}"] for j in (0, 1)]
        elif r.random() < 0.15: sig2 = [sig[:1] + ["/"] + sig[1:]] * 2
        else: sig2 = [sig] * 2
        deco = [[f"{sp}@ident"], [f"{sp}@ident"]] if r.random() < 0.15 else [[], []]
        out = tuple(deco[j] + [f"{sp}def {name}({', '.join(sig2[j])}):"] + body[j] + [f"{sp} return {e[j]}"] for j in (0, 1))
        if not (dk and self.curry): ns.append((name, t))
        else: ns.append((name, t)) if isinstance(t[1], str) else None
        self.funs.append((name, t, ps, dk, "/" in sig2[0]))
        return out
    def program(self):
        self.funs = []
        ns, out = [], ([], [])
        for _ in range(self.r.randrange(2, 5)):
            s = self.fun(ns, 3, 1)
            for j in (0, 1): out[j].extend(s[j])
        tests = []
        for _ in range(4):
            top = [x for x in ns if x[0] in {f[0] for f in self.funs}]
            if self.r.random() < 0.3 and top:
                # named arguments
                f = self.r.choice([f for f in self.funs if any(x[0] == f[0] for x in ns)])
                if not isinstance(f[1][1], tuple) and not f[4]:
                    n = self.r.randrange(len(f[2]) + 1) if f[3] is None or True else 0
                    args = [self.ex(ns, t, 1) for t in f[1][0]]
                    kws = list(zip(f[2][n:], args[n:])); self.r.shuffle(kws)
                    if f[3] and self.r.random() < 0.6: kws.append((f[3], self.ex(ns, "i", 1)))
                    if self.curry and len(kws) > 1 and self.r.random() < 0.5:
                        m = self.r.randrange(1, len(kws))
                        kws.sort(key=lambda x: x[0] == f[3])       # the one with a default in the second call would be too late
                        if any(k == f[3] for k, _ in kws): kws.insert(0, kws.pop())
                        e = self.call(self.call((f[0], f[0]), args[:n], kws[:m]), [], kws[m:])
                    else: e = self.call((f[0], f[0]), args[:n], kws)
                else: e = self.ex(ns, "i", 4)
            else: e = self.ex(ns, "i", 4)
            name = f"t{self.id()}"
            tests.append(name)
            for j in (0, 1): out[j].extend([f" def {name}():", f"  return {e[j]}"])
        return "\n".join(out[0]) + "\n", "\n".join(out[1]) + "\n", tests

HEAD = "from unpythonic.syntax import macros, autocurry, prefix, q, u, kw, let, do, local, where\n"
BLOCKS = ["autocurry", "autocurry", "prefix", "prefix", "prefix, autocurry"]

class Arr:
    def __getitem__(self, k): return (k[0] * 3 + k[1]) % 97 if type(k) is tuple else -1
class CM:
    def __init__(self, x): self.x = x
    def __enter__(self): return self.x
    def __exit__(self, *a): return False
def total(t, d=1): return sum(total(x, d + 1) if type(x) is tuple else x * d if isinstance(x, int) else 1000 for x in t) + len(t) * 7 % 101
def pair(a, b): return a * 2 + b
def ident(f): return f
def pick(x): return x
def plain2(a, b): return a - b
def steps(f, *args):
    for a in args: f = f(a)
    return f

def env(t):
    from vp.lang import Boom
    def L(i, v): t.append((i, v if isinstance(v, int) else "f")); return v
    def fail(i): t.append(("fail", i)); raise Boom(i)
    return dict(L=L, fail=fail, Boom=Boom, ARR=Arr(), CM=CM, total=total, pair=pair, ident=ident, pick=pick, plain2=plain2, steps=steps)

@section(quick=900, thorough=30000, deadline=240, require={"tests": 1500, "events": 3000, "autocurry": 150, "prefix": 150})
def programs(ctx, rng):
    block = rng.choice(BLOCKS)
    g = Gen(rng, block)
    src, ref, tests = g.program()
    if len(src) > 9000 or len(ref) > 12000: return
    ctx.note(src=src, ref=ref, block=block)
    ta, tb = [], []
    a = res(lambda: Program(HEAD + f"with {block}:\n" + src, **env(ta)))
    ns = env(tb); ns["rc"] = rc
    b = res(lambda: exec(compile("if 1:\n" + ref, "<ref>", "exec"), ns))
    ctx.check(a[0] == b[0] and ta == tb, "wrong behaviour of the definitions", got=(a, ta), want=(b, tb))
    if a[0] != "ok": return
    for t in tests:
        del ta[:], tb[:]
        got, want = res(getattr(a[1].mod, t)), res(ns[t])
        if got[0] == want[0] == "exc": got, want = got[:2], want[:2]
        ctx.check(got == want, "wrong result", test=t, got=got, want=want, trace=ta[-6:])
        ctx.check(ta == tb, "wrong order of evaluation", test=t, got=ta[:40], want=tb[:40])
        ctx.event("tests"); ctx.event("events", len(ta)); ctx.event(want[0])
    ctx.event(block); ctx.seen(src)

# -- forms: (block, statements, expression, value) with random numbers ---------------------------------
FORMS = [
    ("autocurry", "class A:\n def m(self, x, y): return (self.k, x, y)\n def __init__(self, k): self.k = k\n @classmethod\n def c(cls, x, y): return (cls.__name__, x, y)\n @staticmethod\n def s(x, y): return (x, y)\n @property\n def p(self): return self.k + 1\nclass B(A):\n def m(self, x, y): return ('B', super().m(x, y))\n def n(self, x): return super(B, self).m(x)",
     [("A(A_).m(B_)(C_)", "(A_, B_, C_)"), ("A(A_).m(B_, C_)", "(A_, B_, C_)"), ("A.c(A_)(B_)", "('A', A_, B_)"), ("B(0).c(A_, B_)", "('B', A_, B_)"), ("A.s(A_)(B_)", "(A_, B_)"), ("A(A_).p", "A_ + 1"),
      ("B(A_).m(B_)(C_)", "('B', (A_, B_, C_))"), ("B(A_).n(B_)(C_)", "(A_, B_, C_)"), ("A.m(A(A_), B_)(C_)", "(A_, B_, C_)"), ("A.m(A(A_))(B_, C_)", "(A_, B_, C_)"), ("A.m(A(A_))(y=B_)(C_)", "(A_, C_, B_)")]),
    ("autocurry", "def g(f, x): return (f, x)\ndef h(**k): return k\ndef va(a, *args, k=7, **kw_): return (a, args, k, kw_)\ndef ko(a, *, b, c=3): return (a, b, c)\ndef po(a, b, /, c): return (a, b, c)\ndef z(): return 'z'\ndef gen(a, b):\n yield a\n yield b\ndef deco(n):\n def d(f):\n  return lambda *a: (n, f(*a))\n return d\n@deco(5)\ndef dd(a, b): return (a, b)\ndef mk(a): return lambda b, c: (a, b, c)",
     [("g(f=A_, x=B_)", "(A_, B_)"), ("g(x=A_)(f=B_)", "(B_, A_)"), ("g(A_)(x=B_)", "(A_, B_)"), ("h(f=A_, args=B_)", "{'f': A_, 'args': B_}"), ("va(A_)", "(A_, (), 7, {})"), ("va(A_, B_, C_, k=1, j=2)", "(A_, (B_, C_), 1, {'j': 2})"),
      ("va(k=A_)(B_)", "(B_, (), A_, {})"), ("va(*[A_, B_], **{'q9': C_})", "(A_, (B_,), 7, {'q9': C_})"), ("ko(A_)(b=B_)", "(A_, B_, 3)"), ("ko(b=A_)(B_)", "(B_, A_, 3)"), ("ko(b=A_, c=B_)(C_)", "(C_, A_, B_)"), ("po(A_)(B_)(C_)", "(A_, B_, C_)"), ("po(A_)(B_, c=C_)", "(A_, B_, C_)"), ("po(A_, c=B_)(C_)", "(A_, C_, B_)"),
      ("z()", "'z'"), ("list(gen(A_)(B_))", "[A_, B_]"), ("list(gen(A_, B_))", "[A_, B_]"), ("dd(A_, B_)", "(5, (A_, B_))"), ("mk(A_)(B_)(C_)", "(A_, B_, C_)"), ("mk(A_, B_, C_)", "(A_, B_, C_)"), ("mk(A_, B_)(C_)", "(A_, B_, C_)"), ("mk(A_)(c=B_)(C_)", "(A_, C_, B_)"),
      ("list(map(g(A_), [B_, C_]))", "[(A_, B_), (A_, C_)]"), ("[*map(lambda x, y: x + y, [A_], [B_])]", "[A_ + B_]"), ("sorted([A_, B_, C_], key=lambda x: -x)", "sorted([A_, B_, C_], reverse=True)"), ("(lambda x, y: x - y)(A_)(B_)", "A_ - B_"), ("(lambda x: lambda y: x - y)(A_, B_)", "A_ - B_"),
      ("(lambda *a: a)(A_, B_)", "(A_, B_)"), ("(lambda: A_)()", "A_"), ("'{}-{}'.format(A_, B_)", "'%d-%d' % (A_, B_)"), ("[A_, B_].index(B_) in (0, 1)", "True"), ("int('12') + A_", "12 + A_"), ("dict(f=A_, g=B_)", "{'f': A_, 'g': B_}"), ("curry(lambda x, y: x - y)(A_)(B_)", "A_ - B_"), ("curry(lambda x, y, z: x - y + z, A_)(B_)(C_)", "A_ - B_ + C_"),
      ("Values(A_, k=B_).rets[0]", "A_"), ("Values(z(), k=g(A_)(B_)).kwrets['k']", "(A_, B_)"), ("apply(g, A_, [B_])", "(A_, B_)"), ("call(g, x=A_, f=B_)", "(B_, A_)"), ("flip(g)(A_)(B_)", "(B_, A_)"), ("foldr(g, A_, [B_, C_])", "(B_, (C_, A_))"), ("steps(lambda x, y: x - y, A_, B_)", "A_ - B_"), ("steps(curry(lambda x: (lambda y, z: x - y + z)), A_, B_, C_)", "A_ - B_ + C_"), ("steps(curry(lambda x, k=(lambda y, z: y - z): k), A_, B_, C_)", "B_ - C_"), ("Values(k=plain2(A_)(B_)).kwrets['k']", "A_ - B_"), ("Values(plain2(A_)(B_)).rets[0]", "A_ - B_"), ("plain2(A_)(b=B_)", "A_ - B_"), ("plain2(b=B_)(A_)", "A_ - B_"),
      ("steps(mk(A_), B_, C_)", "(A_, B_, C_)"), ("[steps(f, A_, B_) for f in [lambda x, y: x - y, plain2]] if False else 1", "1"), ("(lambda f: steps(f, A_, B_))(lambda x, y: x - y)", "A_ - B_"), ("let[(f, lambda x, y: x - y)][steps(f, A_, B_)]", "A_ - B_"), ("do[local[f := lambda x, y: x - y], steps(f, A_, B_)]", "A_ - B_"), ("let[(f, curry(lambda x: lambda y, z: x - y + z))][steps(f, A_, B_, C_)]", "A_ - B_ + C_"),
      ("(lambda x, k=plain2(A_)(B_): x + k)(C_)", "A_ - B_ + C_"), ("steps((lambda x, k=(lambda y, z: y - z): k), A_, B_, C_)", "B_ - C_"), ("steps(curry(lambda x: [lambda y, z: x - y + z][0]), A_, B_, C_)", "A_ - B_ + C_"), ("mymap_(A_, B_)", "ll(A_ * 2, B_ * 2)")]),
    ("prefix", "def f(*a, **k): return (q, 'f', a, k)\ndef fd(x=(f, 3)): return (q, x)\nd = {'a': 1}",
     [("(f,)", "('f', (), {})"), ("(f, A_, (f, B_))", "('f', (A_, ('f', (B_,), {})), {})"), ("(q, A_, (B_, C_))", "(A_, (B_, C_))"), ("(q, f, (f, A_))[1][1]", "A_"), ("(q, (u, f, A_), (q, (u, A_), (u, u, f, B_)))", "(('f', (A_,), {}), ((A_,), ('f', (B_,), {})))"), ("(q, u, f, A_)", "('f', (A_,), {})"), ("(q, q, u, f, A_)[1]", "A_"), ("(q, q, A_)", "(A_,)"),
      ("(q, (), A_)", "((), A_)"), ("(f, ())", "('f', ((),), {})"), ("()", "()"), ("(f, kw(a=A_, b=B_), C_)", "('f', (C_,), {'a': A_, 'b': B_})"), ("(f, kw(a=A_), C_, kw(a=B_))", "('f', (C_,), {'a': B_})"), ("(f, kw(a=(f, A_)))", "('f', (), {'a': ('f', (A_,), {})})"), ("(f, kw(a=(q, A_)))", "('f', (), {'a': (A_,)})"), ("(f, kw())", "('f', (), {})"),
      ("list(f(*[(q, A_)], **{'z': (f, B_)}))", "['f', ((A_,),), {'z': ('f', (B_,), {})}]"), ("fd()", "(('f', (3,), {}),)"), ("{(q, A_, B_): (f, C_)}", "{(A_, B_): ('f', (C_,), {})}"), ("d['a']", "1"), ("ARR[A_ % 5, B_ % 5]", "((A_ % 5) * 3 + B_ % 5) % 97"), ("(pick, ARR)[A_ % 5, B_ % 5]", "((A_ % 5) * 3 + B_ % 5) % 97"), ("(pick, ARR)[A_ % 5, (max, B_ % 5, 0)]", "((A_ % 5) * 3 + B_ % 5) % 97"), ("(q, (pick, 5), (u, pick, A_), (q, (u, pick, A_), (u, u, pick, B_)))[1:]", "(A_, ((pick, A_), B_))"), ("(pick, (q, (pick, A_)))", "((pick, A_),)"), ("[(q, A_, (u, pick, B_)), (pick, C_)]", "[(A_, B_), C_]"), ("ARR[(max, A_ % 5, 0), B_ % 5]", "((A_ % 5) * 3 + B_ % 5) % 97"), ("[A_, B_, C_][0:2]", "[A_, B_]"),
      ("[(f, x) for x in (q, A_, B_)]", "[('f', (A_,), {}), ('f', (B_,), {})]"), ("[y for x, y in [(q, A_, B_)]]", "[B_]"), ("((lambda x: (q, x, x)), A_)", "(A_, A_)"), ("((lambda x: (f, x)), A_)", "('f', (A_,), {})"), ("(f, *[])" if False else "(f, A_)[1]", "(A_,)"), ("f'{(q, A_)}'", "'(%d,)' % A_"), ("f'{(max, A_, 0)}'", "'%d' % A_"),
      ("let[(x, (f, A_))][x]", "('f', (A_,), {})"), ("let[(x, A_), (y, B_)][(f, x, y)]", "('f', (A_, B_), {})"), ("let[(x, d)][x['a']]", "1"), ("let[(x, (q, A_))][x.count]((max, A_, 0))", "1"), ("let[(f, x), where[(x, A_)]]", "('f', (A_,), {})"), ("let[[x << (f, A_)] in (q, x)]", "(('f', (A_,), {}),)"), ("let[(x, A_)][[(f, x), (q, x)]]", "(A_,)"), ("do[local[x := (f, A_)], (f, x), (q, x)]", "(('f', (A_,), {}),)"),
      ("(apply, f, A_, [B_])", "('f', (A_, B_), {})"), ("((f, A_) if (q, 1) else (f,))", "('f', (A_,), {})"), ("((max, A_, 1) + (q, B_)[0])", "A_ + B_"), ("(isinstance, A_, (q, int, str))", "True"), ("A_", "A_")]),
]
BAD = [("prefix", "(u, max, 1, 2)"), ("prefix", "(q, (u, u, max, 1))"), ("prefix", "(q, kw(a=1))"), ("prefix", "(max, kw(1))"), ("prefix", "kw(a=1)"), ("prefix", "q"), ("prefix", "(q,)"), ("prefix", "(q, u)"), ("prefix", "[q]"), ("prefix", "(max, q, 1)"), ("prefix", "(max, 1, u)"), ("prefix", "(q, max(kw(a=1)))")]
EXTRA = "from unpythonic import curry, Values, apply, call, flip, foldr, composerc, cons, nil, ll\n"

@section(quick=60, thorough=500, deadline=60, require={"forms": 1000, "bad": 60})
def forms(ctx, rng):
    block, defs, pairs = FORMS[rng.randrange(len(FORMS))]
    combo = rng.random() < 0.3 and block == "prefix"
    chosen = rng.sample(pairs, min(len(pairs), rng.randrange(15, 40)))
    sub = lambda s: s.replace("A_", str(rng_n[0])).replace("B_", str(rng_n[1])).replace("C_", str(rng_n[2]))
    rng_n = [rng.randrange(1, 90) for _ in range(3)]
    src = HEAD + EXTRA + ("with prefix, autocurry:\n" if combo else f"with {block}:\n") + "".join(" " + l + "\n" for l in defs.splitlines())
    if block == "autocurry": src += " mymap = lambda f: foldr(composerc(cons, f), nil)\n def mymap_(a, b): return mymap(lambda x: 2 * x, ll(a, b))\n"
    ctx.note(block=block, combo=combo)
    tests = []
    for n, (e, want) in enumerate(chosen):
        if combo and e == "(f,)": continue
        src += f" def t{n}(): return {sub(e)}\n"
        tests.append((f"t{n}", sub(e), eval(sub(want), {"ll": __import__("unpythonic").ll, "pick": pick})))
    p = res(lambda: Program(src, **env([])))
    ctx.check(p[0] == "ok", "does not compile", got=p, src=src[-1500:])
    for t, e, want in tests:
        got = res(getattr(p[1].mod, t))
        ctx.check(got == ("ok", want), "wrong value", expr=e, got=got, want=want, block=block)
        ctx.event("forms"); ctx.seen(block, e)
    if block == "autocurry":
        # the functions are curried for outside callers, too
        m = p[1].mod
        a, b, c = rng_n
        for f in (lambda: m.g(a)(b) == (a, b), lambda: m.mk(a)(b)(c) == m.mk(a, b, c) == (a, b, c), lambda: m.po(a)(b, c) == (a, b, c)) if hasattr(m, "mk") else (lambda: m.A(a).m(b)(c) == (a, b, c), lambda: m.A.s(a)(b) == (a, b)):
            ctx.check(res(f) == ("ok", True), "not curried outside the block", got=res(f))
    for _ in range(3):
        blk, e = rng.choice(BAD)
        got = res(lambda: Program(HEAD + f"with {blk}:\n r = {e}\n"))
        ctx.check(got[0] == "exc" and got[1] == "SyntaxError", "invalid use accepted", expr=e, got=got)
        ctx.event("bad")
