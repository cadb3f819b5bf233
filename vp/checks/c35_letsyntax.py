"""C35: let_syntax and abbrev, against a reference substitution on the AST of the same source."""
import ast
from copy import deepcopy
from vp.core import section
from vp.macro import Program, res

# -- reference: the documented substitution rules ----------------------------------------------
IDS = {ast.Attribute: ["attr"], ast.arg: ["arg"], ast.keyword: ["arg"], ast.FunctionDef: ["name"], ast.ExceptHandler: ["name"], ast.ClassDef: ["name"]}

class Inst(ast.NodeTransformer):
    """Replace names by (copies of) code, all at once; a name for a name renames all identifiers."""
    def __init__(self, m): self.m = m
    def visit_Name(self, t):
        if t.id not in self.m: return t
        n = deepcopy(self.m[t.id])
        if isinstance(n, ast.Name): n.ctx = t.ctx
        return n
    def generic_visit(self, t):
        for f in IDS.get(type(t), []):
            v = self.m.get(getattr(t, f))
            if isinstance(v, ast.Name): setattr(t, f, v.id)
        return super().generic_visit(t)

def invocation(t, name):
    if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == name:
        return list(t.slice.elts) if isinstance(t.slice, ast.Tuple) else [t.slice]
    if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == name: return list(t.args)

class Template(ast.NodeTransformer):
    def __init__(self, name, params, value): self.name, self.params, self.value = name, params, value
    def make(self, args):
        if len(args) != len(self.params): raise SyntaxError("arity")
        m = dict(zip(self.params, args))
        v = deepcopy(self.value)
        return [Inst(m).visit(s) for s in v] if isinstance(v, list) else Inst(m).visit(v)
    def visit(self, t):
        if isinstance(self.value, list):
            if isinstance(t, ast.Expr) and (a := invocation(t.value, self.name)) is not None: return self.make(a)
            if invocation(t, self.name) is not None: raise SyntaxError("block in an expression")
        elif invocation(t, self.name) is not None:
            return self.make([self.visit(a) for a in invocation(t, self.name)])
        return super().visit(t)

class Block(ast.NodeTransformer):
    def __init__(self, name, value): self.name, self.value = name, value
    def visit_Expr(self, t):
        if isinstance(t.value, ast.Name) and t.value.id == self.name: return deepcopy(self.value)     # in a statement position
        return self.generic_visit(t)
    def visit_Name(self, t):
        if t.id == self.name: raise SyntaxError("block in an expression")
        return t

def subst(tree, bs):
    """Templates first, then bare names, both in definition order."""
    def each(f): return [s2 for s in tree for s2 in (lambda r: r if isinstance(r, list) else [r])(f(s))] if isinstance(tree, list) else f(tree)
    for n, ps, v in bs:
        if ps: tree = each(Template(n, ps, v).visit)
    for n, ps, v in bs:
        if not ps: tree = each(Block(n, v).visit if isinstance(v, list) else Inst({n: v}).visit)
    return tree

def lhs(t):
    if isinstance(t, ast.Name): return t.id, []
    if isinstance(t, ast.Subscript): return t.value.id, [a.id for a in (t.slice.elts if isinstance(t.slice, ast.Tuple) else [t.slice])]
    return t.func.id, [a.id for a in t.args]

def binding(t):
    if isinstance(t, ast.BinOp): k, v = t.left, t.right
    elif isinstance(t, ast.NamedExpr): k, v = t.target, t.value
    else: k, v = t.elts
    return (*lhs(k), v)

def bindings(t): return [binding(b) for b in (t.elts if isinstance(t, (ast.Tuple, ast.List)) and not (len(t.elts) == 2 and isinstance(t, ast.Tuple) and isinstance(t.elts[0], (ast.Name, ast.Subscript, ast.Call))) else [t])]

def body(t):
    if isinstance(t, ast.List): return ast.Call(ast.Name("last_", ast.Load()), t.elts, [])
    return t

class Ref(ast.NodeTransformer):
    def macro(self, t): return t.id if isinstance(t, ast.Name) and t.id in ("let_syntax", "abbrev") else None
    def visit_Subscript(self, t):
        if m := self.macro(t.value):
            s = t.slice
            if isinstance(s, ast.Compare): bs, b = bindings(s.left), s.comparators[0]
            else: b, bs = s.elts[0], bindings(s.elts[1].slice)
        elif isinstance(t.value, ast.Subscript) and (m := self.macro(t.value.value)): bs, b = bindings(t.value.slice), t.slice
        else: return self.generic_visit(t)
        b = body(b)
        if m == "abbrev": return self.visit(subst(b, bs))
        return subst(self.visit(b), [(n, p, self.visit(v)) for n, p, v in bs])
    def visit_With(self, t):
        m = self.macro(t.items[0].context_expr)
        if not m: return self.generic_visit(t)
        bs, out = [], []
        for s in t.body:
            if m == "let_syntax": s = self.inner(s)
            for s in subst(s if isinstance(s, list) else [s], bs):
                d = isinstance(s, ast.With) and s.items[0].context_expr
                if d and (isinstance(d, ast.Name) and d.id in ("block", "expr") or isinstance(d, (ast.Subscript, ast.Call)) and lhs(d)[0] in ("block", "expr")):
                    k, ps = lhs(d)
                    bs.append((s.items[0].optional_vars.id, ps, s.body if k == "block" else s.body[0].value))
                else: out.append(s)
        return [x for s in out for x in (lambda r: r if isinstance(r, list) else [r])(self.visit(s))] if m == "abbrev" else out
    def inner(self, s): return self.visit(s)

def reference(src):
    t = Ref().visit(ast.parse(src))
    return ast.unparse(ast.fix_missing_locations(t))

# -- generator -----------------------------------------------------------------------------
VARS = ["v0", "v1", "v2"]

class G:
    def __init__(self, rng): self.r, self.k, self.n, self.kinds, self.ab = rng, 0, 0, set(), 0     # ab: depth of enclosing abbrevs (no lexical scoping in those)
    let_ok = True
    def id(self): self.k += 1; return self.k
    def fresh(self): self.n += 1; return f"s{self.n}"
    # sc: visible substitutions (name, arity, kind), kind in expr / block; vs: names usable as values
    def ex(self, sc, vs, d, let=True):
        r = self.r
        if d <= 0:
            bare = [n for n, a, k in sc if a == 0 and k == "expr"]
            return r.choice(bare) if bare and r.random() < 0.5 else r.choice(vs) if r.random() < 0.75 else str(r.randrange(9))
        k = r.choice(["bin", "L", "if", "name", "call", "attr", "kw", "comp", "lam", "fstr", "dict", "inv", "inv", "inv", "let"])
        e = lambda: self.ex(sc, vs, d - 1, let)
        if k == "inv":
            ts = [(n, a) for n, a, kk in sc if a and kk == "expr"]
            if not ts: k = "name"
            else:
                n, a = r.choice(ts); self.kinds.add("inv")
                args = ", ".join(e() for _ in range(a))
                return f"{n}[{args}]" if r.random() < 0.7 else f"{n}({args})"
        if k == "bin": return f"({e()} {r.choice('+-*')} {e()}) % 97"if False else f"(({e()} {r.choice('+-*')} {e()}) % 97)"
        if k == "L": return f"L({self.id()}, {e()})"
        if k == "if": return f"({e()} if {e()} else {e()})"
        if k == "call": return f"g({e()}, {e()})"
        if k == "attr": return f"o.{r.choice(VARS)}"
        if k == "kw": return f"h({r.choice(VARS)}={e()})"
        if k == "comp": x = self.fresh(); return f"sum([{self.ex(sc, vs + [x], d - 1, let)} for {x} in range({r.randrange(3)})])"
        if k == "lam": x = self.fresh(); return f"(lambda {x}: {self.ex(sc, vs + [x], d - 1, let)})({e()})"
        if k == "fstr": return f"len(f'{{{self.ex(sc, vs, 0, let)}}}')"
        if k == "dict": return f"{{1: {e()}, 2: {e()}}}[{r.choice('12')}]"
        if k == "let" and let and self.let_ok: return self.let(sc, vs, d - 1)
        return self.ex(sc, vs, 0, let)
    def params(self): return self.r.sample(["p", "q_"] + VARS, self.r.randrange(1, 4))
    def let(self, sc, vs, d):
        r = self.r
        m = r.choice(["let_syntax", "let_syntax", "abbrev"])
        self.kinds.add(m)
        mine, out, later = [], [], []
        n = r.randrange(1, 4)
        names = [self.fresh() for _ in range(n)]
        if not self.ab and m == "let_syntax" and sc and r.random() < 0.5: names[0] = r.choice(sc)[0]; self.kinds.add("shadow")
        elif not self.ab and m == "let_syntax" and r.random() < 0.2: names[0] = r.choice(VARS)
        outer = [s for s in sc if s[0] not in names]
        decl = [(nm, self.params() if r.random() < 0.5 else []) for nm in names]
        form = r.choice(["<<", "<<", ":=", "pair"])
        if form == ":=" and any(ps for _, ps in decl): form = "<<"
        for i, (nm, ps) in enumerate(decl):
            # a value may use the outer substitutions and, as these apply in order, the later ones of its kind
            use = [(a, len(b), "expr") for a, b in decl[i + 1:] if bool(b) == bool(ps) and r.random() < 0.6]
            ok = [v for v in vs if v not in names]
            v = self.ex([s for s in outer if not m == "abbrev" or True] + use, (ok or ["0"]) + ps, r.randrange(0, d + 1), let=d > 1 and m != 'abbrev' and not self.ab) if not (not ps and r.random() < 0.25) else r.choice(ok or ["0"])
            key = nm if not ps else f"{nm}[{', '.join(ps)}]" if r.random() < 0.7 else f"{nm}({', '.join(ps)})"
            out.append(f"({key}, {v})" if form == "pair" else f"{key} << ({v})" if form == "<<" else f"({key} := {v})")
            mine.append((nm, len(ps), "expr"))
        if m == "abbrev": self.ab += 1
        b = self.ex(outer + mine + mine, [v for v in vs if v not in names] or ["0"], d + 1)
        if r.random() < 0.25: b = f"[{self.ex(outer + mine, [v for v in vs if v not in names] or ['0'], d)}, {b}]"; self.kinds.add("do")
        if m == "abbrev": self.ab -= 1
        style = r.randrange(3)
        bs = ", ".join(out)
        if style == 0: return f"{m}[{bs}][{b}]"
        if style == 1: return f"{m}[[{bs}] in {b}]"
        return f"{m}[{b}, where[{bs}]]"
    # statements
    def stmts(self, sc, vs, d, ind, n):
        return [l for _ in range(n) for l in self.st(sc, vs, d, ind)]
    def st(self, sc, vs, d, ind):
        r = self.r
        sp = "    " * ind
        k = r.choice(["assign", "assign", "aug", "if", "for", "inv", "inv", "inv", "try", "def", "with", "expr"])
        e = lambda dd=1: self.ex(sc, vs, dd)
        if k == "inv":
            bl = [(n, a) for n, a, kk in sc if kk == "block"]
            if bl:
                n, a = r.choice(bl); self.kinds.add("block inv")
                return [sp + (n if not a else f"{n}[{', '.join(e() for _ in range(a))}]" if r.random() < 0.7 else f"{n}({', '.join(e() for _ in range(a))})")]
            k = "assign"
        if k == "assign": return [sp + f"{r.choice(VARS)} = {e(2)}"]
        if k == "aug": return [sp + f"{r.choice(VARS)} += {e(1)}"]
        if k == "expr": return [sp + f"L({self.id()}, {e(1)})"]
        if d <= 0: return [sp + f"L({self.id()}, {e(1)})"]
        if k == "if": return [sp + f"if {e()}:", *self.stmts(sc, vs, d - 1, ind + 1, 1), sp + "else:", *self.stmts(sc, vs, d - 1, ind + 1, r.randrange(1, 3))]
        if k == "for": x = self.fresh(); return [sp + f"for {x} in range(2):", *self.stmts(sc, vs + [x], d - 1, ind + 1, 2)]
        if k == "try": return [sp + "try:", *self.stmts(sc, vs, d - 1, ind + 1, 1), sp + "finally:", *self.stmts(sc, vs, d - 1, ind + 1, 1)]
        if k == "def":
            f, x = self.fresh(), self.fresh()
            return [sp + f"def {f}({x}):", sp + f"    return {self.ex(sc, vs + [x], 2)}", sp + f"L({self.id()}, {f}({e()}))"]
        return self.block(sc, vs, d - 1, ind) if self.let_ok else self.st(sc, vs, 0, ind)
    def block(self, sc, vs, d, ind):
        r = self.r
        sp = "    " * ind
        m = r.choice(["let_syntax", "let_syntax", "abbrev"])
        self.kinds.add("with " + m)
        ab = self.ab
        if m == "abbrev": self.ab += 1
        out, mine, names = [sp + f"with {m}:"], list(sc), set()
        for _ in range(r.randrange(1, 5)):
            if r.random() < 0.7:
                nm = r.choice(sc)[0] if sc and not self.ab and m == "let_syntax" and r.random() < 0.3 else self.fresh()
                if nm in names: nm = self.fresh()
                names.add(nm)
                shadowed = [s for s in mine if s[0] == nm]
                vis = [s for s in mine if s[0] != nm]
                kind, ps = r.choice(["expr", "block"]), self.params() if r.random() < 0.6 else []
                # formal parameters may have the names of variables, not of substitutions active in the block
                ps = [p for p in ps if p not in {s[0] for s in mine}]
                pd = f"[{', '.join(ps)}]" if ps and r.random() < 0.8 else f"({', '.join(ps)})" if ps else ""
                out.append(sp + f"    with {kind}{pd} as {nm}:")
                if kind == "expr":
                    v = self.ex(vis, vs + ps, r.randrange(1, 3), let=not self.ab)     # code with a let_syntax, copied by abbrev into itself, is self-referential
                    if not ps and r.random() < 0.3: v = r.choice([x for x in vs if x in VARS])
                    out.append(sp + "        " + v)
                else:
                    let, self.let_ok = self.let_ok, not self.ab
                    out += self.stmts(vis, vs + [p for p in ps if p not in VARS], min(d, 1), ind + 2, r.randrange(1, 3))
                    self.let_ok = let
                mine = vis + [(nm, len(ps), kind)]
            else: out += self.st(mine, vs, d, ind + 1)
        out += self.stmts(mine, vs, d, ind + 1, r.randrange(1, 3))
        self.ab = ab
        return out

IMPORT = "from unpythonic.syntax import macros, let_syntax, abbrev, block, expr, where\n"
class O:
    def __init__(self): self.v0, self.v1, self.v2 = 10, 20, 30
def both(src, args):
    def g(a, b): return (a + 2 * b) % 97
    def h(v0=1, v1=2, v2=3): return v0 * 3 + v1 * 5 + v2 * 7
    ref = reference(src)
    names = dict(g=g, h=h, last_=lambda *a: a[-1])
    a, b = Program(IMPORT + src, o=O(), **names), Program(ref, o=O(), **names)
    out = []
    for x in args:
        ra, rb = res(a.main, *x), res(b.main, *x)
        if ra[0] == rb[0] == "exc": ra, rb = ra[:2], rb[:2]
        out.append(((ra, a.trace[:]), (rb, b.trace[:])))
        del a.trace[:], b.trace[:]
    return ref, out

@section(quick=2500, thorough=40000, deadline=60, require={"uses of a template": 100, "nested shadowing": 30, "blocks": 100})
def programs(ctx, rng):
    g = G(rng)
    if rng.random() < 0.5: src = f"def main(v0, v1, v2):\n    return {g.let([], VARS, rng.randrange(2, 4))}\n"
    else: src = "\n".join(["def main(v0, v1, v2):", *g.block([], VARS, rng.randrange(1, 3), 1), "    return v0, v1, v2", ""])
    if len(src) > 6000: ctx.event("too long"); return
    try: ref = reference(src); compile(ref, "ref", "exec")
    except (SyntaxError, ValueError, AttributeError): ref = None     # ill-formed: code substituted for an assignment target or a left side
    if ref is None or len(ref) > 60000: ctx.event("no reference"); return
    args = [tuple(rng.randrange(6) for _ in VARS) for _ in range(3)]
    try: ref, out = both(src, args)
    except Exception as e:
        ctx.violate(f"program failed to expand or compile: {e!r}"[:500], src=src, ref=ref); return
    for (a, b), x in zip(out, args):
        ctx.check(a == b, "the program and its hand substituted equivalent differ", src=src, ref=ref, args=x, got=a, expected=b)
        ctx.event("evaluations"); ctx.seen(f"{a[0][0]} trace {min(len(a[1]), 12)}")
    if "inv" in g.kinds: ctx.event("uses of a template")
    if "shadow" in g.kinds: ctx.event("nested shadowing")
    if "block inv" in g.kinds: ctx.event("blocks")
    for k in g.kinds: ctx.seen(k)

# -- documented forms and errors -------------------------------------------------------------
BAD = {
 "duplicate (expr)": "x = let_syntax[a << 1, a << 2][a]\n",
 "duplicate (template)": "x = let_syntax[a[b] << b, a << 2][a]\n",
 "too few arguments": "x = let_syntax[f[a, b] << (a, b)][f[1]]\n",
 "too many arguments": "x = let_syntax[f[a] << a][f[1, 2]]\n",
 "too many arguments (call)": "x = let_syntax[f[a] << a][f(1, 2)]\n",
 "too many arguments (abbrev)": "x = abbrev[f[a] << a][f(1, 2)]\n",
 "duplicate (block)": "with let_syntax:\n    with expr as a:\n        1\n    with expr as a:\n        2\n    x = a\n",
 "duplicate (block, kinds)": "with abbrev:\n    with expr as a:\n        1\n    with block[c] as a:\n        c\n    x = 1\n",
 "block in an expression": "with let_syntax:\n    with block as a:\n        y = 1\n    x = a\n",
 "block template in an expression": "with let_syntax:\n    with block[b] as a:\n        y = b\n    x = a[2] + 1\n",
 "block arity": "with let_syntax:\n    with block[b] as a:\n        y = b\n    a[1, 2]\n",
 "no statements": "with let_syntax:\n    with block as a:\n        y = 1\n",
 "no as-part": "with let_syntax:\n    with block:\n        y = 1\n    x = 2\n",
 "two names": "with let_syntax:\n    with block as (a, b):\n        y = 1\n    x = 2\n",
 "expr with two statements": "with let_syntax:\n    with expr as a:\n        1\n        2\n    x = a\n",
 "expr with a statement": "with let_syntax:\n    with expr as a:\n        y = 1\n    x = a\n",
 "stray block": "with block as a:\n    y = 1\n",
 "stray expr": "with expr as a:\n    1\n",
 "stray in an if": "with let_syntax:\n    if 1:\n        with expr as a:\n            1\n    x = 1\n",
 "stray in a definition": "with let_syntax:\n    with block as b:\n        with expr as a:\n            1\n    x = 1\n",
 "stray in an if (abbrev)": "with abbrev:\n    if 1:\n        with block as a:\n            y = 1\n    x = 1\n",
 "as-part": "with let_syntax as z:\n    x = 1\n",
 "starred parameter": "x = let_syntax[f(*a) << a][f(1)]\n",
 "named parameter": "x = let_syntax[f(a=1) << a][f(1)]\n",
 "bad left side": "x = let_syntax[f.g << a][f(1)]\n",
 "as a decorator": "@let_syntax\ndef f(): pass\n",
}
GOOD = [
 ("x = let_syntax[a << b, b << 7][a]\n", 7), ("b = 5\nx = let_syntax[b << 7, a << b][a, b]\n", (5, 7)),
 ("x = let_syntax[f[a] << L(a)][[f[1], f[2]]]\n", None),
 ("n = 3\nx = let_syntax[f[a, n] << [a, n]][f[n, a * n]]\na = 1\n", NameError),
 ("a, n = 2, 3\nx = let_syntax[f[a, n] << [a, n]][f[n, a * n]]\n", [3, 6]),
 ("x = let_syntax[f[a] << a][f[f[f[4]]]]\n", 4),
 ("x = let_syntax[f[a] << (a, a)][f[f[1]]]\n", ((1, 1), (1, 1))),
 ("x = [let_syntax[k << i][let_syntax[k << i * 2][k] + k] for i in range(3)]\n", [0, 3, 6]),
 # abbrev renames macros
 ("from unpythonic.syntax import macros, let\nx = abbrev[m << let][m[y << 3][y + 1]]\n", 4),
 ("from unpythonic.syntax import macros, let, do, local\nx = abbrev[m << do, l << local][m[l[y << 3], y + 1]]\n", 4),
 ("from unpythonic.syntax import macros, let\nwith abbrev:\n    with expr as m:\n        let\n    x = m[y << 3][y + 1]\n", 4),
 # a name for a name renames definitions, too
 ("with let_syntax:\n    with expr as f:\n        verylong\n    def f(f):\n        return f + 1\n    x = verylong(1)\n", 2),
 ("class O:\n    pass\nwith let_syntax:\n    with expr as f:\n        x\n    O.f = 3\n    x = O.x\n", 3),
 ("with let_syntax:\n    with block[name, v] as mk:\n        def name(k):\n            return k + v\n    mk[f, 3]\n    mk[g, 4]\n    x = f(1), g(1)\n", (4, 5)),
 ("with let_syntax:\n    with block[a] as twice:\n        a\n        a\n    with block[x_, y] as app:\n        x += [x_, y]\n    x = []\n    twice(app(7, 8))\n", [7, 8, 7, 8]),
 ("with let_syntax:\n    with block as s:\n        x += 1\n    x = 0\n    s\n    for _ in range(3):\n        s\n        s\n    if x > 6:\n        s\n", 8),
 ("with let_syntax:\n    s = 1\n    x = [s]\n    with expr as s:\n        2\n    x.append(s)\nx.append(s)\n", [1, 2, 1]),
 ("with let_syntax:\n    with expr as s:\n        1\n    x = [s]\n    if s:\n        with let_syntax:\n            with expr as s:\n                2\n            x += [s]\n    x += [s, let_syntax[s << 3][s], s, let_syntax[[s << 4] in s], let_syntax[s, where[s << 5]]]\n", [1, 2, 1, 3, 1, 4, 5]),
 ("with let_syntax:\n    with expr as s:\n        1\n    x = [s]\n    with let_syntax:\n        with expr as s:\n            2\n        x += [s]\n    x += [s]\n", [1, 2, 1]),
 ("with let_syntax:\n    with expr[a] as s:\n        [a, L(0, a)]\n    x = s[L(1, 1)]\n", [1, 1]),
]

@section(quick=6, thorough=6, require={"rejected program": 20, "documented form": 15})
def forms(ctx, rng):
    for k in BAD:
        src = "a = b = f = s = 1\n" + BAD[k]
        r = res(Program, IMPORT + src)
        ctx.check(r[:2] == ("exc", "SyntaxError"), f"{k} was not rejected with SyntaxError", src=src, got=r)
        ctx.event("rejected program"); ctx.seen(k)
    for src, want in GOOD:
        r = res(Program, IMPORT + src)
        if r[0] == "ok": r = ("ok", r[1].x)
        if want is NameError: ctx.check(r[:2] == ("exc", "NameError"), "expected NameError", src=src, got=r)
        else: ctx.check(r[0] == "ok" and (want is None or r[1] == want), "wrong value", src=src, got=r, expected=want)
        ctx.event("documented form"); ctx.seen(src)
