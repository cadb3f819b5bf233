"""C30: programs with the let and do macros against a reference interpreter with explicit cells."""
from vp.core import section, outcome
from vp.lang import Gen, Interp, show, INTS, FUNS
from vp.macro import Program, res

HEAD = "from unpythonic.syntax import macros, let, letseq, letrec, where, do, do0, local, delete, dlet, dletseq, dletrec, blet, bletseq, bletrec\n"
GLOB = {"a": 3, "b": 4}

@section(quick=2200, thorough=40000, deadline=200, require={"programs": 1000, "events": 2500, "boom": 30})
def expressions(ctx, rng):
    g = Gen(rng)
    k = rng.choice(["let", "do", "any"])
    sc = {x: "glob" for x in GLOB}
    d = rng.randrange(1, 5)
    e = g.let(d, sc, False) if k == "let" else g.do(d, sc, False) if k == "do" else g.expr(d, sc)
    src = HEAD + "def main():\n    return " + show(e) + "\n"
    if len(src) > 6000: return
    it = Interp()
    try: want = res(lambda: it.ev(e, {x: [v] for x, v in GLOB.items()}))
    except OverflowError: return
    ctx.note(src=src)
    mod = Program(src, **GLOB); trace = mod.trace
    got = res(mod.main)
    ctx.event("programs"); ctx.event("events", len(it.trace)); ctx.event("boom", want[0] == "boom")
    ctx.check(got == want, "wrong value", got=got, want=want)
    ctx.check(trace == it.trace, "wrong side effects, or in the wrong order", got=trace[:30], want=it.trace[:30])
    ctx.check({x: getattr(mod, x) for x in GLOB} == GLOB, "a global variable was changed")
    first = list(trace)
    del trace[:]
    ctx.check(res(mod.main) == want and trace == first, "the second run differs from the first")   # a fresh environment each time
    ctx.seen(src)

# -- decorators and block bindings ---------------------------------------------------------
class Ret(Exception): pass

class Body:
    """Statements of a function decorated with bindings. A name assigned as a local variable is local from the next statement on."""
    def __init__(self, g, rng): self.g, self.rng, self.defs = g, rng, 0
    def block(self, d, sc, newlocals=True, infun=False, n=None):
        r, out = self.rng, []
        sc = dict(sc)
        for _ in range(n or r.randrange(1, 5)):
            k = r.choice(["expr", "expr", "assign", "assign", "if", "for", "return"] + ["local", "local", "del", "def", "class", "default"] * newlocals)
            env = [x for x in INTS if sc.get(x) == "env"]
            loc = [x for x in INTS if sc.get(x) == "loc"]
            if k == "expr": out.append(("expr", self.g.expr(d, sc)))
            elif k == "assign" and env: out.append(("set", r.choice(env), self.g.expr(d, sc), r.choice([":=", "<<"])))
            elif k == "if": out.append(("if", self.g.expr(d, sc), self.block(d, sc, False, infun, 2), self.block(d, sc, False, infun, 1)))
            elif k == "for": out.append(("for", r.randrange(3), self.block(d, sc, False, infun, 2)))
            elif k == "return" and r.random() < 0.3: out.append(("if", self.g.expr(d, sc), [("return", self.g.expr(d, sc))], []))
            elif k == "local":
                x = r.choice([x for x in INTS if sc.get(x) in ("env", "loc", "lam", "params", None)])
                if sc.get(x) == "lam": continue
                out.append(("local", x, self.g.expr(d, sc))); sc[x] = "loc"
            elif k == "del" and loc and not self.defs:
                x = r.choice(loc); out.append(("del", x))
                if x in self.envnames: sc[x] = "env"
                else: sc.pop(x)
            elif k == "def":
                f, p = r.choice(FUNS), r.choice(INTS)
                if f in sc: continue
                inner = {**{k: ("lam" if v == "loc" else v) for k, v in sc.items()}, p: "lam"}
                dflt = self.g.expr(d, sc) if r.random() < 0.5 else None
                b = self.block(max(0, d - 1), inner, r.random() < 0.5, True, 2)
                out.append(("def", f, p, b + [("return", self.g.expr(d, self.last))], dflt)); sc[f] = "fun loc"; self.defs += 1
        self.last = sc
        return out

def stmts(b, ind):
    if not b: return " " * ind + "pass\n"
    o = ""
    for s in b:
        k, I = s[0], " " * ind
        if k == "expr": o += f"{I}{show(s[1])}\n"
        elif k == "set": o += f"{I}({s[1]} {s[3]} ({show(s[2])}))\n"
        elif k == "if": o += f"{I}if {show(s[1])} % 2:\n{stmts(s[2], ind + 1)}{I}else:\n{stmts(s[3], ind + 1)}"
        elif k == "for": o += f"{I}for _ in range({s[1]}):\n{stmts(s[2], ind + 1)}"
        elif k == "return": o += f"{I}return {show(s[1])}\n"
        elif k == "local": o += f"{I}{s[1]} = {show(s[2])}\n"
        elif k == "del": o += f"{I}del {s[1]}\n"
        elif k == "def": o += f"{I}def {s[1]}({s[2]}{'=' + show(s[4]) if s[4] else ''}):\n{stmts(s[3], ind + 1)}"
    return o

class BodyInterp(Interp):
    def run(self, b, env, loc, base):
        """Executes; gives the environment in force after the block. `loc` maps the current local variables to their cells."""
        for s in b:
            k = s[0]
            if k == "expr": self.ev(s[1], env)
            elif k == "set": env[s[1]][0] = self.ev(s[2], env)
            elif k == "if": self.run(s[2] if self.ev(s[1], env) % 2 else s[3], env, loc, base)
            elif k == "for":
                for _ in range(s[1]): self.run(s[2], env, loc, base)
            elif k == "return":
                e = Ret(); e.value = self.ev(s[1], env); raise e
            elif k == "local":
                v = self.ev(s[2], env)
                if s[1] not in loc: loc[s[1]] = [None]; env = {**env, s[1]: loc[s[1]]}
                loc[s[1]][0] = v
            elif k == "del":
                del loc[s[1]]; env = dict(env)
                if s[1] in base: env[s[1]] = base[s[1]]
                else: env.pop(s[1])
            elif k == "def":
                cell = loc.setdefault(s[1], [None]); env = {**env, s[1]: cell}
                here = env
                dv = [self.ev(s[4], env)] if s[4] else []
                def f(*a, s=s, here=here, dv=dv):
                    try: self.run(s[3], {**here, s[2]: [(list(a) or dv)[0]]}, {}, here)
                    except Ret as r: return r.value
                cell[0] = f
        return env

@section(quick=1500, thorough=30000, deadline=200, require={"programs": 700, "events": 1500, "calls": 700, "again": 300})
def decorators(ctx, rng):
    """@dlet and friends: the environment lives as long as the function; @blet: it is run at once."""
    g = Gen(rng)
    deco = rng.choice(["dlet", "dlet", "dletseq", "dletrec", "dletrec", "blet", "bletseq", "bletrec"])
    sc = {x: "glob" for x in GLOB}
    mode = deco[1:]
    e = g.let(2, sc, False)
    for _ in range(200):
        if e[0] == mode: break
        e = g.let(2, sc, False)
    else: return
    bs, style = e[1], e[4]
    if style == "bare": style = ":="
    names = {x: "fun env" if x in FUNS else "env" for x, _ in bs}
    par = rng.choice(INTS + ["n"]) if deco[0] == "d" else None
    if mode == "letseq" and par in names: return   # see dletseq_parameter
    inner = {**sc, **names}
    if par and par != "n": inner[par] = "lam"
    bd = Body(g, rng); bd.envnames = {x for x in names if x != par}
    body = bd.block(rng.randrange(1, 3), inner, True, True, rng.randrange(2, 6))
    body.append(("return", ("log", g.id(), g.expr(2, bd.last))))
    show_let = show((mode, bs, ("one", ("num", 0)), "sub", style))
    binds = show_let[len(mode) + 1:-len("][(0)]")]
    src = HEAD + f"@{deco}[{binds}]\ndef main({par or ''}):\n{stmts(body, 1)}"
    if rng.random() < 0.4: src = HEAD + f"@{deco}({binds})\ndef main({par or ''}):\n{stmts(body, 1)}"
    if len(src) > 6000: return
    it = BodyInterp()
    def reference():
        env = {x: [v] for x, v in GLOB.items()}
        if mode == "let": env = {**env, **{x: [it.ev(v, env)] for x, v in bs}}
        elif mode == "letrec":
            env = {**env, **{x: [None] for x, _ in bs}}
            for x, v in bs: env[x][0] = it.ev(v, env)
        else:
            seq = env
            def call(*a):
                env = dict(seq)
                for x, v in bs: env = {**env, x: [it.ev(v, env)]}
                return call2(env, *a)
        def call2(env, *a):
            e2 = {**env, **({par: [a[0]]} if par else {})}
            loc = {par: e2[par]} if par else {}
            try: it.run(body, e2, loc, {k: v for k, v in e2.items()})
            except Ret as r: return r.value
        if mode != "letseq": call = lambda *a: call2(env, *a)
        return call
    args = [rng.randrange(5) for _ in range(1 if mode == "letseq" else 3)]
    want = []
    try:
        r = res(reference)
        if r[0] != "ok": return
        if deco[0] == "d" and mode == "letseq":
            # when the values of the bindings are computed is not specified
            if any(x[0] not in ("num", "lambda") for _, x in bs): return
        f = r[1]
        want = [res(f)] if par is None else [res(f, a) for a in args]
    except OverflowError: return
    if par is None and want[0][0] != "ok": return
    ctx.note(src=src)
    p = Program(src, **GLOB)
    ctx.event("programs"); ctx.event("calls", len(want))
    got = [("ok", p.main)] if par is None else [res(p.main, a) for a in args]
    ctx.event("again", len(want) > 1); ctx.event("events", len(it.trace))
    ctx.check(got == want, "wrong value", got=got, want=want)
    ctx.check(p.trace == it.trace, "wrong side effects, or in the wrong order", got=p.trace[:40], want=it.trace[:40])
    ctx.check({x: getattr(p, x) for x in GLOB} == GLOB, "a global variable was changed")
    ctx.seen(src)

@section(quick=3, require={"calls": 1})
def dletseq_parameter(ctx, rng):
    p = Program(HEAD + "@dletseq[c := 1]\ndef main(c):\n    return c\n")
    ctx.event("calls")
    ctx.check(p.main(4) == 4, "a formal parameter does not shadow a dletseq binding of the same name", key="dletseq-parameter-shadowing")

# -- wide forms: many bindings, many items ------------------------------------------------------------
@section(quick=300, thorough=5000, require={"wide let": 60, "wide do": 60, "assignments": 100, "deletions": 10})
def wide(ctx, rng):
    n = rng.randrange(1, 15)
    k, trace = [0], []
    if rng.random() < 0.5:
        kind = rng.choice(["let", "letseq", "letrec"])
        names = [f"v{i}" for i in range(n)]
        outer = {"a": 3, "b": 4}; env, binds = dict(outer), []
        for i, x in enumerate(names):
            if kind == "letseq" and i and rng.random() < 0.3: x = names[i] = rng.choice(names[:i])
            vis = env if kind != "let" else outer
            y = rng.choice(sorted(vis))
            t = 100 + i; v = vis[y] * 2 + i
            env[x] = v; trace.append((t, v)); binds.append((x, f"L({t}, {y} * 2 + {i})"))
        body = []
        for j in range(rng.randrange(1, 8)):
            y = rng.choice(sorted(env)); t = 200 + j
            if rng.random() < 0.4 and names:
                x = rng.choice(names); v = env[y] + j; env[x] = v; trace.append((t, v)); body.append(f"{x} << L({t}, {y} + {j})"); last = v; ctx.event("assignments")
            else: last = (env[y], j); trace.append((t, last)); body.append(f"L({t}, ({y}, {j}))")
        b = f"[{', '.join(body)}]" if len(body) > 1 else body[0]
        style = rng.randrange(4)
        if style == 0: code = f"{kind}[{', '.join(f'{x} << {e}' for x, e in binds)}][{b}]"
        elif style == 1: code = f"{kind}[[{', '.join(f'{x} << {e}' for x, e in binds)}] in {b}]"
        elif style == 2: code = f"{kind}[{b}, where[{', '.join(f'{x} << {e}' for x, e in binds)}]]"
        else: code = f"{kind}[{', '.join(f'{x} := {e}' for x, e in binds)}][{b}]"
        if n > 4: ctx.event("wide let")
    else:
        env, items, vals, loc = {"a": 3, "b": 4}, [], [], {}
        for i in range(n + 1):
            c = rng.randrange(6); vis = {**env, **loc}; y = rng.choice(sorted(vis)); t = 100 + i
            if c < 2: x = f"w{i}"; v = vis[y] + i; loc[x] = v; items.append(f"local[{x} << L({t}, {y} + {i})]"); trace.append((t, v)); vals.append(v)
            elif c == 2 and loc: x = rng.choice(sorted(loc)); v = vis[y] * 2; loc[x] = v; items.append(f"{x} << L({t}, {y} * 2)"); trace.append((t, v)); vals.append(v); ctx.event("assignments")
            elif c == 3 and loc and rng.random() < 0.5: x = rng.choice(sorted(loc)); v = loc.pop(x); items.append(f"delete[{x}]"); vals.append(v); ctx.event("deletions")
            else: v = (vis[y], i); items.append(f"L({t}, ({y}, {i}))"); trace.append((t, v)); vals.append(v)
        kind = rng.choice(["do", "do0"]); last = vals[-1] if kind == "do" else vals[0]
        code = f"{kind}[{', '.join(items)}]"
        if n > 4: ctx.event("wide do")
    src = HEAD + f"def main(): return {code}\n"
    ctx.note(src=src)
    p = Program(src, **GLOB); got = p.main()
    ctx.check(got == last, "wrong value", src=src, got=got, expected=last)
    ctx.check(p.trace == trace, "wrong order or values of evaluations", src=src, got=p.trace, expected=trace)
    ctx.seen(kind, n)
