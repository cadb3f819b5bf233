"""A small expression language with lexical scope, used to generate macro programs: an expression is shown as source text using the
let and do macros of unpythonic, and evaluated by an interpreter with explicit cells (the reference)."""

class Boom(Exception): pass
INTS = ["a", "b", "c", "d"]
FUNS = ["f", "g", "h"]

class Gen:
    """sc maps a name to its kind: 'env' (bound by let or do), 'lam' (parameter), 'comp' (comprehension), 'glob'; functions have kinds with prefix 'fun '."""
    def __init__(self, rng, allow=("let", "do"), fail=0.02):
        self.rng, self.n, self.allow, self.pfail, self.nocomp = rng, 0, allow, fail, 0
    def id(self): self.n += 1; return self.n
    def ints(self, sc): return [x for x in INTS if x in sc]
    def expr(self, d, sc, incomp=False):
        r = self.rng
        fs = [f for f in FUNS if f in sc]
        asg = [x for x in INTS if sc.get(x) == "env"]
        ks = ["num", "var", "var", "log"]
        if d: ks += ["add", "if", "lamcall", "and"] + ["comp"] * (not self.nocomp) + list(self.allow) * 3 + ["log"] * 2
        if fs: ks += ["call"] * 2
        if asg: ks += ["assign"] * 3
        k = r.choice(ks)
        if r.random() < self.pfail: return ("fail", self.id())
        if k == "num": return ("num", r.randrange(10))
        if k == "var": return ("var", r.choice(self.ints(sc))) if self.ints(sc) else ("num", 1)
        if k == "log": return ("log", self.id(), self.expr(max(0, d - 1), sc, incomp) if d else ("num", r.randrange(10)))
        if k == "call": return ("call", r.choice(fs), self.expr(d - 1, sc, incomp) if d else ("num", r.randrange(5)))
        if k == "assign": return ("assign", r.choice(asg), self.expr(d - 1, sc, incomp) if d else ("num", r.randrange(10)), r.choice([":=", ":=", "<<"]))
        if k == "add": return ("add", self.expr(d - 1, sc, incomp), self.expr(d - 1, sc, incomp))
        if k == "and": return ("and", self.expr(d - 1, sc, incomp), self.expr(d - 1, sc, incomp))
        if k == "if": return ("if", self.expr(d - 1, sc, incomp), self.expr(d - 1, sc, incomp), self.expr(d - 1, sc, incomp))
        if k == "lamcall":
            x = r.choice(INTS)
            how = r.choice(["arg", "default", "kw", "kwonly", "star", "posonly", "dstar"])
            return ("lamcall", x, self.expr(d - 1, {**sc, x: "lam"}, incomp), self.expr(d - 1, sc, incomp), how)
        if k == "comp":
            # CPython 3.12 miscompiles some comprehensions whose variable is a global or closure variable of the surrounding function
            xs = [x for x in INTS[2:] if sc.get(x) in ("env", None)]
            if not xs: return ("num", 3)
            x = r.choice(xs)
            inner = {**sc, x: "comp"}
            self.nocomp += 1   # CPython 3.12 miscompiles some comprehensions inside the iterable of another one
            osc = sc if sc.get(x) == "env" else {k: v for k, v in sc.items() if k != x}
            its = [self.expr(d - 1, osc, True) for _ in range(r.randrange(1, 3))]
            self.nocomp -= 1
            return ("comp", x, its, self.expr(d - 1, inner, True),
                    self.expr(0, inner, True) if r.random() < 0.3 else None, r.choice(["list", "gen", "set", "dict"]))
        if k == "let": return self.let(d, sc, incomp)
        return self.do(d, sc, incomp)
    def fun(self, d, sc, rec=()):
        """A function of one argument; may call those in `rec` with a smaller argument."""
        r = self.rng
        p = r.choice(INTS)
        body_sc = {k: v for k, v in sc.items()}
        body_sc[p] = "lam"
        for f in rec: body_sc.pop(f, None)
        # functions visible here may be called freely only if they were defined before (so the calls end)
        base = self.expr(max(0, d - 1), body_sc)
        if rec and r.random() < 0.8:
            return ("lambda", p, ("recif", p, ("add", ("reccall", r.choice(list(rec)), p), base), self.expr(0, body_sc)))
        return ("lambda", p, base)
    def body(self, d, sc, incomp):
        """Body of a let: one expression, or several in an implicit do."""
        r = self.rng
        if r.random() < 0.55: return ("one", self.expr(d, sc, incomp))
        return ("many", self.items(d, sc, incomp))
    def let(self, d, sc, incomp):
        r = self.rng
        mode = r.choice(["let", "letseq", "letrec"])
        n = r.randrange(1, 4)
        bs, cur = [], dict(sc)
        names = []
        for _ in range(n):
            pool = INTS + FUNS[:2]
            x = r.choice(pool)
            if mode != "letseq" and x in names: continue
            names.append(x)
        if mode == "letrec":
            fs = [x for x in names if x in FUNS]
            # while the bindings are evaluated, only those above may be used (except in a function body)
            cur = {k: v for k, v in sc.items() if k not in names}
            for x in names:
                if x in FUNS: e = self.fun(d - 1, cur, fs)
                else: e = self.expr(d - 1, {k: v for k, v in cur.items() if k not in fs}, incomp)
                bs.append((x, e))
                cur = {**cur, x: "fun env" if x in FUNS else "env"}
            inner = {**sc, **{x: "fun env" if x in FUNS else "env" for x in names}}
        else:
            for x in names:
                s = cur if mode == "letseq" else sc
                e = self.fun(d - 1, s) if x in FUNS else self.expr(d - 1, s, incomp)
                bs.append((x, e))
                cur = {**cur, x: "fun env" if x in FUNS else "env"}
            inner = cur
        return (mode, bs, self.body(d - 1, inner, incomp), r.choice(["sub", "call", "in", "inp", "where", "wherep"]), r.choice([":=", ":=", "<<", "[]", "()"] + (["bare"] if len(bs) == 1 else [])))
    def items(self, d, sc, incomp):
        r = self.rng
        out, cur, loc = [], dict(sc), set()
        order = []   # local definitions, in order
        outer = dict(sc)
        for i in range(r.randrange(1, 5)):
            k = r.choice(["expr", "expr", "local", "local", "localfun", "delete"])
            if k == "local":
                x = r.choice(INTS)
                if x in loc: k = "expr"
                else:
                    # the right-hand side sees the previous bindings
                    # (an assignment to x in there is not generated: it would be ambiguous which x is meant)
                    out.append(("local", x, self.expr(max(0, d - 1), {**cur, x: "outer"} if x in cur else cur, incomp), r.choice([":=", "<<"])))
                    cur[x] = "env"; loc.add(x); order.append(x)
            if k == "localfun":
                x = r.choice(FUNS)
                if x in loc: k = "expr"
                else:
                    out.append(("local", x, self.fun(max(0, d - 1), cur), r.choice([":=", "<<"])))
                    cur[x] = "fun env"; loc.add(x); order.append(x)
            if k == "delete":
                if not loc: k = "expr"
                else:
                    x = r.choice(sorted(loc)); loc.discard(x)
                    out.append(("delete", x))
                    if x in outer: cur[x] = outer[x]
                    else: cur.pop(x, None)
                    # functions that may refer to the deleted variable are no longer used
                    i = len(order) - 1 - order[::-1].index(x)
                    for y in order[i + 1:]:
                        if y in FUNS and y in loc: cur.pop(y, None)
                    order.pop(i)
            if k == "expr": out.append(("expr", self.expr(max(0, d - 1), cur, incomp)))
        out.append(("expr", self.expr(max(0, d - 1), cur, incomp)))
        return out
    def do(self, d, sc, incomp):
        its = self.items(d, sc, incomp)
        if self.rng.random() < 0.35: return ("do0", [("expr", self.expr(d - 1, sc, incomp))] + its)
        return ("do", its)

def show(e):
    k = e[0]
    if k == "num": return str(e[1])
    if k == "var": return e[1]
    if k == "fail": return f"fail({e[1]})"
    if k == "log": return f"L({e[1]}, {show(e[2])})"
    if k == "call": return f"{e[1]}({show(e[2])} % 5)"
    if k == "reccall": return f"{e[1]}({e[2]} - 1)"
    if k == "recif": return f"({show(e[2])} if {e[1]} > 0 else {show(e[3])})"
    if k == "assign": return f"({e[1]} {e[3]} {par(e[2])})"
    if k == "add": return f"({show(e[1])} + {show(e[2])})"
    if k == "and": return f"({show(e[1])} and {show(e[2])})"
    if k == "if": return f"({show(e[2])} if {show(e[1])} % 2 else {show(e[3])})"
    if k == "lambda": return f"(lambda {e[1]}: {show(e[2])})"
    if k == "lamcall":
        _, x, b, a, how = e
        if how == "arg": return f"(lambda {x}: {show(b)})({show(a)})"
        if how == "default": return f"(lambda {x}={show(a)}: {show(b)})()"
        if how == "kw": return f"(lambda {x}: {show(b)})({x}={show(a)})"
        if how == "kwonly": return f"(lambda *, {x}: {show(b)})({x}={show(a)})"
        if how == "posonly": return f"(lambda {x}, /: {show(b)})({show(a)})"
        if how == "dstar": return f"(lambda **{x}: (lambda {x}: {show(b)})({x}['k']))(k={show(a)})"
        return f"(lambda *{x}: (lambda {x}: {show(b)})({x}[0]))({show(a)})"
    if k == "comp":
        _, x, its, b, cond, how = e
        seq = "(" + ", ".join(map(show, its)) + ",)"
        if len(its) == 2 and how in ("list", "set"):   # a target that is a tuple, or a second generator
            if how == "list": x, seq = f"({x}, _)", "(" + ", ".join(f"({show(i)}, 0)" for i in its) + ",)"
            else: x = f"_ in {seq} for {x}"; seq = "(_,)"
        c = f" if {show(cond)}" if cond is not None else ""
        if how == "list": return f"sum([{show(b)} for {x} in {seq}{c}])"
        if how == "set": return f"sum({{{show(b)} for {x} in {seq}{c}}})"
        if how == "dict": return f"sum({{0: {show(b)} for {x} in {seq}{c}}}.values())"
        return f"sum({show(b)} for {x} in {seq}{c})"
    if k in ("let", "letseq", "letrec"):
        _, bs, body, form, style = e
        if form == "call" and style == ":=": pass
        def b(x, v):
            v = par(v)
            return {":=": f"{x} := {v}", "<<": f"{x} << {v}", "[]": f"[{x}, {v}]", "()": f"({x}, {v})", "bare": f"{x}, {v}"}[style]
        t = ", ".join(b(x, v) for x, v in bs)
        bd = show(body[1]) if body[0] == "one" else "[" + ", ".join(map(item, body[1])) + "]"
        if body[0] == "one": bd = f"({bd})"
        if form == "sub": return f"{k}[{t}][{bd}]"
        if form == "call": return f"{k}({t})[{bd}]"
        if form == "in": return f"{k}[[{t}] in {bd}]"
        if form == "inp": return f"{k}[({t}{',' if len(bs) == 1 and style != 'bare' else ''}) in {bd}]"
        if form == "where": return f"{k}[{bd}, where[{t}]]"
        return f"{k}[{bd}, where({t})]"
    if k == "do": return f"do[{', '.join(map(item, e[1]))}{',' if len(e[1]) == 1 else ''}]"
    if k == "do0": return f"do0[{', '.join(map(item, e[1]))}]"
    raise ValueError(k)

def par(e):
    s = show(e)
    return s if s.startswith("(") and s.endswith(")") and e[0] in ("add", "and", "if", "assign", "lambda", "recif") else f"({s})"

def item(i):
    if i[0] == "local": return f"local[{i[1]} {i[3]} {par(i[2])}]"
    if i[0] == "delete": return f"delete[{i[1]}]"
    return show(i[1])

class Interp:
    def __init__(self, limit=3000): self.trace, self.limit = [], limit
    def ev(self, e, env):
        k = e[0]
        self.limit -= 1
        if self.limit < 0: raise OverflowError
        if k == "num": return e[1]
        if k == "var": return env[e[1]][0]
        if k == "fail": self.trace.append(("fail", e[1])); raise Boom(e[1])
        if k == "log":
            v = self.ev(e[2], env); self.trace.append((e[1], v)); return v
        if k == "call":
            f = env[e[1]][0]   # the function is looked up before its argument is evaluated
            return f(self.ev(e[2], env) % 5)
        if k == "add": return self.ev(e[1], env) + self.ev(e[2], env)
        if k == "and": return self.ev(e[1], env) and self.ev(e[2], env)
        if k == "if": return self.ev(e[2], env) if self.ev(e[1], env) % 2 else self.ev(e[3], env)
        if k == "recif": return self.ev(e[2], env) if env[e[1]][0] > 0 else self.ev(e[3], env)
        if k == "reccall":
            f = env[e[1]][0]; return f(env[e[2]][0] - 1)
        if k == "lambda": return lambda x: self.ev(e[2], {**env, e[1]: [x]})
        if k == "assign":
            v = self.ev(e[2], env); env[e[1]][0] = v; return v
        if k == "lamcall":
            v = self.ev(e[3], env); return self.ev(e[2], {**env, e[1]: [v]})
        if k == "comp":
            _, x, its, b, cond, how = e
            vs = [self.ev(i, env) for i in its]
            cell = [None]; inner = {**env, x: cell}
            out = []
            for v in vs:
                cell[0] = v
                if cond is None or self.ev(cond, inner): out.append(self.ev(b, inner))
            return sum(set(out)) if how == "set" else sum(out[-1:]) if how == "dict" else sum(out)
        if k == "let":
            vs = [self.ev(v, env) for x, v in e[1]]
            return self.body(e[2], {**env, **{x: [v] for (x, _), v in zip(e[1], vs)}})
        if k == "letseq":
            for x, v in e[1]: env = {**env, x: [self.ev(v, env)]}
            return self.body(e[2], env)
        if k == "letrec":
            env = {**env, **{x: [None] for x, _ in e[1]}}
            for x, v in e[1]: env[x][0] = self.ev(v, env)
            return self.body(e[2], env)
        if k == "do": return self.items(e[1], env)[-1]
        if k == "do0": return self.items(e[1], env)[0]
        raise ValueError(k)
    def body(self, b, env): return self.ev(b[1], env) if b[0] == "one" else self.items(b[1], env)[-1]
    def items(self, its, env):
        outer, vals = env, []
        for i in its:
            if i[0] == "local":
                v = self.ev(i[2], env); env = {**env, i[1]: [v]}
            elif i[0] == "delete":
                v = env[i[1]][0]
                env = dict(env)
                if i[1] in outer: env[i[1]] = outer[i[1]]
                else: env.pop(i[1])
            else: v = self.ev(i[1], env)
            vals.append(v)
        return vals
