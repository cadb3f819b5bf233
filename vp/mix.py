"""Generator of programs that use the expression macros and the special forms of the block macros, each with its plain Python
equivalent. Variables of let, do, lambda and envified functions live in explicit boxes in the equivalent."""

class Box:
    def __init__(self, **k): self.__dict__.update(k)
    def set_(self, k, v): self.__dict__[k] = v; return v

def last_(*a): return a[-1]
HELPERS = dict(Box=Box, last_=last_)
MACROS = ("from unpythonic.syntax import macros, let, letseq, letrec, do, do0, local, delete, where, cond, aif, it, fn, multilambda, namedlambda, quicklambda, envify, "
          "autoreturn, tco, autocurry, lazify, autoref, prefix\n")

class Mix:
    def __init__(self, rng, feats):
        self.r, self.k, self.ft, self.used = rng, 0, set(feats), set()
        self.funs = []          # (name, arity, index of an unused parameter or None)
        self.nocall = 0
    def id(self): self.k += 1; return self.k
    def name(self, p): return f"{p}{self.id()}"
    def has(self, *f): return bool(self.ft & set(f))
    @property
    def trace(self): return not self.has("lazify")

    # ns: {name in the program: (expression in the equivalent, box name or None)}; it: the expression for `it`
    def leaf(self, ns, it):
        r = self.r
        if it and r.random() < 0.35: self.used.add("it"); return "it", it
        if ns and r.random() < 0.8: n = r.choice(list(ns)); return n, ns[n][0]
        c = str(r.randrange(9)); return c, c
    def many(self, ns, d, it, least=0):
        """A part in brackets: an implicit do."""
        r = self.r
        out, ns = [], dict(ns)
        B = self.name("B"); mine = False
        for _ in range(r.randrange(least, 3)):
            if r.random() < 0.45:
                x = self.name("y"); e = self.e(ns, d - 1, it)
                out.append((f"local[{x} {'<<' if r.random() < 0.5 else ':='} {e[0]}]", f"{B}.set_('{x}', {e[1]})")); ns[x] = (f"{B}.{x}", B); mine = True
            else: out.append(self.e(ns, d - 1, it))
        out.append(self.e(ns, d, it))
        self.used.add("implicit do")
        ref = f"last_({', '.join(x[1] for x in out)})"
        if mine: ref = f"(lambda {B}: {ref})(Box())"
        return f"[{', '.join(x[0] for x in out)}]", ref
    def part(self, ns, d, it):
        return self.many(ns, d, it) if self.r.random() < 0.25 else self.e(ns, d, it)
    def call(self, f, args):
        r = self.r
        (s, a) = f, [x[0] for x in args]
        ref = f"{f}({', '.join(x[1] for x in args)})"
        if self.has("prefix") and r.random() < 0.6: self.used.add("prefix call"); return f"({', '.join([s] + a)}{',' if not a else ''})", ref
        if self.has("autocurry") and len(a) > 1 and r.random() < 0.5:
            c = r.randrange(1, len(a)); self.used.add("partial application")
            return f"{s}({', '.join(a[:c])})({', '.join(a[c:])})", ref
        return f"{s}({', '.join(a)})", ref
    def log(self, ns, d, it):
        i = self.id(); e = self.e(ns, d - 1, it)
        return (f"(L, {i}, {e[0]})" if self.has("prefix") and self.r.random() < 0.5 else f"L({i}, {e[0]})"), f"L({i}, {e[1]})"
    def e(self, ns, d, it=None):
        r = self.r
        if d <= 0: return self.leaf(ns, it)
        ks = ["leaf", "arith", "arith", "if", "call", "call", "cond", "aif", "let", "lam", "fn", "do", "sub", "cmp"] + ["log"] * 2 * self.trace
        asg = [n for n in ns if ns[n][1]]
        if asg and not self.has("lazify"): ks += ["set", "set"]
        if self.has("envify", "multilambda"): ks += ["lam"]
        k = r.choice(ks)
        E = lambda n=1: self.e(ns, d - n, it)
        if k == "log": return self.log(ns, d, it)
        if k == "arith": a, b, op = E(), E(), r.choice("+-*"); return tuple(f"(({a[j]} {op} {b[j]}) % 97)" for j in (0, 1))
        if k == "cmp": a, b, c = E(), E(), E(); return tuple(f"({a[j]} < {b[j]} or {c[j]})" for j in (0, 1))
        if k == "if": a, b, c = E(), E(), E(); return tuple(f"({a[j]} if {b[j]} else {c[j]})" for j in (0, 1))
        if k == "sub": a, b = E(), E(); i = r.randrange(2); return tuple(f"[{a[j]}, {b[j]}][{i}]" for j in (0, 1))
        if k == "set":
            n = r.choice(asg); v = E(); self.used.add("assignment")
            return f"({n} {':=' if self.has('autoref') else r.choice([':=', '<<'])} {v[0]})", f"{ns[n][1]}.set_('{n}', {v[1]})"
        if k == "call" and self.funs and not self.nocall:
            f, n, un = r.choice(self.funs)
            args = [self.e(ns, d - 2, it) for _ in range(n)]
            if un is not None and self.has("lazify"): args[un] = (f"fail({self.id()})", "None"); self.used.add("unused argument")
            return self.call(f, args)
        if k == "cond":
            n = r.randrange(1, 4); self.used.add("cond")
            parts = [(self.part(ns, d - 1, it), self.part(ns, d - 1, it)) for _ in range(n)]
            last = self.part(ns, d - 1, it)
            ref = last[1]
            for t, th in reversed(parts): ref = f"({th[1]} if {t[1]} else {ref})"
            return f"cond[{', '.join(x[0] for p in parts for x in p)}, {last[0]}]", ref
        if k == "aif":
            t = self.part(ns, d - 1, it); i = self.name("it"); self.used.add("aif")
            a, b = self.part(ns, d - 1, i), self.part(ns, d - 1, i)
            return f"aif[{t[0]}, {a[0]}, {b[0]}]", f"(lambda {i}: {a[1]} if {i} else {b[1]})({t[1]})"
        if k == "let":
            xs = [self.name("x") for _ in range(r.randrange(1, 3))]; B = self.name("B")
            vs = [self.e(ns, d - 1, it) for _ in xs]
            b = self.part({**ns, **{x: (f"{B}.{x}", B) for x in xs}}, d - 1, it)
            bs = ", ".join(f"{x} << {v[0]}" for x, v in zip(xs, vs))
            src = r.choice(["let[{bs}][{b}]", "let[[{bs}] in {b}]", "let[{b}, where[{bs}]]"]).format(bs=bs, b=b[0])
            return src, f"(lambda {B}: {b[1]})(Box({', '.join(f'{x}={v[1]}' for x, v in zip(xs, vs))}))"
        if k == "do":
            b = self.many(ns, d - 1, it, 1)
            return f"do{b[0]}", b[1]
        if k == "lam":
            n = r.randrange(1, 3); args = [self.e(ns, d - 1, it) for _ in range(n)]
            l = self.lam(ns, n, d - 1, it)
            return tuple(f"{l[j]}({', '.join(a[j] for a in args)})" for j in (0, 1)) if not self.has("prefix") or r.random() < 0.5 else (f"({', '.join([l[0]] + [a[0] for a in args])})", f"{l[1]}({', '.join(a[1] for a in args)})")
        if k == "fn":
            l, n = self.fnl(ns, d - 1, it); self.used.add("fn")
            args = [self.e(ns, d - 1, it) for _ in range(n)]
            if not n and self.has("autocurry"): return self.leaf(ns, it)
            return f"{l[0]}({', '.join(a[0] for a in args)})", f"{l[1]}({', '.join(a[1] for a in args)})"
        return self.leaf(ns, it)
    def lam(self, ns, n, d, it):
        """A lambda of n parameters."""
        r = self.r
        ps = [self.name("p") for _ in range(n)]
        if self.has("envify"):
            B = self.name("B"); inner = {**ns, **{p: (f"{B}.{p}", B) for p in ps}}; self.used.add("envified parameter")
        else: inner = {**ns, **{p: (p, None) for p in ps}}
        if self.has("multilambda") and r.random() < 0.5: b = self.many(inner, d, it); self.used.add("multilambda")
        elif self.has("multilambda") and r.random() < 0.15:
            a = self.e(inner, d, it); c = self.e(inner, d, it); self.used.add("literal list")
            return f"(lambda *a_: sum((lambda {', '.join(ps)}: [[{a[0]}, {c[0]}]])(*a_)) % 97)" if False else (f"(lambda {', '.join(ps)}: [sum([{a[0]}, {c[0]}])])", self.box(ps, inner, f"sum([{a[1]}, {c[1]}])", ns))
        else: b = self.e(inner, d, it)
        return f"(lambda {', '.join(ps)}: {b[0]})", self.box(ps, inner, b[1], ns)
    def box(self, ps, inner, body, ns):
        if not self.has("envify"): return f"(lambda {', '.join(ps)}: {body})"
        B = inner[ps[0]][1]
        return f"(lambda {', '.join(ps)}: (lambda {B}: {body})(Box({', '.join(f'{p}={p}' for p in ps)})))"
    def fnl(self, ns, d, it):
        us = []
        def go(d):
            r = self.r
            k = r.choice(["_", "_", "leaf", "arith", "arith", "log", "call", "sub", "nested"]) if d > 0 else r.choice(["_", "leaf"])
            if k == "_": u = self.name("u"); us.append(u); return "_", u
            if k == "arith": a, b = go(d - 1), go(d - 1); op = r.choice("+-*"); return tuple(f"(({a[j]} {op} {b[j]}) % 97)" for j in (0, 1))
            if k == "log" and self.trace: i = self.id(); a = go(d - 1); return tuple(f"L({i}, {a[j]})" for j in (0, 1))
            if k == "sub": a, b = go(d - 1), go(d - 1); i = r.randrange(2); return tuple(f"[{a[j]}, {b[j]}][{i}]" for j in (0, 1))
            if k == "nested" and not self.has("autocurry"): l, n = self.fnl(ns, d - 1, it); args = [go(d - 1) for _ in range(n)]; self.used.add("nested fn"); return tuple(f"{l[j]}({', '.join(a[j] for a in args)})" for j in (0, 1))
            if k == "call" and self.funs and not self.nocall and not self.has("lazify"):
                f, n, _ = r.choice(self.funs); args = [go(d - 2) for _ in range(n)]
                return tuple(f"{f}({', '.join(a[j] for a in args)})" for j in (0, 1))
            return self.leaf(ns, it)
        b = go(d)
        return (f"fn[{b[0]}]", f"(lambda {', '.join(us)}: {b[1]})"), len(us)

    # statements: lists of lines for the program and the equivalent
    def ret(self, e):
        if self.has("autoreturn") and self.r.random() < 0.7: self.used.add("autoreturn"); return e[0], f"return {e[1]}"
        return f"return {e[0]}", f"return {e[1]}"
    def body(self, ns, d, n, ind):
        r, sp = self.r, "    " * ind
        out, ns = [], dict(ns)
        for _ in range(n):
            k = r.choice(["assign", "log", "if"])
            if k == "assign" or k == "log" and not self.trace:
                x = self.name("w"); e = self.e(ns, d)
                out.append((f"{sp}{x} = {e[0]}", f"{sp}{x} = {e[1]}")); ns[x] = (x, None)
            elif k == "log": e = self.log(ns, d, None); out.append((sp + e[0], sp + e[1]))
            else:
                c, e = self.e(ns, d), self.e(ns, d)
                out += [(f"{sp}if {c[0]}:", f"{sp}if {c[1]}:"), (f"{sp}    return {e[0]}", f"{sp}    return {e[1]}")]
        if r.random() < 0.3 and n:
            c, a, b = self.e(ns, d), self.e(ns, d), self.e(ns, d)
            out.append((f"{sp}if {c[0]}:", f"{sp}if {c[1]}:")); out.append(tuple(f"{sp}    {x}" for x in self.ret(a)))
            out.append((f"{sp}else:", f"{sp}else:")); out.append(tuple(f"{sp}    {x}" for x in self.ret(b)))
        else: out.append(tuple(sp + x for x in self.ret(self.e(ns, d))))
        return out
    def fun(self, ns, d):
        """A top level function: a def or a lambda."""
        r = self.r
        n = r.randrange(1, 4); f = self.name("f")
        un = r.randrange(n) if r.random() < 0.5 and self.has("lazify") else None
        ps = [self.name("p") for _ in range(n)]
        vis = [p for i, p in enumerate(ps) if i != un]
        if r.random() < 0.35:
            l = self.lam(ns, n, d, None) if un is None else None
            if l is None: b = self.e({**ns, **{p: (p, None) for p in vis}}, d); l = tuple(f"lambda {', '.join(ps)}: {b[j]}" for j in (0, 1)) if not self.has("envify") else None
            if l:
                self.funs.append((f, n, un))
                return [(f"{f} = {l[0]}", f"{f} = {l[1]}")], f
        head = f"def {f}({', '.join(ps)}):"
        if self.has("envify"):
            B = self.name("B"); inner = {**ns, **{p: (f"{B}.{p}", B) for p in vis}}
            lines = [(head, head)] + [("    0" if False else None, f"    {B} = Box({', '.join(f'{p}={p}' for p in ps)})")]
        else: inner = {**ns, **{p: (p, None) for p in vis}}; lines = [(head, head)]
        lines += self.body(inner, d, r.randrange(0, 3), 1)
        self.funs.append((f, n, un))
        return lines, None
    def loop(self):
        """Mutually tail recursive functions."""
        a, b = self.name("f"), self.name("f")
        ns = {"n_": ("n_", None), "acc": ("acc", None)}
        cutoff = self.ft - {"envify"}
        save, self.ft = self.ft, cutoff
        self.nocall += 1
        out = []
        for f, g in ((a, b), (b, a)):
            e = self.e(ns, 1)
            self.ft = cutoff - {"autocurry"}
            t = self.call(g, [("n_ - 1", "n_ - 1"), (f"(acc + {e[0]}) % 97", f"(acc + {e[1]}) % 97")])
            self.ft = cutoff
            src = self.r.choice([f"cond[n_ == 0 or acc < 0, acc, {t[0]}]", f"acc if n_ == 0 or acc < 0 else {t[0]}", f"let[x_ << n_][acc if x_ == 0 or acc < 0 else {t[0]}]"])
            if "prefix" in save and src.startswith("acc if") and False: pass
            out += [(f"def {f}(n_, acc):", f"def {f}(n_, acc):")]
            rs = self.ret((src, f"acc if n_ == 0 else {t[1]}"))
            out.append(tuple("    " + x for x in rs))
        self.nocall -= 1
        self.ft = save; self.used.add("loop")
        return out, a
    def program(self, ns, depth=2, nfuns=2, main=("v0", "v1")):
        lines, names = [], []
        for _ in range(nfuns):
            l, nm = self.fun(ns, depth); lines += l
            if nm: names.append(nm)
        lp = None
        if self.has("tco") and self.r.random() < 0.5: l, lp = self.loop(); lines += l
        head = f"def main({', '.join(main)}):"
        if self.has("envify"):
            inner = {**ns, **{p: (f"B0.{p}", "B0") for p in main}}
            lines += [(head, head), (None, f"    B0 = Box({', '.join(f'{p}={p}' for p in main)})")]
        else: inner = {**ns, **{p: (p, None) for p in main}}; lines += [(head, head)]
        lines += self.body(inner, depth, self.r.randrange(0, 3), 1)
        return [x for x, _ in lines if x is not None], [y for _, y in lines if y is not None], names, lp
