"""C36: cond, aif, lambda tools, autoref, dbg, nb against plain equivalents."""
import io, contextlib, re
from vp.core import section
from vp.macro import Program, res
from vp.mix import Mix, HELPERS, MACROS

def indent(lines): return "\n".join("    " + l for l in lines) + "\n"
class Obj: pass

def compare(ctx, head, body, ref, args, depth=None, **names):
    src, rsrc = head + body, "\n".join(ref) + "\n" if isinstance(ref, list) else ref
    try: a = Program(src, **HELPERS, **names)
    except Exception as e: ctx.violate(f"the program failed: {e!r}"[:600], src=src); return None
    b = Program(rsrc, **HELPERS, **names)
    for x in args:
        del a.trace[:], b.trace[:]
        ra, rb = res(a.main, *x), res(b.main, *x)
        if rb[0] == "exc" and rb[1] == "RecursionError": ctx.event("reference too deep"); continue
        if ra[0] == rb[0] == "exc": ra, rb = ra[:2], rb[:2]
        ctx.check(ra == rb, "result differs from that of the plain program", src=src, ref=rsrc, args=x, got=ra, expected=rb)
        ctx.check(a.trace == b.trace, "effects differ from those of the plain program", src=src, ref=rsrc, args=x, got=a.trace[:40], expected=b.trace[:40])
        ctx.event("evaluations"); ctx.seen(rb[0], min(len(b.trace), 12))
    return a

MODES = [(), ("multilambda",), ("quicklambda",), ("namedlambda",), ("envify",), ("quicklambda", "multilambda"), ("multilambda", "envify"), ("multilambda", "namedlambda"), ("envify", "namedlambda"), ("quicklambda", "multilambda", "envify", "namedlambda")]
@section(quick=900, thorough=12000, deadline=60, require={"cond": 60, "aif": 60, "fn": 60, "multilambda": 30, "envified parameter": 40, "assignment": 40, "nested fn": 5})
def programs(ctx, rng):
    mode = rng.choice(MODES)
    m = Mix(rng, mode)
    src, ref, names, _ = m.program({"c0": ("c0", None)}, depth=rng.randrange(2, 4), nfuns=rng.randrange(1, 4))
    head = MACROS + (f"with {', '.join(mode)}:\n" if mode else "if True:\n")
    if sum(map(len, ref)) > 20000: return
    p = compare(ctx, head, indent(src), ref, [(rng.randrange(5), rng.randrange(5)) for _ in range(3)], c0=rng.randrange(9))
    for u in m.used: ctx.event(u)
    ctx.seen(mode)
    if p and "namedlambda" in mode:
        for n in names: ctx.check(getattr(p.mod, n).__name__ == n, "lambda is not named after its target", name=n, got=getattr(p.mod, n).__name__, src="\n".join(src)); ctx.event("names")
    if mode == () and p:
        for n in names: ctx.check(getattr(p.mod, n).__name__ == "<lambda>", "lambda named without namedlambda", name=n); ctx.event("names")

# -- names of lambdas --------------------------------------------------------------------------
@section(quick=200, thorough=4000, require={"names": 500})
def names(ctx, rng):
    k = [0]
    expect = {}          # tag -> name; a lambda returns its tag
    def lam(name, d):
        k[0] += 1; t = k[0]
        expect[t] = name
        extra = ""
        if d > 0 and rng.random() < 0.5: extra = f", R({wrap(d - 1)})"
        dflt = f", z={lam(None, 0)}" if rng.random() < 0.15 else ""
        if dflt: return f"(lambda *a_{dflt}: ({t}, R(z){extra})[0])"
        return f"(lambda *a_{dflt}: ({t}{extra})[0])" if extra else f"(lambda *a_: {t})"
    def nm(): k[0] += 1; return f"n{k[0]}"
    def wrap(d):
        """An expression that evaluates to a lambda or a list of lambdas, and binds names."""
        n, c = nm(), rng.randrange(13)
        if c == 0: return f"({n} := {lam(n, d)})"
        if c == 1: return f"let[{n} << {lam(n, d)}][{n}]"
        if c == 2: return f"let[[({n}, {lam(n, d)})] in {n}]"
        if c == 3: return f"letrec[{n}, where[{n} << {lam(n, d)}]]"
        if c == 4: return f"K({n}={lam(n, d)})"
        if c == 5: return f"{{'{n}': {lam(n, d)}, {rng.choice(['1', 'None', 'q0', '(1, 2)', '2.5'])}: {lam(None, d)}}}"
        if c == 6: return f"let[{n} << None][[{n} << {lam(n, d)}, {n}]]"
        if c == 7: return f"do[local[{n} << {lam(n, d)}], {n}]"
        if c == 8: return f"ident({lam(None, d)})"
        if c == 9: m = nm(); return f"K({n}={lam(n, d)}).more({m}={lam(m, d)})"
        if c == 12: return f"K({{R1({lam(None, d)}): 1}} and ident({lam(None, 0)}))"
        if c == 10: return f"K(*[{lam(None, 0)}], **{{'{n}': {lam(n, d)}}})"
        return f"[{lam(None, d)}, {lam(None, 0)}]" if False else f"K({lam(None, d)}, {lam(None, 0)})"
    lines = []
    for _ in range(rng.randrange(2, 5)):
        n, c = nm(), rng.randrange(6)
        if c == 0: lines += [f"{n} = {lam(n, 2)}", f"R({n})"]
        elif c == 1: lines += [f"{n} = ident({lam(n, 1)})", f"R({n})"]          # a decorated lambda
        elif c == 2: lines += [f"{n} = curry({lam(n, 1)})", f"R({n})"]
        elif c == 3: m = nm(); lines += [f"{n} = {m} = {lam(None, 1)}", f"R({n})"]
        elif c == 4: lines += [f"{n} = [{lam(None, 1)}]", f"R({n})"]
        else: lines.append(f"R({wrap(2)})")
    src = MACROS + "with namedlambda:\n    def go():\n" + indent(["    " + l for l in lines])
    got = {}
    class KW:
        def __init__(self, *a, **k): self.a = list(a) + list(k.values())
        def more(self, **k): self.a += k.values(); return self
    def R(x):
        if isinstance(x, KW): x = x.a
        if isinstance(x, dict): x = list(x.values())
        for f in x if isinstance(x, list) else [x]:
            if callable(f): got[f()] = f
    from unpythonic import curry
    try:
        p = Program(src, R=R, R1=lambda f: R(f) or 1, K=KW, ident=lambda f: f, q0=7, curry=curry)
        p.go()
    except Exception as e: ctx.violate(f"the program failed: {e!r}"[:400], src=src); return
    for t, f in got.items():
        want = expect[t]
        ns = {f.__name__, f.__qualname__.rpartition(".")[2] if want else f.__name__}
        if not hasattr(f, "__wrapped__"): ns.add(f.__code__.co_name)
        if want: ctx.check(ns == {want}, "wrong name", src=src, tag=t, got=sorted(ns), expected=want)
        else: ctx.check(re.fullmatch(r"<lambda at .*:\d+>", f.__name__) is not None, "anonymous lambda not named after its location", src=src, tag=t, got=f.__name__)
        ctx.event("names"); ctx.seen(bool(want))
    ctx.check(len(got) > 0 and set(got) <= set(expect), "unknown lambda", src=src)

# -- envify: parameters of all kinds, rebound from inner lambdas ----------------------------------
@section(quick=200, thorough=3000, require={"rebound": 300})
def parameters(ctx, rng):
    po, pk, ko = [f"a{i}" for i in range(rng.randrange(3))], [f"b{i}" for i in range(rng.randrange(3))], [f"c{i}" for i in range(rng.randrange(3))]
    va, kw = rng.random() < 0.5, rng.random() < 0.5
    dflt = {p: rng.randrange(100) for p in ko if rng.random() < 0.5}
    for p in reversed(po + pk):
        if rng.random() < 0.5: break
        dflt[p] = rng.randrange(100)
    show = lambda p: f"{p}={dflt[p]}" if p in dflt else p
    parts = [show(p) for p in po] + ["/"] * bool(po) + [show(p) for p in pk] + (["*va"] if va else ["*"] if ko else []) + [show(p) for p in ko] + ["**kw"] * kw
    ps = po + pk + ko + ["va"] * va + ["kw"] * kw
    if not ps: return
    lam = rng.random() < 0.5
    ops = [rng.choice(ps) for _ in range(rng.randrange(1, 5))]
    exprs = [rng.choice(["({p} := [{p}, 1])", "(lambda: ({p} := [{p}, 1]))()", "(lambda: {p} << [{p}, 1])()", "[(lambda z: ({p} := [{p}, z]))(1)][0]"]).format(p=p) for p in ops]
    ret = f"[{', '.join(ps)}]"
    if lam: src = f"with envify:\n    f = lambda {', '.join(parts)}: do[{', '.join(exprs)}, {ret}]\n"
    else:
        body = [e if rng.random() < 0.7 else f"{p} = [{p}, 1]" for e, p in zip(exprs, ops)]
        src = f"with envify:\n    def f({', '.join(parts)}):\n" + "".join(f"        {b}\n" for b in body) + f"        return {ret}\n"
    pos = list(range(len(po) + rng.randrange(len(pk) + 1)))
    if va and len(pos) == len(po + pk): pos += list(range(50, 50 + rng.randrange(3)))
    kws = {p: rng.randrange(100) for p in (pk + ko)[max(0, len(pos) - len(po)):] if p not in dflt or rng.random() < 0.5} if len(pos) <= len(po + pk) else {p: 7 for p in ko}
    if kw and rng.random() < 0.6: kws["extra"] = 8
    ns = {}
    exec(f"def f({', '.join(parts)}): return {ret}", ns)
    def want():
        d = dict(zip(ps, ns["f"](*pos, **kws)))
        for p in ops: d[p] = [d[p], 1]
        return [d[p] for p in ps]
    r, w = res(lambda: Program(MACROS + src).f(*pos, **kws)), res(want)
    if r[0] == w[0] == "exc": r, w = r[:2], w[:2]
    ctx.check(r == w, "an envified function differs", src=src, pos=pos, kws=kws, got=r, expected=w)
    ctx.event("rebound", len(ops)); ctx.seen(len(po), len(pk), len(ko), va, kw, lam)

# -- autoref -----------------------------------------------------------------------------------
NM = ["a", "b", "c", "d"]
@section(quick=600, thorough=8000, require={"lookups": 1000, "hits": 300})
def autoref(ctx, rng):
    """Names in Load context read the innermost object that has the attribute, else the variable."""
    objs = []
    for i in range(3):
        o = Obj()
        for n in NM:
            if rng.random() < 0.4: setattr(o, n, 10 * i + NM.index(n) + 100)
        objs.append(o)
    glob = {n: NM.index(n) for n in NM if rng.random() < 0.8}
    stack, lines, want, k, env_ = [], [], [], [0], dict(glob)
    def look(n):
        for o in reversed(stack):
            if n in o: return o[n]
        return env_.get(n, NameError)
    live = [dict(o.__dict__) for o in objs]
    def ref(n):
        w = look(n)
        form = rng.choice(["{n}", "lst[{n}]", "({n} + 0)", "(lambda: {n})()", "[{n} for _z in range(1)][0]", "f'{{{n}}}'", "ident({n})", "pick(k={n})", "(0 if False else {n})", "let[_y << {n}][_y]", "do[local[_y << {n}], _y]", "{n}.real", "tup[{n} * 0 + 1] + {n}"])
        if w is NameError: return form.format(n=n) if not form.startswith("lst") else n, NameError
        v = w
        if form.startswith("lst"): return f"lst[{n} % 5]", [5, 6, 7, 8, 9][v % 5]
        if form.startswith("f'"): return f"f'{{{n}}}'", str(v)
        if form.startswith("tup"): return form.format(n=n), 20 + v
        return form.format(n=n), v
    def gen(ind, d):
        sp = "    " * ind
        for _ in range(rng.randrange(2, 5)):
            c = rng.random()
            if c < 0.55:
                n = rng.choice(NM); s, w = ref(n); i = len(want); want.append(w)
                ctx.event("lookups")
                if any(n in o for o in stack): ctx.event("hits")
                lines.append(f"{sp}try: out[{i}] = {s}"); lines.append(f"{sp}except NameError: out[{i}] = NameError")
            elif c < 0.7:
                n = rng.choice(NM); v = rng.randrange(50); k[0] += 1
                lines.append(f"{sp}{n} = {v}"); env_[n] = v          # Store context: the variable
            elif c < 0.8 and stack:
                i = rng.randrange(3); n = rng.choice(NM); v = rng.randrange(50)
                lines.append(f"{sp}o{i}.{n} = {v}"); live[i][n] = v
            elif c < 0.85:
                i = rng.randrange(3)
                if live[i]: n = rng.choice(sorted(live[i])); lines.append(f"{sp}del o{i}.{n}"); del live[i][n]
            elif d > 0:
                i = rng.randrange(3)
                form = rng.choice(["autoref(o{i})", "autoref[o{i}]", "autoref(ident(o{i}))", "autoref[o{i}] as z{d}"])
                lines.append(f"{sp}with {form.format(i=i, d=d)}:")
                stack.append(live[i]); gen(ind + 1, d - 1); stack.pop()
        lines.append(sp + "pass")
    lines.append("with autoref[o0]:")
    stack.append(live[0]); gen(1, 2); stack.pop()
    out = {}
    src = MACROS + "".join(l + "\n" for l in lines)
    try: Program(src, out=out, lst=[5, 6, 7, 8, 9], tup=(10, 20), o0=objs[0], o1=objs[1], o2=objs[2], ident=lambda x: x, pick=lambda k: k, **glob)
    except Exception as e: ctx.violate(f"the program failed: {e!r}"[:400], src=src); return
    got = [out.get(i) for i in range(len(want))]
    ctx.check(got == want, "autoref looked up the wrong value", src=src, got=got, expected=want, objs=[o.__dict__ for o in objs], globs=glob)
    ctx.seen(len(want) // 3, len(stack))

# -- dbg and nb --------------------------------------------------------------------------------
def norm(s): return re.sub(r"[\s()]", "", s)
@section(quick=200, thorough=3000, require={"printed": 300})
def printing(ctx, rng):
    def expr(d):
        c = rng.randrange(5) if d else rng.randrange(2)
        if c == 0: return str(rng.randrange(30))
        if c == 1: return rng.choice(["v", "w", "s"])
        if c == 2: return f"({expr(d - 1)} + {expr(d - 1)})" if False else f"({rng.choice('vw')} * {rng.randrange(9)} + {rng.randrange(9)})"
        if c == 3: return f"[{expr(d - 1)}, {expr(d - 1)}]"
        return f"len([{expr(d - 1)}])"
    ns = dict(v=rng.randrange(50), w=rng.randrange(50), s="str")
    ev = lambda e: eval(e, dict(ns))
    lines, want = ["import unpythonic.syntax", "from unpythonic import dyn", "from unpythonic.syntax import macros, dbg, nb"], []
    vals = []
    def add(l, *w): lines.append(l); want.extend((len(lines), x) if isinstance(x, tuple) else x for x in w)
    seen = []
    def prt(*a, **k): seen.append((a, k))
    for _ in range(rng.randrange(2, 6)):
        c = rng.randrange(6)
        if c == 0: e = expr(2); add(f"vals.append(dbg[{e}])", ("one", e, ev(e))); vals.append(ev(e))
        elif c == 1:
            lines.append("with dbg:")
            for _ in range(rng.randrange(1, 3)):
                es = [expr(1) for _ in range(rng.randrange(1, 4))]
                sep = rng.choice(["", "", ", sep='; '", ", sep='\\n'"])
                add(f"    print({', '.join(es)}{sep})", ("many", es, [ev(e) for e in es], sep))
        elif c == 2:
            lines.append("with dbg[prt]:")
            es = [expr(1) for _ in range(rng.randrange(1, 4))]
            lines.append(f"    prt({', '.join(es)})"); want.append((len(lines), ("prt", es, [ev(e) for e in es])))
            lines.append("    print('plain', v)"); want.append((0, ("line", f"plain {ns['v']}")))
        elif c == 3:
            lines.append("with nb:")
            prev = None
            for _ in range(rng.randrange(1, 5)):
                kind = rng.randrange(5)
                if kind == 0: e = expr(1); lines.append(f"    {e}"); prev = ev(e); want.append((0, ("line", str(prev))))
                elif kind == 1: lines.append("    vals.append(_)" if False else "    t = _"); lines.append("    for _i in [0]: vals.append(t)"); vals.append(prev)
                elif kind == 2: lines.append("    None"); prev = None
                elif kind == 3: lines.append("    if True: v"); 
                else: lines.append("    [_, 1]"); prev = [prev, 1]; want.append((0, ("line", str(prev))))
        elif c == 4:
            e = expr(1); lines.append("with nb[prt]:"); lines.append(f"    {e}"); want.append((0, ("nbprt", ev(e))))
        else:
            e = expr(1); lines.append("with dyn.let(dbgprint_expr=lambda k, v, *, filename, lineno: prt(k, v, filename, lineno) or v):")
            lines.append(f"    vals.append(dbg[{e}])"); want.append((len(lines), ("custom", e, ev(e)))); vals.append(ev(e))
    src = "\n".join(lines) + "\n"
    out, got = io.StringIO(), []
    with contextlib.redirect_stdout(out):
        try: p = Program(src, prt=prt, vals=got, **ns)
        except Exception as e: ctx.violate(f"the program failed: {e!r}"[:400], src=src); return
    ctx.check(got == vals, "dbg or nb changed a value", src=src, got=got, expected=vals)
    text, fn = out.getvalue().splitlines(), None
    it, cs = iter(text), iter(seen)
    for ln, w in want:
        bad = lambda g: ctx.check(False, f"wrong output for {w[0]}", src=src, got=g, expected=w, line=ln, output=text)
        if w[0] == "line":
            g = next(it, None)
            if g != w[1]: return bad(g)
        elif w[0] == "one":
            g = next(it, ""); m = re.fullmatch(r"\[(.*):(\d+)\] (.*): (.*)", g)
            if not m or int(m[2]) != ln or norm(m[3]) != norm(w[1]) or m[4] != str(w[2]): return bad(g)
        elif w[0] == "many":
            parts = [f"{norm(k)}:{norm(str(v))}" for k, v in zip(w[1], w[2])]
            if "\\n" in w[3]:
                for x in parts:
                    g = next(it, "")
                    if not re.fullmatch(rf"\[(.*):{ln}\] .*", g) or norm(g.split("] ", 1)[1]) != x: return bad(g)
            else:
                g = next(it, "")
                sep = ";" if ";" in w[3] else ","
                if not re.fullmatch(rf"\[(.*):{ln}\] .*", g) or norm(g.split("] ", 1)[1]) != sep.join(parts): return bad(g)
        else:
            a, k = next(cs, ((), {}))
            if w[0] == "prt" and (len(a) != 2 or [norm(x) for x in a[0]] != [norm(x) for x in w[1]] or list(a[1]) != w[2] or k.get("lineno") != ln): return bad((a, k))
            if w[0] == "nbprt" and (a, k) != ((w[1],), {}): return bad((a, k))
            if w[0] == "custom" and (norm(a[0]) != norm(w[1]) or a[1] != w[2] or a[3] != ln): return bad((a, k))
        ctx.event("printed"); ctx.seen(w[0])
    rest = list(it) + list(cs)
    ctx.check(not rest, "unexpected output", src=src, got=rest)

# -- errors and known shadowing defects ----------------------------------------------------------
BAD = {"cond without otherwise": "cond[1, 2]", "cond with one item": "cond[1]", "cond with four": "cond[1, 2, 3, 4]", "it in the test": "aif[it, 1, 2]", "it outside": "it + 1",
       "it after aif": "(aif[1, it, 2], it)", "aif as a name macro": "[x for x in [it]]", "fn as block": None}
@section(quick=1, thorough=1)
def forms(ctx, rng):
    for k, e in BAD.items():
        if e is None: continue
        r = res(Program, MACROS + f"x = {e}\n")
        ctx.check(r[:2] == ("exc", "SyntaxError"), f"{k} was not rejected", src=e, got=r); ctx.event("rejected")
    for m in ("multilambda", "namedlambda", "quicklambda", "envify"):
        for src in (f"with {m} as z:\n    x = 1\n", f"x = {m}[1]\n"):
            r = res(Program, MACROS + src); ctx.check(r[:2] == ("exc", "SyntaxError"), f"{m}: wrong use was not rejected", src=src, got=r); ctx.event("rejected")
    good = [("with autoreturn, envify:\n    def foo(n):\n        lambda i: (n := n + i)\nf, g = foo(10), foo(1)\nx = [f(1), f(2), g(5)]\n", [11, 13, 6]),
            ("with envify:\n    def foo(n):\n        'doc'\n        return lambda i: n << n + i\nf = foo(10)\nx = [f(1), f(2), foo.__doc__]\n", [11, 13, "doc"]),
            ("n = 100\nwith envify:\n    def f(n, m=n, *a, k=n, **kw):\n        return (n := n + 1), m, a, k, kw, n\n    g = lambda n, m=n, *, k=n: [n, m, k]\nx = [f(1), f(1, 2, 3, z=4), g(5)]\n", [(2, 100, (), 100, {}, 2), (2, 2, (3,), 100, {"z": 4}, 2), [5, 100, 100]]),
            ("with envify:\n    def f(n):\n        def g(n):\n            n += 1\n            return n, (lambda n: (n := n * 2))(n)\n        n += 10\n        return g(n), n\nx = f(1)\n", ((12, 24), 11)),
            ("with multilambda:\n    t = lambda: [[1, 2]]\n    u = lambda x: [local[y << x + 1], y, [x, y]]\nx = [t(), u(3)]\n", [[1, 2], [3, 4]]),
            ("with quicklambda, multilambda:\n    f = fn[[local[x << _], local[y << _], x - y]]\nx = f(5, 2)\n", 3),
            ("x = [fn[_ * 2](4), fn[_ - _](7, 2), fn[3](), fn[fn[_ + 1]](), fn[_(_)](abs, -3)][2]\n", 3),
            ("x = [aif[0, 1, it], aif[5, [it, it + 1], 2], aif[[1, 2, 3], [[it]], 0], aif[7, aif[it + 1, it, 0] + it, 0], aif[None, 1, [[it]]]]\n", [0, 6, [3], 15, [None]]),
            ("x = [cond[0, 1, 2, 3, 4], cond[0, 1, [1, 0], 2, [4, 5]], cond[1, [[1, 2]], 3]]\n", [3, 5, [1, 2]])]
    for src, want in good:
        r = res(Program, MACROS + src)
        if r[0] == "ok": r = ("ok", r[1].x)
        ctx.check(r == ("ok", want), "wrong value", src=src, got=r, expected=want); ctx.event("documented form"); ctx.seen(src)
    for key, src, want in [("envify-local-variable-shadows-parameter", "with envify:\n    def f(n):\n        l = [n for n in range(3)]\n        return l, n\nx = f(7)\n", ([0, 1, 2], 7)),
                           ("envify-local-variable-shadows-parameter", "with envify:\n    def f(n):\n        def h():\n            n = 5\n            return n\n        return h(), n\nx = f(7)\n", (5, 7)),
                           ("envify-local-variable-shadows-parameter", "with envify:\n    def f(n):\n        class A:\n            n = 1\n        return A.n, n\nx = f(7)\n", (1, 7))]:
        r = res(Program, MACROS + src)
        if r[0] == "ok": r = ("ok", r[1].x)
        ctx.check(r == ("ok", want), "a variable of an inner scope with the name of a parameter", key=key, src=src, got=r, expected=want)

# -- long chains: which tests and branches are evaluated, and false values in branches ----------------
VALS = ["0", "None", "''", "[[]]", "False", "1", "'x'", "(0,)", "2.5"]
@section(quick=250, thorough=4000, require={"long cond": 100, "false branch": 60, "aif chain": 60})
def chains(ctx, rng):
    n = rng.randrange(1, 13)
    k = [0]
    def item(v):
        """(source, value, trace): an item of a cond or an aif, possibly bracketed with several expressions."""
        c = rng.randrange(3); k[0] += 1; t = k[0]
        x = eval(v)
        if v == "[[]]": return f"L({t}, [])", [], [t]
        if c == 0: return f"L({t}, {v})", x, [t]
        if c == 1: k[0] += 1; return f"[L({t}), L({t + 1}, {v})]", x, [t, t + 1]
        return f"(L({t}, {v}))", x, [t]
    if rng.random() < 0.6:
        src, trace, value, done = [], [], None, False
        p = rng.choice([0.1, 0.3, 0.7])
        for _ in range(n):
            truthy = rng.random() < p
            a, av, at = item(rng.choice([v for v in VALS if v != "[[]]" and bool(eval(v)) == truthy]))
            b, bv, bt = item(rng.choice(VALS))
            src += [a, b]
            if not done:
                trace += at
                if av: trace += bt; value, done = bv, True
        b, bv, bt = item(rng.choice(VALS)); src.append(b)
        if not done: trace += bt; value = bv
        code = f"cond[{', '.join(src)}]"; ctx.event("cond")
        if n > 3: ctx.event("long cond")
        if done and not value: ctx.event("false branch")
    else:
        # each aif nested in a branch of the one before it; `it` is that of the innermost
        def build(d):
            v = rng.choice(VALS[:3] + VALS[5:]); k[0] += 1; t = k[0]; x = eval(v)
            if d == 0: s1, v1, t1 = f"L({t + 50}, it)", x, [t + 50]; s2, v2, t2 = f"L({t + 90}, (it, {t}))", (x, t), [t + 90]
            else:
                s1, v1, t1 = build(d - 1); s2, v2, t2 = build(d - 1) if d < 3 else (f"it", x, [])
                if rng.random() < 0.5: s1, v1 = f"({s1}, it)", (v1, x)
            return f"aif[L({t}, {v}), {s1}, {s2}]", (v1 if x else v2), [t] + (t1 if x else t2)
        code, value, trace = build(rng.randrange(1, 5)); ctx.event("aif chain")
    src = MACROS + f"def main(): return {code}\n"
    p = Program(src)
    got = p.main()
    ctx.check(got == value and type(got) is type(value), "wrong value", src=code, got=got, expected=value)
    ctx.check([t for t, _ in p.trace] == trace, "other parts were evaluated", src=code, got=[t for t, _ in p.trace], expected=trace)
    ctx.seen(code[:4], n, bool(value), len(trace))
