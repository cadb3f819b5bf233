"""C38: modules in the dialects compute what the documented combination of macros computes."""
import unpythonic
from vp.core import section
from vp.macro import Program, res
from vp.mix import Mix, HELPERS
from unpythonic.collections import frozendict

FEATS = {"Lispython": ["autoreturn", "quicklambda", "multilambda", "namedlambda", "tco"], "Lispy": ["autoreturn", "quicklambda", "multilambda", "namedlambda", "tco"],
         "Pytkell": ["lazify", "autocurry"], "Listhell": ["prefix", "autocurry"]}
LET = "let letseq letrec dlet dletseq dletrec blet bletseq bletrec local delete do do0".split()
ALL = ["let", "letseq", "letrec", "do", "do0", "local", "delete", "where", "cond", "aif", "it", "fn"]
MACROS = {"Lispython": LET + ["fn", "where", "let_syntax", "abbrev", "block", "expr", "cond"], "Lispy": [], "Pytkell": LET + ["lazy", "lazyrec", "where", "cond", "forall"], "Listhell": ["q", "u", "kw"]}
NAMES = {"Lispython": {n: n for n in "cons car cdr ll llist nil prod dyn Values".split()}, "Lispy": {},
         "Pytkell": {**{n: n for n in ("foldl foldr scanl scanr s imathify gmathify frozendict memoize fupdate fup gmemoize imemoize fimemoize islice take drop split_at first second nth last flip rotate "
                                       "cons car cdr ll llist nil").split()}, "compose": "composerc"}, "Listhell": {"apply": "apply", "compose": "composerc"}}

def header(rng, d, need=ALL, doc=None):
    out = ""
    if doc: out += f'"""{doc}"""\n'
    out += f"from unpythonic.dialects import dialects, {d}\n# (mcpyrate scans from the dialect import to the next parenthesis)\n"
    missing = [n for n in need if n not in MACROS[d]]
    if missing: out += f"from unpythonic.syntax import macros, {', '.join(missing)}\n"
    return out

@section(quick=500, thorough=8000, deadline=90, require={"evaluations": 500, "Lispython": 40, "Lispy": 40, "Pytkell": 40, "Listhell": 40, "deep recursions": 10, "partial application": 20, "prefix call": 20, "unused argument": 10, "names": 20})
def programs(ctx, rng):
    d = rng.choice(list(FEATS)); ctx.event(d)
    m = Mix(rng, FEATS[d])
    src, ref, lams, lp = m.program({"c0": ("c0", None)}, depth=rng.randrange(2, 4), nfuns=rng.randrange(1, 4))
    if sum(map(len, ref)) > 6000: ctx.event("too long"); return
    doc = rng.choice([None, "A module docstring."])
    text, rtext = header(rng, d, doc=doc) + "\n".join(src) + "\n", "\n".join(ref) + "\n"
    c0 = rng.randrange(9)
    try: a = Program(text, **HELPERS, c0=c0)
    except Exception as e: ctx.violate(f"the program failed: {e!r}"[:600], src=text); return
    b = Program(rtext, **HELPERS, c0=c0)
    for x in [(rng.randrange(5), rng.randrange(5)) for _ in range(3)]:
        del a.trace[:], b.trace[:]
        ra, rb = res(a.main, *x), res(b.main, *x)
        if rb[0] == "exc" and rb[1] == "RecursionError": continue
        if ra[0] == rb[0] == "exc": ra, rb = ra[:2], rb[:2]
        ctx.check(ra == rb, "result differs from that of the plain program", src=text, ref=rtext, args=x, got=ra, expected=rb)
        ctx.check(a.trace == b.trace, "effects differ from those of the plain program", src=text, ref=rtext, args=x, got=a.trace[:40], expected=b.trace[:40])
        ctx.event("evaluations"); ctx.seen(d, rb[0], min(len(b.trace), 12), tuple(sorted(m.used)))
    ctx.check(a.mod.__lang__ == d, "__lang__ is not the name of the dialect", got=a.mod.__lang__, dialect=d)
    ctx.check(a.mod.__doc__ == doc, "the module docstring got lost", got=a.mod.__doc__, src=text)
    for u in m.used: ctx.event(u)
    if "namedlambda" in FEATS[d]:
        for n in lams: ctx.check(getattr(a.mod, n).__name__ == n, "lambda is not named after its target", name=n, got=getattr(a.mod, n).__name__, src=text); ctx.event("names")
    if lp:
        r = res(getattr(a.mod, lp), 3000, 0)
        ctx.check(r[0] == "ok", "deep tail recursion failed", src=text, got=r); ctx.event("deep recursions")

@section(quick=12, thorough=40, require={"names": 40})
def builtins(ctx, rng):
    d = list(FEATS)[ctx.index % 4] if hasattr(ctx, "index") else rng.choice(list(FEATS))
    names = list(NAMES[d]); rng.shuffle(names)
    text = header(rng, d, []) + "".join(f"v_{n} = {n}\n" for n in names) + "ok = 1\n"
    try: p = Program(text)
    except Exception as e: ctx.violate(f"the program failed: {e!r}"[:600], src=text); return
    for n in names:
        ctx.check(getattr(p.mod, f"v_{n}") is getattr(unpythonic, NAMES[d][n]), "dialect builtin is another object", dialect=d, name=n, got=repr(getattr(p.mod, f"v_{n}"))); ctx.event("names")
    ctx.check(p.ok == 1, "module body did not run"); ctx.seen(d, tuple(names[:3]))
    if d == "Lispy":
        extra = sorted(n for n in vars(p.mod) if n in NAMES["Lispython"] or n in LET)
        ctx.check(not extra, "Lispy imports names implicitly", got=extra)

# forms available without an import, with the value they must give
def forms(d, r):
    a, b, c = r.randrange(1, 9), r.randrange(9), r.randrange(2, 6)
    L = []
    if d in ("Lispython", "Pytkell"):
        L += [(f"let[[x << {a}, y << {b}] in x * 10 + y]", a * 10 + b), (f"let[x - y, where[x << {a}, y << {b}]]", a - b), (f"letseq[x << {a}, x << x + {b}][x * 2]", (a + b) * 2),
              (f"letrec[ev << (lambda n: True if n == 0 else od(n - 1)), od << (lambda n: False if n == 0 else ev(n - 1))][ev({a})]", a % 2 == 0),
              (f"do[local[x << {a}], local[y << x + {b}], x * y]", a * (a + b)), (f"do0[{a}, {b}]", a),
              (f"cond[{a} < {b}, 'lt', {a} == {b}, 'eq', 'gt']", "lt" if a < b else "eq" if a == b else "gt"),
              (f"car(cdr(ll({a}, {b}, {c})))", b), (f"list(llist([{a}, {b}]))", [a, b]), (f"cdr(cons({a}, nil)) is nil", True),
              ("DEF", f"@dlet(n << {a})\ndef f(k):\n    n << n + k\n    return n\n", f"[f({b}), f({c})]", [a + b, a + b + c]) if d == "Lispython" else ("DEF", f"@dlet(n << {a})\ndef f(k):\n    return n + k\n", f"[f({b}), f({c})]", [a + b, a + c]),
              ("DEF", f"@dletseq(n << {a}, n << n * 2)\ndef f(k):\n    return n + k\n", f"f({b})", 2 * a + b),
              ("DEF", f"@dletrec(ev << (lambda n: True if n == 0 else od(n - 1)), od << (lambda n: False if n == 0 else ev(n - 1)))\ndef f(k):\n    return ev(k)\n", f"f({b})", b % 2 == 0),
              ("DEF", f"@blet(n << {a})\ndef f():\n    return n * {b}\n", "f", a * b), ("DEF", f"@bletseq(n << {a}, n << n + 1)\ndef f():\n    return n * {b}\n", "f", (a + 1) * b),
              ("DEF", f"@bletrec(n << {a}, m << n + 1)\ndef f():\n    return n * m\n", "f", a * (a + 1)), (f"do[local[x << {a}], x << x + {b}, x]", a + b)]
    if d == "Lispython":
        L += [(f"fn[_ * {a} + _]({b}, {c})", b * a + c), (f"(lambda x: [local[y << x * 2], y + {a}])({b})", b * 2 + a), (f"(lambda x: [[x, {a}]])({b})", [b, a]), (f"prod([{a}, {b}, {c}])", a * b * c),
              (f"let_syntax[[f(p) << p * 2] in f({a}) + f({b})]", 2 * a + 2 * b), (f"abbrev[(g, {a}), in_][0]" if False else f"abbrev[[g << {a}] in g + {b}]", a + b), (f"Values({a}, k={b}).kwrets['k']", b),
              ("DEF", f"def f():\n    g()\ndef g():\n    dyn.par\n", None, None) if False else ("DEF", f"def g():\n    dyn.par\ndef f():\n    with dyn.let(par={a}):\n        r = g()\n    r\n", "f()", a),
              ("DEF", f"def f(n, acc):\n    if n == 0:\n        acc\n    else:\n        f(n - 1, acc + {a})\n", "f(4000, 0)", 4000 * a),
              ("DEF", f"def f(n):\n    try:\n        {a} // n\n    except ZeroDivisionError:\n        {b}\n", "[f(1), f(0)]", [a, b]),
              ("DEF", f"def f(n):\n    with Ctx_():\n        n + {a}\n", f"f({b})", a + b), ("DEF", "class C:\n    def m(self, x):\n        x + 1\n", f"C().m({a})", a + 1),
              ("DEF", f"with let_syntax:\n    with block as bl:\n        z = {a}\n    bl\n    z = z + {b}\n", "z", a + b),
              ("DEF", "from unpythonic.syntax import macros, continuations, call_cc\nwith continuations:\n    def g(x, cc):\n        return x * 2\n    def f(x):\n        y = call_cc[g(x)]\n        return y + 1\n", f"f({a})", 2 * a + 1)]
    if d == "Pytkell":
        L += [("DEF", "def f(a, b, c):\n    return a + b\n", f"f({a})({b})(fail(1))", a + b), (f"list(scanl(lambda x, y: x + y, 0, ({a}, {b})))", [0, a, a + b]), (f"foldr(compose(cons, lambda x: x * 2), nil, ({a}, {b})) == ll({2 * a}, {2 * b})", True),
              (f"foldl((lambda x, y: y * 2 + x), 0)(({a}, {b}, {c}))", (a * 2 + b) * 2 + c), (f"list(take({c}, s(1, 2, ...)))", list(range(1, c + 1))), (f"last(take({c}, s({a}, {a} + 2, ...)))", a + 2 * (c - 1)),
              (f"sorted(forall[x << range({c}), y << range(x, {c}), insist(x + y == {c}), (x, y)])", sorted((x, y) for x in range(c) for y in range(x, c) if x + y == c)),
              (f"sorted(forall[x << range({c}), deny(x == {b}), x])", [x for x in range(c) if x != b]), (f"let[x << fail(1)][{a}]", a), (f"(lambda x, y: x)({a}, fail(2))", a), (f"(lambda l: l[1])([fail(3), {a}])", a),
              (f"frozendict(x={a})['x']", a), (f"fup(({a}, {b}))[0 << {c}]", (c, b)) if False else (f"fupdate(({a}, {b}), 0, {c})", (c, b)), (f"flip(lambda x, y: x - y)({a}, {b})", b - a), (f"rotate(1)(lambda x, y, z: (x, y, z))({a}, {b}, {c})", None) if False else (f"first(({a}, {b}))", a),
              (f"second(({a}, {b}))", b), (f"nth({c}, range(9))", c), (f"list(drop({c}, range(9)))", list(range(9))[c:]), (f"[list(z) for z in split_at({c}, range(9))]", [list(range(9))[:c], list(range(9))[c:]]),
              (f"(lambda p: p + 1)(lazy[{a}])", a + 1), (f"(lambda p: p[1])(lazyrec[[fail(4), {a}]])", a), ("DEF", "@memoize\ndef f(x):\n    return x + 1\n", f"f({a}) + f({a})", 2 * a + 2)]
    if d == "Listhell":
        L += [(f"(divmod, {a * 10 + b}, {c})", divmod(a * 10 + b, c)), (f"(sum, (q, {a}, {b}, {c}))", a + b + c), (f"((add3, {a}), {b}, {c})", a + b * 10 + c * 100), (f"(((add3, {a}), {b}), {c})", a + b * 10 + c * 100),
              (f"(add3, {a}, kw(z={c}, y={b}))", a + b * 10 + c * 100), (f"(apply, add3, (q, {a}, {b}, {c}))", a + b * 10 + c * 100), (f"((compose, (lambda x: x * 2), (lambda x: x + {a})), {b})", (b + a) * 2), (f"(tuple, (q, {a}, {b}))", (a, b)),
              (f"(zero,)", 0), (f"(len, (q, (u, zero), {a}))", 2) if False else (f"(list, (q, (q, {a}), {b}))", [(a,), b]) if False else (f"(len, (q, zero, {a}))", 2), (f"(lambda x: (add3, x, {a}, {b}))({c})", c + a * 10 + b * 100),
              ("DEF", "f = lambda x, y: (pow, x, y)\ndef g(x, y): return (f, x, y)\n", f"((g, {a}), 2)", a * a)]
    return L

class Ctx_:
    def __enter__(self): return self
    def __exit__(self, *a): return False
def add3(x, y, z): return x + 10 * y + 100 * z
def zero(): return 0

@section(quick=160, thorough=2500, require={"forms": 500})
def forms_(ctx, rng):
    d = rng.choice(["Lispython", "Pytkell", "Listhell"])
    items = [rng.choice(forms(d, rng)) for _ in range(rng.randrange(2, 7))]
    body, exp = "", []
    for i, it in enumerate(items):
        if it[0] == "DEF":
            # each definition in a function of its own, so that the names do not meet
            if "continuations" in it[1] or "let_syntax" in it[1] or "class C" in it[1]: continue
            body += f"def h{i}():\n" + "".join(f"    {l}\n" for l in it[1].splitlines()) + f"    return {it[2]}\nr{i} = {f'(h{i},)' if d == 'Listhell' else f'h{i}()'}\n"; exp.append((i, it[3], it[2]))
        else: body += f"r{i} = {it[0]}\n"; exp.append((i, it[1], it[0]))
    text = header(rng, d, []) + body
    try: p = Program(text, Ctx_=Ctx_, add3=add3, zero=zero)
    except Exception as e: ctx.violate(f"the program failed: {e!r}"[:600], src=text); return
    for i, v, e in exp:
        r = res(lambda: unpythonic.force(getattr(p.mod, f"r{i}")))
        ctx.check(r == ("ok", v), "wrong value", form=e, dialect=d, got=r, expected=v, src=text); ctx.event("forms")
    ctx.seen(d, tuple(it[0][:12] for it in items))

@section(quick=60, thorough=600, require={"forms": 40})
def toplevel(ctx, rng):
    """Definitions that must stand at the top level of the module."""
    d = rng.choice(["Lispython", "Lispython", "Pytkell", "Listhell"])
    it = rng.choice([x for x in forms(d, rng) if x[0] == "DEF"])
    text = header(rng, d, []) + it[1] + f"r = {it[2]}\n"
    try: p = Program(text, Ctx_=Ctx_, add3=add3, zero=zero)
    except Exception as e: ctx.violate(f"the program failed: {e!r}"[:600], src=text); return
    r = res(lambda: unpythonic.force(p.r))
    ctx.check(r == ("ok", it[3]), "wrong value", dialect=d, got=r, expected=it[3], src=text); ctx.event("forms"); ctx.seen(d, it[1])
