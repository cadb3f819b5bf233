"""C24: forall (function and macro forms) against nested loops with a recorded evaluation trace; monad laws of MonadicList."""
import string
from vp.core import section, outcome
from unpythonic import forall, choice, insist, deny
from unpythonic.amb import MonadicList, monadify
from mcpyrate.compiler import run, create_module

NAMES = ["x", "y", "z", "w", "e", "names", "begin", "bodys", "monadify", "env", "_", "assign", "self", "j", "name", "body", "bindings", "elt", "value", "mlst"]
MNAMES = ["x", "y", "z", "w", "k", "v", "elt", "item"]   # names the generated macro programs use
class Boom(Exception): pass

def expr(rng, names):
    """An arithmetic expression (template with {name}) over the visible names."""
    if not names or rng.random() < 0.3: return str(rng.randrange(-2, 6))
    a = "{%s}" % rng.choice(names)
    k = rng.randrange(6)
    if k == 0: return a
    if k == 1: return f"{a} + {rng.randrange(4)}"
    if k == 2: return f"{a} * {rng.randrange(3)}"
    if k == 3: return f"{a} - {{{rng.choice(names)}}}"
    if k == 4: return f"{a} + {{{rng.choice(names)}}} * 2"
    return f"abs({a}) % 4"

def program(rng, pool, macro):
    """-> list of (kind, name, expr-template)"""
    lines, names = [], []
    n = rng.randrange(1, 6)
    avail = rng.sample(pool, 4)
    risky = rng.random() < 0.15
    for i in range(n):
        k = rng.choice(["choice", "choice", "choice", "guard", "guard", "unnamed", "const"]) if i else "choice"
        if k == "choice":
            nm = rng.choice(avail)
            it = rng.choice([lambda: "[" + ", ".join(expr(rng, names) for _ in range(rng.randrange(0, 4))) + "]", lambda: f"range(abs({expr(rng, names)}) % 4)",
                             lambda: f"({expr(rng, names)}, {expr(rng, names)})", lambda: expr(rng, names), lambda: f"(q_ + 1 for q_ in [{expr(rng, names)}, 2])",
                             lambda: f"{{{{{expr(rng, names)}: 'a'}}}}", lambda: f"'ab'[:abs({expr(rng, names)})].encode()" , lambda: "None"])()
            if names and rng.random() < 0.15: nm = rng.choice(names)   # rebinding a name in an inner choice
            lines.append(("choice", nm, it))
            if nm not in names: names = names + [nm]
        elif k == "guard":
            c = f"{expr(rng, names)} {rng.choice(['<', '>', '==', '!=', '<='])} {expr(rng, names)}"
            if rng.random() < 0.2: c = expr(rng, names)
            lines.append(("guard", None, f"{rng.choice(['insist', 'deny'])}({c})"))
        elif k == "unnamed": lines.append(("unnamed", None, rng.choice(["[1, 2]", "None", "[]", "'z'", expr(rng, names), f"range(abs({expr(rng, names)}) % 3)"])))
        else: lines.append(("const", None, rng.choice(["3", "None", "[5, 6]", "()", "(7,)"])))
        if risky and rng.random() < 0.4: lines.append(("choice", avail[0], rng.choice([f"10 // ({expr(rng, names)})", f"[1] + ({expr(rng, names)})", f"boom({expr(rng, names)})"]))); names = names + [avail[0]] if avail[0] not in names else names
    last = rng.choice(["(" + "".join("{%s}, " % nm for nm in names) + ")", expr(rng, names), f"[{expr(rng, names)}]", "None", f"insist({expr(rng, names)} > 1)", "(" + "".join("{%s}, " % nm for nm in names) + ")"])
    lines.append(("last", rng.choice(avail) if rng.random() < 0.1 else None, last))
    return lines

class SafeNames(dict):
    pass

def subst(t, f):
    # template fields are exactly {name}; doubled braces are literal
    return "".join(lit + (f(fld) if fld is not None else "") for lit, fld, _, _ in string.Formatter().parse(t))

def boom(x):
    raise Boom()

def reference(lines, trace, genv):
    out = []
    def value(i, t, names):
        loc = {"v_" + k: v for k, v in names.items()}
        v = eval(subst(t, lambda n: "v_" + n), {**genv, **loc})
        trace.append((i, tuple(sorted((k, repr(v)) for k, v in names.items()))))
        return v
    def items(v):
        if isinstance(v, MonadicList): return list(v.x)
        try: it = iter(v)
        except TypeError: return [v]
        return list(it)
    def rec(i, names):
        k, nm, t = lines[i]
        v = value(i, t, names)
        if i == len(lines) - 1:
            out.extend(list(v.x) if isinstance(v, MonadicList) else [v])
            return
        for x in items(v):
            rec(i + 1, {**names, nm: x} if nm else names)
    rec(0, {})
    return tuple(out)

GENV = {"insist": insist, "deny": deny, "boom": boom}

@section(quick=5000, thorough=80000, require={"programs": 4500, "nonempty": 2000, "errors": 150, "evals": 11000, "guarded": 2000})
def functions(ctx, rng):
    lines = program(rng, NAMES, False)
    ctx.note(lines=lines)
    wtrace, trace = [], []
    want = outcome(reference, lines, wtrace, GENV)
    args = []
    seen = []
    for i, (k, nm, t) in enumerate(lines):
        code = compile(subst(t, lambda n: "ENV_." + n), f"<line {i}>", "eval")
        def f(ENV_, code=code, i=i):
            v = eval(code, {**GENV, "ENV_": ENV_})
            trace.append((i, tuple(sorted((k2, repr(getattr(ENV_, k2))) for k2 in set(NAMES) if k2 in vars(ENV_)))))
            return v
        if k == "const": f = eval(t, dict(GENV)); 
        elif not any(x[1] is not None for x in string.Formatter().parse(t)) and "q_" not in t and "boom" not in t and "//" not in t and not t.startswith("range") and rng.random() < 0.3 and k == "choice":
            try: f = eval(subst(t, str), dict(GENV)); k = "const"
            except TypeError: pass
        seen.append(k == "const")
        args.append(choice(**{nm: f}) if nm else f)
    got = outcome(forall, *args)
    ctx.event("programs"); ctx.event("evals", len(wtrace))
    if any(k == "guard" for k, _, _ in lines): ctx.event("guarded")
    ctx.check(got[0] == want[0] and (got[1] == want[1] and type(got[1]) is type(want[1]) and repr(got[1]) == repr(want[1]) if got[0] == "ok" else got[1] is want[1]), "forall: wrong result", got=got, want=want, lines=lines)
    if want[0] == "exc": ctx.event("errors")
    elif want[1]: ctx.event("nonempty")
    wt = [x for x in wtrace if not seen[x[0]]]
    ctx.check(trace == wt, "forall: wrong order of evaluation or names visible to a line", got=trace[:20], want=wt[:20], lines=lines)
    ctx.seen(tuple((k, nm, t) for k, nm, t in lines))

@section(quick=500, thorough=8000, require={"programs": 450, "nonempty": 200, "evals": 1000})
def macros(ctx, rng):
    lines = program(rng, MNAMES, True)
    ctx.note(lines=lines)
    wtrace, trace = [], []
    want = outcome(reference, lines, wtrace, GENV)
    body = []
    shown = []
    for i, (k, nm, t) in enumerate(lines):
        ex = f"rec({i}, {subst(t, lambda n: n)}, dict({', '.join(f'{n}={n}' for n in shown)}))"
        if nm and nm not in shown: shown.append(nm)
        body.append(f"{nm} := {ex}" if nm and rng.random() < 0.6 else f"{nm} << {ex}" if nm else ex)
    src = "from unpythonic.syntax import macros, forall\nfrom unpythonic.syntax import insist, deny\ndef main():\n    return forall[" + ",\n      ".join(body) + ("," if len(body) == 1 else "") + "]\n"
    ctx.note(src=src)
    mod = create_module("vp_forall")
    def recf(i, v, names):
        trace.append((i, tuple(sorted((k, repr(x)) for k, x in names.items()))))
        return v
    mod.__dict__.update(rec=recf, boom=boom)
    run(src, mod)
    got = outcome(mod.main)
    ctx.event("programs"); ctx.event("evals", len(wtrace))
    ctx.check(got[0] == want[0] and (got[1] == want[1] and repr(got[1]) == repr(want[1]) if got[0] == "ok" else got[1] is want[1]), "forall[]: wrong result", got=got, want=want)
    if want[0] == "ok" and want[1]: ctx.event("nonempty")
    ctx.check(trace == wtrace, "forall[]: wrong order of evaluation or bindings", got=trace[:20], want=wtrace[:20])
    ctx.seen(src)

@section(quick=2500, thorough=30000, require={"laws": 2000, "errors": 800})
def monad_laws(ctx, rng):
    elt = lambda: rng.choice([rng.randrange(-3, 9), "a", None, (1, 2), [3], False])
    def ml(): return MonadicList(*[elt() for _ in range(rng.randrange(0, 5))])
    def fun():
        tab = {}
        k = rng.randrange(4)
        def f(x):
            if k == 0: return MonadicList(x)
            if k == 1: return MonadicList()
            if k == 2: return MonadicList(x, (x,))
            return MonadicList(*([repr(x)] * (len(repr(x)) % 3)))
        return f
    m, f, g, x = ml(), fun(), fun(), elt()
    L = lambda a: list(a)
    ctx.event("laws")
    ctx.check(L(MonadicList(x) >> f) == L(f(x)), "left identity")
    ctx.check(L(m >> MonadicList) == L(m), "right identity", m=m)
    ctx.check(L((m >> f) >> g) == L(m >> (lambda y: f(y) >> g)), "associativity", m=m)
    ctx.check(L(m >> f) == [y for e in L(m) for y in f(e)], "bind is not flatmap")
    h, k = (lambda y: (y, 1)), (lambda y: [y])
    ctx.check(L(m.fmap(h).fmap(k)) == L(m.fmap(lambda y: k(h(y)))) == [k(h(y)) for y in m], "fmap")
    ctx.check(L(m.fmap(f).join()) == L(m >> f) and L(MonadicList(m, m).join()) == L(m) * 2, "join")
    ctx.check(L(MonadicList.lift(h)(x)) == [h(x)], "lift")
    m2 = ml()
    ctx.check(L(m.then(m2)) == L(m2) * len(m), "then")
    ctx.check(L(m + m2) == L(m) + L(m2), "concatenation")
    c = m.copy()
    ctx.check(c == m and c is not m and (m == m2) == (L(m) == L(m2)) and len(m) == len(L(m)), "copy, ==, len")
    ctx.check(all(m[i] is y for i, y in enumerate(m)), "indexing")
    calls = []
    def gen():
        for y in L(m): calls.append(1); yield y
    ctx.check(L(MonadicList.from_iterable(gen())) == L(m) and len(calls) == len(m), "from_iterable")
    b = rng.choice([True, False, 0, 1, "", "x", None, [0]])
    ctx.check(bool(L(insist(b))) == bool(b) and bool(L(deny(b))) == (not b) and len(insist(b)) <= 1, "guards")
    # a TypeError (or any error) from user code propagates
    E = rng.choice([TypeError, ValueError, KeyError])
    def bad(_): raise E()
    if len(m):
        ctx.event("errors")
        ctx.check(outcome(lambda: m >> bad) == ("exc", E) and outcome(m.fmap, bad) == ("exc", E), "an error in bind was swallowed", E=E)
        def badgen():
            yield 1
            raise E()
        ctx.check(outcome(lambda: monadify(badgen())) == ("exc", E) and outcome(MonadicList.from_iterable, badgen()) == ("exc", E), "an error in an iterable was swallowed", E=E)
    ctx.check(outcome(lambda: m.then(5)) == ("exc", TypeError) and outcome(lambda: m + [1]) == ("exc", TypeError), "then/+ accept a non-monadic value")
    if len(m): ctx.check(outcome(m.join) == ("exc", TypeError), "join of a non-nested list")
    ctx.check(L(monadify(m)) == L(m) and L(monadify([1, 2])) == [1, 2] and L(monadify([1, 2], False)) == [[1, 2]] and L(monadify(5)) == [5], "monadify")
    ctx.check(outcome(lambda: choice(a=1, b=2)) == ("exc", ValueError) and outcome(lambda: choice()) == ("exc", ValueError), "choice")
    ctx.seen(len(m), len(m2), repr(x))
