"""C40: block macros combined in the documented order keep each macro's meaning."""
import sys
from vp.core import section
from vp.macro import Program, res
from vp.mix import Mix, HELPERS, MACROS

ORDER = ["prefix", "autoreturn", "quicklambda", "multilambda", "envify", "lazify", "namedlambda", "autoref", "autocurry", "tco"]
def indent(lines, n=1): return "\n".join("    " * n + l for l in lines) + "\n"
class Obj:
    def __init__(self, **k): self.__dict__.update(k)

def subset(rng):
    n = rng.choice([2, 2, 2, 3, 3, 4, 5, 7, 10])
    s = set(rng.sample(ORDER, n))
    if {"lazify", "autocurry", "tco"} <= s: s.discard(rng.choice(["lazify", "autocurry", "tco"]))
    return [x for x in ORDER if x in s]

def compare(ctx, src, rsrc, args, key=None, **names):
    try: a = Program(src, **HELPERS, **names)
    except Exception as e: ctx.violate(f"the program failed: {e!r}"[:600], src=src); return None
    b = Program(rsrc, **HELPERS, **names)
    for x in args:
        del a.trace[:], b.trace[:]
        ra, rb = res(a.main, *x), res(b.main, *x)
        if rb[0] == "exc" and rb[1] == "RecursionError": ctx.event("reference too deep"); continue
        if ra[0] == rb[0] == "exc": ra, rb = ra[:2], rb[:2]
        ctx.check(ra == rb, "result differs from that of the plain program", src=src, ref=rsrc, args=x, got=ra, expected=rb)
        ctx.check(a.trace == b.trace, "effects differ from those of the plain program", src=src, ref=rsrc, args=x, got=a.trace[:40], expected=b.trace[:40])
        ctx.event("evaluations"); ctx.seen(rb[0], min(len(b.trace), 12))
    return a

@section(quick=600, thorough=12000, deadline=120, require={"evaluations": 500, "prefix call": 30, "partial application": 30, "autoreturn": 30, "unused argument": 10, "loop": 10, "continuations": 10})
def programs(ctx, rng):
    mode = subset(rng)
    m = Mix(rng, mode)
    c0 = rng.randrange(9)
    ns = {"c0": ("c0", None)}
    names = {"c0": c0}
    if "autoref" in mode:
        ns["c1"] = ("o.c1", None); names["o"] = Obj(c1=rng.randrange(9))
    src, ref, lams, lp = m.program(ns, depth=rng.randrange(2, 4) if len(mode) < 5 else 2, nfuns=rng.randrange(1, 4))
    if sum(map(len, ref)) > 5000: ctx.event("too long"); return
    cont = "tco" in mode and "quicklambda" in mode and "lazify" not in mode and rng.random() < 0.5
    if cont:
        # a tail call in a continuations block must be to a function defined in such a block
        src = ["def L(i_, v_):", "    w_ = L_(i_, v_)", "    return w_", "def sum(s_):", "    w_ = sum_(s_)", "    return w_"] + src
        names["sum_"] = sum; ctx.event("continuations")
    ms = [("autoref(o)" if x == "autoref" else "continuations" if x == "tco" and cont else x) for x in mode]
    imports = MACROS.replace("prefix", "prefix, continuations, call_cc")
    if rng.random() < 0.3:
        text, k = imports, 0
        for x in ms: text += "    " * k + f"with {x}:\n"; k += 1
        text += indent(src, k); ctx.event("nested with")
    else: text = imports + f"with {', '.join(ms)}:\n" + indent(src)
    p = compare(ctx, text, "\n".join(ref) + "\n", [(rng.randrange(5), rng.randrange(5)) for _ in range(3)], **names)
    for u in m.used: ctx.event(u)
    ctx.seen(tuple(ms))
    for i, x in enumerate(ms):
        for y in ms[i + 1:]: ctx.seen("pair", x, y)
    if p and "namedlambda" in mode:
        for n in lams: ctx.check(getattr(p.mod, n).__name__ == n, "lambda is not named after its target", name=n, got=getattr(p.mod, n).__name__, src=text); ctx.event("names")
    if p and lp:
        r = res(getattr(p.mod, lp), 3000, 0)
        ctx.check(r[0] == "ok", "deep tail recursion failed", src=text, got=r); ctx.event("deep recursions")

# -- decorators ---------------------------------------------------------------------------------
from unpythonic.regutil import register_decorator
from unpythonic.fun import iscurried
LOG = []
def isjump(x): return type(x).__name__ == "_jump"
def make(name, pri):
    def deco(f):
        LOG.append((pri, not isjump(f(1)), bool(iscurried(f))))
        return f
    deco.__name__ = name
    return register_decorator(priority=pri)(deco)
def makep(name, pri):
    def factory(arg):
        def deco(f): LOG.append((pri, not isjump(f(1)), bool(iscurried(f)))); return f
        return deco
    factory.__name__ = name
    return register_decorator(priority=pri)(factory)
DECOS = {f"vd{i}": make(f"vd{i}", p) for i, p in enumerate([2, 6.5, 9, 25, 39, 41, 60, 97])}
PDECOS = {f"vp{i}": makep(f"vp{i}", p) for i, p in enumerate([3, 7.5, 28, 45, 90])}
PRI = {f"vd{i}": p for i, p in enumerate([2, 6.5, 9, 25, 39, 41, 60, 97])} | {f"vp{i}": p for i, p in enumerate([3, 7.5, 28, 45, 90])}
TRAMPOLINED, CURRY = 40, 8

@section(quick=250, thorough=4000, require={"lambda": 50, "def": 50})
def decorators(ctx, rng):
    """The macros' own decorators take the place given by the registered priorities; those of a lambda are sorted."""
    ds = rng.sample(sorted(PRI), rng.randrange(1, 5))
    mode = rng.choice(["tco", "continuations", "autocurry, tco", "autocurry, continuations", "autocurry", "namedlambda, tco", "multilambda, envify, tco", "lazify, tco"])
    isdef = rng.random() < 0.5 or "autocurry" in mode or "lazify" in mode
    if isdef: ds = sorted({d if d[1] == "d" else "vd" + d[2:] for d in ds}, key=PRI.get)
    call = lambda d: d if d[1] == "d" else f"{d}({rng.randrange(5)})"
    body = rng.choice(["ident(x)", "x if not x else ident(x)", "let[y << x][ident(y)]"])
    head = MACROS.replace("prefix", "prefix, continuations, call_cc") + f"with {mode}:\n    def ident(x): return x\n"
    if isdef: src = head + "".join(f"    @{call(d)}\n" for d in ds) + f"    def f(x):\n        return {body}\n"; ctx.event("def")
    else: src = head + f"    f = {'('.join(map(call, ds))}(lambda x: {body}){')' * (len(ds) - 1)}\n"; ctx.event("lambda")
    del LOG[:]
    try: p = Program(src, **DECOS, **PDECOS)
    except Exception as e: ctx.violate(f"the program failed: {e!r}"[:600], src=src); return
    got = list(LOG)
    exp = [(pri, pri < TRAMPOLINED or ("tco" not in mode and "continuations" not in mode), pri < CURRY and "autocurry" in mode) for pri in sorted((PRI[d] for d in ds), reverse=True)]
    ctx.check(got == exp, "decorators applied in another order", src=src, got=got, expected=exp, legend="(priority, the decorated function is trampolined, it is curried)")
    r = res(p.f, 7); ctx.check(r == ("ok", 7), "wrong result", src=src, got=r)
    ctx.seen(mode, isdef, tuple(sorted(PRI[d] for d in ds)))
