"""C11: multiple dispatch against a reference dispatcher: random registries, registration histories, class hierarchies."""
import itertools
import typing
from vp.core import section, short
from vp.gen import Sig
from vp import types as ty
from unpythonic import generic, augment, typed, curry
from unpythonic.dispatch import isgeneric, list_methods, format_methods, methods

UID = itertools.count()
VALUES = [1, 2, True, 2.5, "s", "t", b"b", None, [1], ["x"], (1, 2), (1, "a"), {"k": 1}, len, ty.MyStr("m"), ty.Plain(), ty.Sub(), (), [], {}]
KWNAMES = ["p", "q"]


def param_spec(rng):
    k = rng.randrange(12)
    if k < 6: return ty.Spec("class", rng.choice([int, int, str, str, float, bool, ty.Plain, ty.Sub, object, ty.MyStr, list, tuple]))
    if k == 6: return ty.Spec("Any")
    if k == 7: return ty.Spec("Union", ty.Spec("class", int), ty.Spec("class", str))
    if k == 8: return ty.Spec("Optional", ty.Spec("class", rng.choice([int, str])))
    if k == 9: return ty.Spec(rng.choice(["List", "Sequence"]), ty.Spec("class", rng.choice([int, str])))
    if k == 10: return rng.choice([ty.Spec("Callable"), ty.Spec("TupleHomo", ty.Spec("class", int)), ty.Spec("Tuple", ty.Spec("class", int), ty.Spec("class", str))])
    return ty.Spec("TypeVar")


class Meth:
    """one multimethod: signature, specs, behaviour"""
    def __init__(self, rng, ident, first=None, maxpos=3):
        self.ident, self.first = ident, first
        n = rng.randrange(maxpos + 1)
        nd = rng.choice([0, 0, 0, 1, 2])
        names = rng.sample(["a", "b", "c", "d"], n) if rng.random() < 0.2 else ["a", "b", "c", "d"][:n]
        ps = [(x, None if i < n - nd else ("d", rng.choice(VALUES))) for i, x in enumerate(names)]
        ko = [("k", ("d", rng.choice([1, "s"])) if rng.random() < 0.5 else None)] if rng.random() < 0.2 else []
        cut = rng.randrange(n + 1) if rng.random() < 0.15 and not first else 0
        self.sig = Sig(ps[:cut], ps[cut:], "args" if rng.random() < 0.2 else None, ko, "kw" if rng.random() < 0.15 and not cut else None)  # a keyword named like a positional-only parameter: out of domain
        self.specs = {x: param_spec(rng) for x, _ in ps + ko}
        if self.sig.varargs:
            self.specs["args"] = rng.choice([ty.Spec("TupleHomo", param_spec(rng)), ty.Spec("TupleBare"), ty.Spec("Any"), ty.Spec("Tuple", param_spec(rng), param_spec(rng))])
        if self.sig.varkw:
            self.specs["kw"] = rng.choice([ty.Spec("Dict", ty.Spec("class", str), param_spec(rng)), ty.Spec("Any")])
        self.behave = rng.choice(["ret"] * 8 + ["TypeError", "ValueError"])

    def real(self, log, name, skip_annot=None):
        env = {f"S_{n}": s.T for n, s in self.specs.items()}
        ann = {n: f"S_{n}" for n in self.specs if n != skip_annot}
        def body(b):
            log.append((self.ident, b))
            if self.behave == "TypeError": raise TypeError("from the body")
            if self.behave == "ValueError": raise ValueError("from the body")
            return ("result", self.ident)
        f = self.sig.make(body, name, annots=ann, env=env, first=self.first)
        return f

    def accepts(self, args, kwargs):
        b = self.sig.bind(args, kwargs)
        if b is None: return None
        if not all(self.specs[n].ok(v) for n, v in b.items()): return None
        return b
    def __repr__(self):
        return f"{self.ident}({self.sig.source({n: repr(s) for n, s in self.specs.items()})})"


def rand_call(rng, meths):
    """arguments: mostly grown from one of the multimethods"""
    if meths and rng.random() < 0.75:
        m = rng.choice(meths)
        args, kwargs = [], {}
        def val(n):
            try:
                return ty.value_of(rng, m.specs[n], 2) if rng.random() < 0.85 else rng.choice(VALUES)
            except ty.NoValue:
                return rng.choice(VALUES)
        names = False
        for n, d in m.sig.positional:
            if d is not None and rng.random() < 0.4:
                break
            if names or ((n, d) in m.sig.pos and rng.random() < 0.2):
                kwargs[n] = val(n)
                names = True
            else:
                args.append(val(n))
        if m.sig.varargs and not names and len(args) == len(m.sig.positional):
            for _ in range(rng.randrange(3)): args.append(rng.choice(VALUES))
        for n, d in m.sig.kwonly:
            if d is None or rng.random() < 0.5: kwargs[n] = val(n)
        if m.sig.varkw and rng.random() < 0.6:
            kwargs[rng.choice(KWNAMES)] = rng.choice(VALUES)
        return args, kwargs
    return [rng.choice(VALUES) for _ in range(rng.randrange(4))], ({"k": rng.choice(VALUES)} if rng.random() < 0.2 else {})


def expect(ctx, f, meths, args, kwargs, log, implicit=(), **note):
    """call f and judge"""
    want = None
    for m in meths:
        b = m.accepts(args, kwargs)
        if b is not None:
            want = (m, b)
            break
    del log[:]
    ctx.note(meths=meths, args=args, kwargs=kwargs, want=want and want[0], **note)
    try:
        r = ("ok", f(*implicit, *args, **kwargs))
    except TypeError as e:
        r = ("body", TypeError) if str(e) == "from the body" else ("nomatch", TypeError)
    except ValueError as e:
        r = ("body", ValueError)
    if want is None:
        ctx.event("nomatch")
        ctx.check(r[0] == "nomatch" and not log, "no multimethod matches, but", got=r, log=log)
        return
    m, b = want
    ctx.event("match")
    ctx.event("shadowed", sum(1 for x in meths if x.accepts(args, kwargs) is not None) > 1)
    ctx.check(len(log) == 1, "not exactly one multimethod ran", log=log)
    ctx.check(log[0][0] == m.ident, "wrong multimethod", ran=log[0][0])
    ctx.check(same_bindings(log[0][1], b), "wrong bindings", got=log[0][1], want=b)
    ctx.same(r, ("ok", ("result", m.ident)) if m.behave == "ret" else ("body", TypeError if m.behave == "TypeError" else ValueError), "outcome")


def same_bindings(x, y):
    return list(x) == list(y) and all(type(x[k]) is type(y[k]) and (x[k] is y[k] or x[k] == y[k]) for k in x)


def fname(f, qual):
    f.__qualname__, f.__module__ = qual, "vpgen"
    return f


@section(quick=6000, require={"match": 5000, "nomatch": 1500, "shadowed": 600, "augment": 1500, "badreg": 400})
def registry(ctx, rng):
    """registrations and calls interleaved"""
    uid = next(UID)
    log, meths, g, n = [], [], None, 0
    for step in range(rng.randrange(3, 12)):
        if g is None or rng.random() < 0.35:
            n += 1
            m = Meth(rng, f"m{n}")
            if g is not None and rng.random() < 0.15 and m.specs:
                skip = rng.choice(list(m.specs))
                f = fname(m.real(log, "g", skip_annot=skip), f"g_{uid}")
                before = len(list_methods(g))
                try:
                    generic(f)
                    ctx.violate("a multimethod without annotation was accepted", m=m, skip=skip)
                except TypeError:
                    ctx.event("badreg")
                ctx.same(len(list_methods(g)), before, "failed registration changed the generic function")
                continue
            if g is None or rng.random() < 0.5:
                r = generic(fname(m.real(log, "g"), f"g_{uid}"))
                ctx.event("generic")
            else:
                r = augment(g)(fname(m.real(log, "other"), f"other_{uid}"))
                ctx.event("augment")
            ctx.check(g is None or r is g, "registration returned another dispatcher")
            g = r
            meths.insert(0, m)
        else:
            args, kwargs = rand_call(rng, meths)
            expect(ctx, g, meths, args, kwargs, log)
    lm = list_methods(g)
    ctx.same([t for _, t in lm], [{x: s.T for x, s in m.specs.items()} for m in meths], "list_methods", meths=meths)
    ctx.check(isgeneric(g) == "generic" and len(format_methods(g).splitlines()) == 1 + len(meths), "format_methods", got=format_methods(g))
    ctx.seen([repr(m) for m in meths])


@section(quick=2500, require={"match": 1500, "nomatch": 700})
def typedf(ctx, rng):
    uid = next(UID)
    log = []
    m = Meth(rng, "t")
    f = typed(fname(m.real(log, "g"), f"t_{uid}"))
    for _ in range(rng.randrange(1, 4)):
        args, kwargs = rand_call(rng, [m])
        expect(ctx, f, [m], args, kwargs, log)
    ctx.check(isgeneric(f) == "typed", "isgeneric of @typed")
    m2 = Meth(rng, "t2")
    for reg in (lambda: generic(fname(m2.real(log, "g"), f"t_{uid}")), lambda: augment(f)(fname(m2.real(log, "h"), f"h_{uid}"))):
        try:
            reg()
            ctx.violate("a @typed function accepted another multimethod")
        except TypeError:
            pass
    ctx.check(len(list_methods(f)) == 1, "a @typed function gained a multimethod")
    args, kwargs = rand_call(rng, [m])
    expect(ctx, f, [m], args, kwargs, log)
    for bad in (lambda: augment(len), lambda: list_methods(lambda: 1)):
        try:
            bad()
            ctx.violate("not a generic function, but accepted")
        except TypeError:
            pass
    ctx.check(isgeneric(lambda: 1) is False, "isgeneric")
    ctx.seen(repr(m))


@section(quick=2500, require={"match": 2500, "nomatch": 600, "inherited": 1000, "falsy": 200, "classmethod": 500, "staticmethod": 300})
def oop(ctx, rng):
    """generic methods in class hierarchies (also diamonds): own multimethods first, then in MRO order"""
    uid = next(UID)
    kind = rng.choice(["instance", "instance", "instance", "classmethod", "staticmethod"])
    log, classes, own = [], [], {}
    first = None if kind == "staticmethod" else ("self" if kind == "instance" else "cls")
    if first and rng.random() < 0.2: first = {"self": "this", "cls": "klass"}[first]
    falsy = rng.random() < 0.25
    n = 0
    for ci in range(rng.randrange(1, 5)):
        bases = rng.sample(classes, min(len(classes), rng.choice([1, 1, 2])))
        name = f"K{ci}_{uid}"
        ns, ms = {}, []
        if not classes or rng.random() < 0.65:
            for _ in range(rng.randrange(1, 4)):
                n += 1
                m = Meth(rng, f"{name}.m{n}", first=first, maxpos=2)
                f = fname(m.real(log, "m"), f"{name}.m")
                d = generic(f)
                ns["m"] = {"instance": lambda: d, "classmethod": lambda: classmethod(d), "staticmethod": lambda: staticmethod(d)}[kind]()
                ms.insert(0, m)
        if falsy: ns["__bool__"] = lambda self: False
        try:
            c = type(name, tuple(bases) or (object,), ns)
        except TypeError:  # inconsistent MRO
            continue
        classes.append(c)
        if ms: own[c] = ms
    # late registration onto a class that already has subclasses
    if rng.random() < 0.4 and kind == "instance":
        c = rng.choice(list(own))
        n += 1
        m = Meth(rng, f"late{n}", first=first, maxpos=2)
        augment(c.__dict__["m"])(fname(m.real(log, "late"), f"late_{uid}"))
        own[c].insert(0, m)
    for _ in range(4):
        c = rng.choice(classes)
        mro = [k for k in c.__mro__ if k in own]
        chain = [m for k in (mro if kind != "staticmethod" else mro[:1]) for m in own[k]]
        args, kwargs = rand_call(rng, chain)
        target = c() if kind == "instance" or rng.random() < 0.5 else c
        if falsy: ctx.event("falsy")
        if kind != "instance": ctx.event(kind)
        if len(mro) > 1 and kind != "staticmethod": ctx.event("inherited")
        expect(ctx, target.m, chain, args, kwargs, log, mro=[k.__name__ for k in c.__mro__], falsy=falsy, kind=kind)
        lm = [t for _, t in list_methods(target.m)]
        pre = {first: typing.Any} if first else {}
        ctx.same(lm, [{**pre, **{x: s.T for x, s in m.specs.items()}} for m in chain], "list_methods of a method", chain=chain)
        if log and kind == "instance" and rng.random() < 0.3:
            expect(ctx, c.m, chain, args, kwargs, log, implicit=(target,))
    ctx.seen([repr(m) for c in classes for m in own.get(c, ())], [len(c.__mro__) for c in classes])
