"""C09: curry: random groupings of arguments through chains of functions, against the documented reduction rules."""
import itertools
import typing
from vp.core import section, short
from vp.gen import Sig, rand_sig, scalar
from unpythonic import curry, Values, dyn, generic
from unpythonic.fun import partial as upartial, iscurried


class RefTypeError(Exception):
    pass


class MV:
    """model of Values"""
    def __init__(self, rets, kwrets):
        self.rets, self.kwrets = tuple(rets), dict(kwrets)


class Fn:
    def __init__(self, name, sig, kind, nxt, extra, annots=None):
        self.name, self.sig, self.kind, self.nxt, self.extra, self.annots = name, sig, kind, nxt, extra, annots or {}
        self.real = None
    def __repr__(self):
        return f"{self.name}({self.sig.source(self.annots)})->{self.kind}{'' if self.nxt is None else ' -> ' + repr(self.nxt)}"


def prefixed(sig, p):
    def r(lst): return [(p + n, d) for n, d in lst]
    return Sig(r(sig.posonly), r(sig.pos), sig.varargs and p + sig.varargs, r(sig.kwonly), sig.varkw and p + sig.varkw)


KINDS_END = ["scalar", "scalar", "values", "kwvalues", "none", "inner"]
KINDS_FN = ["fn", "fn", "cfn", "valuesfn"]


def gen_fn(rng, depth, idx=0):
    sig = rand_sig(rng, maxpos=3, varargs=0.15, kwonly=0.3, varkw=0.12, defaults=0.3, maxkw=2)
    sig = prefixed(sig, f"p{idx}")
    if depth <= 0:
        kind, nxt = rng.choice(KINDS_END), None
    else:
        kind, nxt = rng.choice(KINDS_FN), gen_fn(rng, depth - 1, idx + 1)
    annots = {}
    if rng.random() < 0.3:
        for n, d in sig.positional + sig.kwonly:
            if d is None and rng.random() < 0.6:
                annots[n] = rng.choice(["int", "str", "T.Union[int, str]"])
    extra = (tuple(scalar(rng) for _ in range(rng.randrange(3))), {"named%d" % rng.randrange(2): scalar(rng)} if rng.random() < 0.5 else {})
    return Fn(f"f{idx}", sig, kind, nxt, extra, annots)


# -- reference --------------------------------------------------------------------------
def analyse(sig, args, kwargs):
    """-> (bound, unbound, extra_args, extra_kwargs) by Python's rules; RefTypeError for clashes"""
    args, kwargs, bound, unbound = list(args), dict(kwargs), {}, []
    npo = len(sig.posonly)
    for i, (n, d) in enumerate(sig.positional):
        if args:
            if n in kwargs and i >= npo:
                raise RefTypeError
            bound[n] = args.pop(0)
        elif n in kwargs and i >= npo:
            bound[n] = kwargs.pop(n)
        elif n in kwargs:
            raise RefTypeError
        elif d is None:
            unbound.append(n)
    if sig.varargs:
        bound[sig.varargs] = tuple(args)
        args = []
    for n, d in sig.kwonly:
        if n in kwargs:
            bound[n] = kwargs.pop(n)
        elif d is None:
            unbound.append(n)
    if sig.varkw:
        bound[sig.varkw] = kwargs
        kwargs = {}
    return bound, unbound, tuple(args), kwargs


class Ref:
    def __init__(self, ctx):
        self.log, self.ctx = [], ctx
    def execute(self, fn, args, kwargs, ctx=True):
        b = fn.sig.bind(args, kwargs)
        if b is None:
            raise RefTypeError
        self.log.append((fn.name, tuple(sorted((k, short(v)) for k, v in b.items()))))
        k = fn.kind
        if k == "scalar": return ("res", fn.name, len(self.log))
        if k == "none": return None
        if k == "values": return MV((fn.name,) + fn.extra[0], fn.extra[1])
        if k == "kwvalues": return MV((), {"kwv": 5})
        if k == "inner" and not ctx: raise RefTypeError    # a top-level curry context of its own
        if k == "inner": return MV((("inner", 1), 2), {})
        if k == "fn": return ("FN", fn.nxt)
        if k == "cfn": return ("CFN", fn.nxt)
        if k == "valuesfn": return MV((("FN", fn.nxt),) + fn.extra[0], fn.extra[1])
    def call(self, state, args, kwargs, outer):
        """state: ("PART", fn, args, kwargs) curried, possibly with collected arguments; ("FN", fn) plain"""
        if state[0] == "FN":
            return self.execute(state[1], args, kwargs, outer)
        if state[0] == "CFN":
            state = ("PART", state[1], (), {})
        _, fn, a0, k0 = state
        a, kw = a0 + tuple(args), {**k0, **kwargs}
        bound, unbound, xa, xk = analyse(fn.sig, a, kw)
        if unbound:
            self.ctx.event("partial")
            for n, t in fn.annots.items():
                if n in bound:
                    ok = {"int": (int,), "str": (str,), "T.Union[int, str]": (int, str)}[t]
                    if not isinstance(bound[n], ok):
                        self.ctx.event("type-refused")
                        raise RefTypeError
            return ("PART", fn, a, kw)
        na = a[:len(a) - len(xa)]
        nk = {k: v for k, v in kw.items() if k not in xk}
        r = self.execute(fn, na, nk)
        if not xa and not xk:
            self.ctx.event("exact")
            return r
        self.ctx.event("passthrough")
        if isinstance(r, MV):
            xk = {**xk, **r.kwrets}
            first = r.rets[0] if r.rets else None
            xa = r.rets + xa
            rets = bool(r.rets)
        else:
            first, xa, rets = r, (r,) + xa, True
        if rets and isinstance(first, tuple) and first and first[0] in ("FN", "CFN"):
            self.ctx.event("chained")
            return self.call(("PART", first[1], (), {}), xa[1:], xk, outer)
        if not outer:
            self.ctx.event("leftover")
            raise RefTypeError
        return MV(xa, xk)


# -- real functions ---------------------------------------------------------------------
def build(fn, log):
    def body(b):
        log.append((fn.name, tuple(sorted((k, short(v)) for k, v in b.items()))))
        k = fn.kind
        if k == "scalar": return ("res", fn.name, len(log))
        if k == "none": return None
        if k == "values": return Values(fn.name, *fn.extra[0], **fn.extra[1])
        if k == "kwvalues": return Values(kwv=5)
        if k == "inner": return curry(lambda x: ("inner", x))(1, 2)
        if k == "fn": return build(fn.nxt, log)
        if k == "cfn": return curry(build(fn.nxt, log))
        if k == "valuesfn": return Values(build(fn.nxt, log), *fn.extra[0], **fn.extra[1])
    return fn.sig.make(body, fn.name, annots=fn.annots, env={"T": typing, "int": int, "str": str})


def same(real, model):
    if isinstance(model, MV):
        return type(real) is Values and len(real.rets) == len(model.rets) and all(same(a, b) for a, b in zip(real.rets, model.rets)) \
            and set(real.kwrets) == set(model.kwrets) and all(same(real.kwrets[k], model.kwrets[k]) for k in model.kwrets)
    if isinstance(model, tuple) and model and model[0] in ("FN", "CFN", "PART"):
        return callable(real) and iscurried(real) == (model[0] != "FN")
    return type(real) is type(model) and real == model


def gen_args(rng, fn):
    """enough random arguments for the whole chain, some surplus; (positional list, named dict)"""
    pos, named = [], {}
    x = fn
    val = (lambda r: r.choice([r.randrange(50), r.choice(["s", "t"])])) if rng.random() < 0.6 else scalar
    while x is not None:
        allnamed = rng.random() < 0.2
        for i, (n, d) in enumerate(x.sig.positional):
            if d is not None and rng.random() < 0.5:
                continue
            if i >= len(x.sig.posonly) and (allnamed or rng.random() < 0.15):
                named[n] = val(rng)
            else:
                pos.append(val(rng))
        for n, d in x.sig.kwonly:
            if d is None or rng.random() < 0.5:
                named[n] = val(rng)
        x = x.nxt
    k = rng.random()
    if k < 0.2:
        pos += [val(rng) for _ in range(rng.randrange(1, 3))]
    elif k < 0.3:
        named["surplus"] = val(rng)
    elif k < 0.4 and pos:
        pos.pop()
    return pos, named


def groups(rng, pos, named):
    n = rng.randrange(1, 6)
    cuts = sorted(rng.randrange(len(pos) + 1) for _ in range(n - 1))
    gs = [([], {}) for _ in range(n)]
    prev = 0
    for i, c in enumerate(cuts + [len(pos)]):
        gs[i][0].extend(pos[prev:c])
        prev = c
    items = list(named.items())
    rng.shuffle(items)
    for k, v in items:
        gs[rng.randrange(n)][1][k] = v
    return gs


def drive(ctx, rng, outer):
    fn = gen_fn(rng, rng.choice([0, 0, 0, 1, 1, 2]))
    pos, named = gen_args(rng, fn)
    gs = groups(rng, pos, named)
    ctx.note(fn=fn, groups=gs)
    ctx.seen(repr(fn), gs)
    log = []
    real0 = build(fn, log)
    asfirst = rng.random() < 0.3      # "curry itself is curried"
    cur = curry(real0)
    ref = Ref(ctx)
    state = ("CFN", fn)
    forks = []
    for i, (a, k) in enumerate(gs):
        if isinstance(state, MV) or not (isinstance(state, tuple) and state and state[0] in ("FN", "CFN", "PART")):
            break
        if state[0] == "PART" and rng.random() < 0.4:
            forks.append((cur, state))
        err = False
        try:
            nstate = ref.call(state, a, k, outer)
        except RefTypeError:
            err = True
        try:
            if i == 0 and asfirst and (a or k):
                ncur = curry(real0, *a, **k)
            else:
                ncur = cur(*a, **k)
        except TypeError as e:
            ctx.check(err, "curried call raised TypeError, the rules give a result", step=i, err=e, got=log, want=ref.log)
            break
        ctx.check(not err, "curried call gave a result, the rules say TypeError", step=i, got=ncur)
        ctx.check(log == ref.log, "executions of the original differ", step=i, got=log, want=ref.log)
        ctx.check(same(ncur, nstate), "result differs", step=i, got=ncur, want=nstate if not isinstance(nstate, MV) else (nstate.rets, nstate.kwrets))
        cur, state = ncur, nstate
    ctx.check(log == ref.log, "executions of the original differ", got=log, want=ref.log)
    # a partial application can be continued again, differently, as if nothing had happened since
    for cur, state in forks:
        pos, named = gen_args(rng, fn)
        have = set(state[3])
        named = {k: v for k, v in named.items() if k not in have}
        a = pos[len(state[2]):]
        ctx.event("fork")
        err = False
        try:
            want = ref.call(state, a, named, outer)
        except RefTypeError:
            err = True
        try:
            got = cur(*a, **named)
        except TypeError as e:
            ctx.check(err, "continuing a partial application again raised TypeError", err=e)
            continue
        ctx.check(not err, "continuing a partial application again gave a result, the rules say TypeError", got=got)
        ctx.check(log == ref.log, "continuing a partial application again ran the original differently", got=log, want=ref.log)
        ctx.check(same(got, want), "continuing a partial application again gave a different result", got=got)


@section(quick=6000, require={"partial": 2000, "exact": 2000, "passthrough": 800, "chained": 300, "leftover": 150, "fork": 400, "type-refused": 30})
def chain(ctx, rng):
    drive(ctx, rng, False)


@section(quick=2500, require={"passthrough": 300, "partial": 700})
def incontext(ctx, rng):
    """inside an outer curry context surplus arguments are returned together with the result"""
    with dyn.let(curry_context=["vp"]):
        drive(ctx, rng, True)


@section(quick=1500, require={"split": 2500})
def regroup(ctx, rng):
    """no defaults, no varargs: every split of the same arguments gives the same result with one execution"""
    sig = rand_sig(rng, maxpos=5, varargs=0, varkw=0, defaults=0, kwonly=0.5)
    sig = Sig(sig.posonly, sig.pos, None, [(n, None) for n, _ in sig.kwonly], None)
    if not sig.positional and not sig.kwonly:
        return
    log = []
    f = sig.make(lambda b: log.append(b) or ("r", tuple(sorted(b))), "f")
    g = curry(f)
    args = [object() for _ in sig.positional]
    want = dict(zip([n for n, _ in sig.positional], args))
    byname = {n: object() for n, _ in sig.kwonly}
    cut = rng.randrange(len(sig.posonly), len(args) + 1)
    byname.update((n, want[n]) for n, _ in sig.positional[cut:])
    want.update({n: byname[n] for n, _ in sig.kwonly})
    for _ in range(3):
        gs = [x for x in groups(rng, args[:cut], byname) if x[0] or x[1]]
        r = g
        for i, (a, k) in enumerate(gs):
            ctx.check(log == [], "executed before all parameters were bound", sig=sig.source(), groups=gs)
            if rng.random() < 0.1:
                ctx.check(callable(r()), "an empty step is not a no-op")
            r = r(*a, **k)
        ctx.event("split")
        ctx.check(len(log) == 1 and set(log[0]) == set(want) and all(log[0][n] is want[n] for n in want), "bound arguments differ", sig=sig.source(), groups=gs, log=log)
        ctx.same(r, ("r", tuple(sorted(want))), "result differs")
        log.clear()
        ctx.seen(sig.source(), [(len(a), sorted(k)) for a, k in gs])
    ctx.check(curry(g) is g and iscurried(g), "curry wrappers stack")
    ctx.check(curry(42) == 42 and not iscurried(f), "curry of a non-callable / iscurried")


UID = itertools.count()
TYPES = {"int": int, "str": str, "float": float}


@section(quick=2500, require={"call": 120, "partial": 200, "refused": 200})
def generics(ctx, rng):
    """curried generic functions: exact match first, then match with surplus, then partial, else TypeError at once"""
    nm, uid = rng.randrange(1, 4), next(UID)
    meths, log = [], []
    g = None
    for m in range(nm):
        n = rng.randrange(1, 4)
        ps = [("abc"[i], None) for i in range(n)]
        ko = [("k", None)] if rng.random() < 0.2 else []
        sig = Sig([], ps, None, ko, None)
        ann = {p: rng.choice(list(TYPES)) for p, _ in ps + ko}
        f = sig.make(lambda b, m=m: log.append((m, b)) or ("m", m), "g", annots=ann, env=TYPES)
        f.__qualname__, f.__module__ = f"g_{uid}", "vpgen"
        meths.insert(0, (m, sig, ann))
        g = generic(f)
    c = curry(g)
    acc, kacc = [], {}
    want = None
    for step in range(rng.randrange(1, 5)):
        a = [rng.choice([1, "s", 1.5]) for _ in range(rng.choice([0, 1, 1, 2]))]
        k = {"k": rng.choice([1, "s"])} if rng.random() < 0.1 and "k" not in kacc else {}
        acc, kacc = acc + a, {**kacc, **k}
        best = None
        for phase in ("call", "extra", "partial"):
            for m, sig, ann in meths:
                try:
                    bound, unbound, xa, xk = analyse(sig, acc, kacc)
                except RefTypeError:
                    bound = None
                if bound is None:
                    continue
                kind = "partial" if unbound else ("extra" if xa or xk else "call")
                if kind == phase and all(isinstance(v, TYPES[ann[n]]) for n, v in bound.items()):
                    best = (phase, m, bound)
                    earlier = bool(xk) or (xa and len(acc) - len(xa) < len(acc) - len(a))
                    break
            if best:
                break
        if best and best[0] != "call" and earlier:
            ctx.event("out-of-domain")  # surplus with respect to this multimethod came from an earlier step
            return
        ctx.note(methods=[(m, s.source(a)) for m, s, a in meths], acc=acc, kacc=kacc, best=best)
        try:
            r = c(*a, **k)
        except TypeError:
            ctx.event("refused")
            ctx.check(best is None or best[0] == "extra", "TypeError though a multimethod matches")
            ctx.check(len(log) <= (1 if best else 0), "multimethod executed though none matches", log=log)
            break
        ctx.check(best is not None and best[0] != "extra", "accepted though no multimethod can match", got=r)
        if best[0] == "call":
            ctx.event("call")
            ctx.same(log, [(best[1], best[2])], "wrong multimethod or bindings")
            ctx.same(r, ("m", best[1]), "wrong result")
            break
        ctx.event("partial")
        ctx.check(not log and callable(r), "executed too early", log=log)
        c = r
    ctx.seen([(s.source(a)) for m, s, a in meths], [type(x).__name__ for x in acc])


@section(quick=1200, require={"refused": 100, "ok": 100})
def typedpartial(ctx, rng):
    """partial type-checks what it binds"""
    n = rng.randrange(1, 4)
    anns = [rng.choice([None, "int", "str", "T.List[int]", "T.Optional[int]"]) for _ in range(n)]
    sig = Sig([], [("abc"[i], None) for i in range(n)], None, [], None)
    log = []
    f = sig.make(lambda b: log.append(b) or "r", "f", annots={"abc"[i]: a for i, a in enumerate(anns) if a}, env={"T": typing, "int": int, "str": str})
    ok = {None: lambda v: True, "int": lambda v: isinstance(v, int), "str": lambda v: isinstance(v, str),
          "T.List[int]": lambda v: isinstance(v, list) and all(isinstance(x, int) for x in v) and v,
          "T.Optional[int]": lambda v: v is None or isinstance(v, int)}
    p, left = f, list(range(n))
    bound = {}
    while left:
        k = rng.randrange(1, len(left) + 1)
        now, left = left[:k], left[k:]
        vals = [rng.choice([1, "s", [1, 2], ["x"], None]) for _ in now]
        byname = rng.random() < 0.4 and not left
        good = all(ok[anns[i]](v) for i, v in zip(now, vals))
        try:
            if byname:
                p = upartial(p, **{"abc"[i]: v for i, v in zip(now, vals)})
            else:
                p = upartial(p, *vals)
        except TypeError:
            ctx.check(not good, "partial refused well-typed arguments", sig=sig.source(), vals=vals, anns=anns)
            ctx.event("refused")
            return
        ctx.check(good, "partial accepted ill-typed arguments", vals=vals, anns=anns)
        bound.update({"abc"[i]: v for i, v in zip(now, vals)})
    ctx.event("ok")
    ctx.check(not log, "partial called the function")
    ctx.same(p(), "r", "partial result")
    ctx.same(log, [bound], "partial bindings")
    ctx.seen(anns, [type(v).__name__ for v in bound.values()])
