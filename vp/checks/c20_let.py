"""C20: env objects against a dict model per operation history; let/letrec families and do against an interpreter with recorded evaluation order."""
import copy
import pickle
from vp.core import section, outcome
from vp.gen import scalar
from unpythonic.env import env
from unpythonic.assignonce import assignonce
from unpythonic import do, do0, assign
import importlib
klet = importlib.import_module("unpythonic.let")
llet = importlib.import_module("unpythonic.lispylet")

NAMES = ["x", "y", "z", "foo", "_a", "mode", "body", "bindings", "self", "cls", "name", "value", "env", "e", "äö", "k", "_envname", "mapping", "default", "result"]
RESERVED = ["set", "clear", "finalize", "_reserved_names"]
BADNAMES = ["1x", "a b", "", "x-y", "x.y"]
ERR = (AttributeError, ValueError, TypeError, KeyError)

@section(quick=5000, thorough=80000, require={"op": 40000, "refused": 8000, "finalized": 500, "assignonce": 1000, "copies": 500})
def env_history(ctx, rng):
    once = rng.random() < 0.35
    cls = assignonce if once else env
    init = {n: scalar(rng) for n in rng.sample(NAMES, rng.randrange(0, 4))}
    e = cls(**init)
    model, final = dict(init), False
    others = []   # (env, frozen model): must never change
    if once: ctx.event("assignonce")
    ops = []
    names = rng.sample(NAMES, 6)
    def name():
        r = rng.random()
        if r < 0.08: return rng.choice(RESERVED)
        if r < 0.14: return rng.choice(BADNAMES)
        return rng.choice(names + list(init))
    def bad(n): return n in RESERVED or n in BADNAMES
    for _ in range(rng.randrange(3, 25)):
        op = rng.choice(["setattr", "setitem", "getattr", "getitem", "del", "delitem", "in", "iter", "items", "get", "eq", "len", "pop", "pop", "popitem", "clear", "update", "update", "setdefault", "set", "set", "lshift", "finalize", "copy", "repr"])
        if op in ("clear", "finalize", "popitem") and rng.random() < 0.6: continue
        n, v = name(), scalar(rng)
        isid = n not in BADNAMES
        ops.append((op, n, v))
        ctx.note(ops=ops, once=once)
        ctx.event("op")
        old = dict(model)
        err, want, new = None, None, dict(model)
        if op in ("setattr", "setitem"):
            err = bad(n) or (final and n not in model) or (once and n in model)
            if not err: new[n] = v
            got = outcome(setattr, e, n, v) if op == "setattr" else outcome(e.__setitem__, n, v)
        elif op in ("getattr", "getitem"):
            if n in RESERVED: ops.pop(); continue
            err = n not in model
            want = model.get(n)
            got = outcome(getattr, e, n) if op == "getattr" else outcome(lambda: e[n])
        elif op in ("del", "delitem"):
            if n in RESERVED: ops.pop(); continue
            err = final or n not in model
            if not err: del new[n]
            got = outcome(delattr, e, n) if op == "del" else outcome(e.__delitem__, n)
        elif op == "in":
            want, got = n in model, outcome(lambda: n in e)
        elif op == "iter":
            want, got = list(model), outcome(lambda: list(rng.choice([e, e.keys(), list(e)])))
        elif op == "items":
            want, got = (list(model.items()), list(model.values())), outcome(lambda: (list(e.items()), list(e.values())))
        elif op == "get":
            d = rng.choice([None, 42])
            want, got = model.get(n, d), outcome(lambda: e.get(n, d) if d is not None else e.get(n))
        elif op == "eq":
            o = rng.choice([model, {**model, n: v}, cls(**{k: w for k, w in model.items()}), None, 5])
            want = o == model if isinstance(o, dict) else isinstance(o, env)
            got = outcome(lambda: (e == o))
            ctx.check(outcome(lambda: (e != o)) == ("ok", not want) and outcome(lambda: (o == e)) == ("ok", want), "!= or reflected ==")
        elif op == "len":
            want, got = len(model), outcome(len, e)
        elif op == "pop":
            d = rng.choice([(), (None,), (7,)])
            err = final or (n not in model and not d)
            want = model.get(n, *d) if not err else None
            if not err: new.pop(n, None)
            got = outcome(e.pop, n, *d)
        elif op == "popitem":
            err = final or not model
            if not err: want = new.popitem()
            got = outcome(e.popitem)
        elif op == "clear":
            err = final
            if not err: new.clear()
            got = outcome(e.clear)
        elif op == "update":
            upd = {name(): scalar(rng) for _ in range(rng.randrange(0, 4))}
            kw = {m: scalar(rng) for m in rng.sample(names, rng.randrange(0, 2)) if m not in ("self", "mapping")}
            form = rng.choice([lambda: (dict(upd),), lambda: (list(upd.items()),), lambda: (iter(list(upd.items())),), lambda: (env(**{k: w for k, w in upd.items() if not bad(k)}),), lambda: ()])
            args = form()
            if args and isinstance(args[0], env): upd = dict(args[0].items())
            if not args: upd = {}
            allk = {**upd, **kw}
            err = any(bad(m) or (final and m not in model) or (once and m in model) for m in allk)
            if not err: new.update(allk)
            ops[-1] = (op, allk, type(args[0]).__name__ if args else None)
            got = outcome(e.update, *args, **kw)
        elif op == "setdefault":
            err = n not in model and (bad(n) or final)
            if not err: want = new.setdefault(n, v)
            got = outcome(e.setdefault, n, v)
        elif op in ("set", "lshift"):
            err = n not in model
            if not err: new[n] = v
            if op == "set":
                want, got = v, outcome(e.set, n, v)
            else:
                r = outcome(lambda: e << (n, v))
                got = ("ok", r[1] is e) if r[0] == "ok" else r
                want = True
        elif op == "finalize":
            final = True
            got = outcome(e.finalize)
            ctx.event("finalized")
        elif op == "copy":
            c = rng.choice([copy.deepcopy, lambda x: pickle.loads(pickle.dumps(x))])(e)
            ctx.check(type(c) is cls and dict(c.items()) == model and list(c) == list(model), "copy differs", c=c)
            if final: ctx.check(outcome(setattr, c, "brand_new", 1) == ("exc", AttributeError), "a copy of a finalized env accepts new bindings")
            others.append((c, dict(model)))
            ctx.event("copies")
            continue
        elif op == "repr":
            r = repr(e)
            ctx.check(all(f"{k}={w!r}" in r for k, w in model.items()), "repr lacks a binding", r=r)
            continue
        if err:
            ctx.event("refused")
            ctx.check(got[0] == "exc" and issubclass(got[1], ERR), "operation should have been refused", got=got, finalized=final, model=model)
            if isid and n not in RESERVED:
                if op in ("del", "delitem", "pop", "popitem", "clear") and final: ctx.check(got[1] is TypeError, "wrong error for removal from a finalized env", got=got)
                elif op in ("setattr", "setitem", "getattr", "getitem", "set", "lshift", "del", "delitem", "setdefault"): ctx.check(got[1] is AttributeError, "wrong error", got=got)
            elif op in ("getattr", "getitem") or (op in ("setattr", "setitem") and n in BADNAMES and not final): ctx.check(got[1] is ValueError, "wrong error for a non-identifier", got=got)
            new = old
        else:
            ctx.check(got[0] == "ok", "operation failed", got=got, model=model)
            if op not in ("setattr", "setitem", "del", "delitem", "clear", "update", "finalize"):
                ctx.check(got[1] == want and (got[1] is want or type(got[1]) is type(want)), "wrong result", got=got[1], want=want, model=model)
        model = new
        ctx.check(list(e.items()) == list(model.items()) and list(e) == list(model) and len(e) == len(model), "env content differs from the model after the operation", got=list(e.items()), want=list(model.items()))
        for k, w in model.items():
            ctx.check(getattr(e, k) is w or getattr(e, k) == w, "binding reads wrongly", name=k)
    for c, m in others:
        ctx.check(dict(c.items()) == m, "a copy changed along with the original")
    if rng.random() < 0.2:
        m2 = {"x": 1, "y": 2}
        with cls(**m2) as f:
            ctx.check(dict(f.items()) == m2, "with env")
        ctx.check(len(f) == 0 and "x" not in f, "with block exit leaves bindings")
        ctx.check(dict(e.items()) == model, "other env changed")
    ctx.seen("env", once, tuple(o[0] for o in ops))

METHODS = ["items", "keys", "values", "get", "pop", "popitem", "update", "setdefault"]
@section(quick=200, require={"method_names": 200})
def method_names(ctx, rng):
    """A binding named like a method of env is either refused or reads back."""
    n = rng.choice(METHODS)
    e = env()
    how = rng.randrange(3)
    r = outcome([lambda: setattr(e, n, 42), lambda: e.__setitem__(n, 42), lambda: e.update({n: 42})][how])
    ctx.event("method_names")
    if r[0] == "ok":
        ctx.check(getattr(e, n) == 42 and e[n] == 42, "an accepted binding does not read back", name=n)
    else:
        ctx.check(r[1] is AttributeError and len(e) == 0, "refused with effect", r=r)
    r = outcome(lambda: klet.let(lambda e: e[n], **{n: 42}))
    ctx.check(r in (("ok", 42), ("exc", AttributeError)), "let binding with a method's name does not read back", r=r)

# ---------------------------------------------------------------- let forms
class Boom(Exception): pass

def gen_let(rng, ctx, log, recs, depth=0, outer=()):
    """Build (runner, reference) for a random let form. `outer`: list of (env-getter name) of enclosing levels."""

def make_bindings(rng, allow_dup=False):
    names = rng.sample(NAMES, rng.randrange(0, 6))
    if allow_dup and names and rng.random() < 0.15: names.insert(rng.randrange(len(names) + 1), rng.choice(names))
    if allow_dup and rng.random() < 0.08: names.insert(rng.randrange(len(names) + 1), rng.choice(RESERVED + BADNAMES[:2]))
    return names

@section(quick=6000, thorough=90000, require={"let": 2000, "letrec": 2000, "initializer": 5000, "body_ops": 15000, "errors": 700, "persist": 900, "closures": 1000})
def let_forms(ctx, rng):
    syntax = rng.choice(["kw", "lispy"])
    rec = rng.random() < 0.5
    form = rng.choice(["let", "let", "dlet", "blet"])
    mod = klet if syntax == "kw" else llet
    fname = {"let": "let", "dlet": "dlet", "blet": "blet"}[form] + ("rec" if rec else "")
    fun = getattr(mod, fname)
    names = make_bindings(rng, allow_dup=syntax == "lispy")
    if syntax == "kw":
        names = [n for n in names if not (form == "let" and n == "body")]
    log, wlog = [], []
    specs = []
    for n in names:
        k = rng.choice(["value", "const", "read", "read", "thunk", "counter", "boom", "badarity", "closure"]) if rec else rng.choice(["value", "value", "callable"])
        if k in ("boom", "badarity") and rng.random() < 0.7: k = "const"
        specs.append((n, k, rng.choice(NAMES[:8] + names), rng.randrange(100)))
    vals = []
    for n, k, r, c in specs:
        if k == "value": v = c
        elif k == "callable": v = (lambda *a, n=n: log.append(("called", n)))   # plain let must not call it
        elif k == "const": v = (lambda e, n=n, c=c: (log.append(("init", n, dict(e.items()))), c)[1])
        elif k == "read": v = (lambda e, n=n, r=r: (log.append(("init", n, dict(e.items()))), (e[r] if r in e else e[r]), (r, "seen"))[2])
        elif k == "counter": v = (lambda e, n=n: (log.append(("init", n, dict(e.items()))), len(e))[1])
        elif k == "thunk": v = (lambda e=None, *rest, n=n, c=c: (log.append(("init", n, dict(e.items()))), c)[1])
        elif k == "closure": v = (lambda e, n=n, r=r: (log.append(("init", n, dict(e.items()))), lambda: e[r])[1])
        elif k == "boom":
            def v(e, n=n):
                log.append(("init", n, dict(e.items())))
                raise Boom(n)
        else: v = rng.choice([lambda: 1, lambda a, b: 1])
        vals.append(v)
    # reference
    def reference():
        m = {}
        for (n, k, r, c), v in zip(specs, vals):
            if n in m: return ("exc", AttributeError), m
            if not rec or k == "value": x = v
            elif k == "badarity": return ("exc", TypeError), m
            else:
                wlog.append(("init", n, dict(m)))
                if k == "boom": return ("exc", Boom), m
                if k == "read":
                    if r in BADNAMES: return ("exc", ValueError), m
                    if r not in m and r not in RESERVED: return ("exc", AttributeError), m
                    x = (r, "seen")
                elif k == "counter": x = len(m)
                elif k == "closure": x = None   # filled below
                else: x = c
            if n in RESERVED: return ("exc", AttributeError), m
            if n in BADNAMES: return ("exc", ValueError), m
            m[n] = x
        return ("ok", None), m
    want, m = reference()
    bind = dict(zip(names, vals)) if syntax == "kw" else (lambda L: rng.choice([L, tuple(L), tuple(map(list, L))]))(list(zip(names, vals)))
    ctx.note(form=fname, syntax=syntax, specs=specs)
    ctx.event("letrec" if rec else "let")
    # wlog holds closures as None: normalize
    def norm(L): return [(a, b, {k: (None if callable(v) else v) for k, v in d.items()}) if a == "init" else (a, b) for a, b, *rest in L for d in (rest or [{}])]
    # body: random operations on the env, against the model
    bodyops = []
    for _ in range(rng.randrange(0, 7)):
        bodyops.append((rng.choice(["read", "set", "attr", "new", "del", "lshift", "closure"]), rng.choice(NAMES[:8] + names), rng.randrange(1000)))
    envs, getters = [], []
    def run_ops(e, model, ops):
        for op, n, c in ops:
            ctx.event("body_ops")
            if n in RESERVED or n in BADNAMES: continue
            if op == "read":
                r = outcome(getattr, e, n)
                if n in model: ctx.check(r[0] == "ok" and (callable(r[1]) or r[1] == model[n]), "a let variable reads a wrong value", name=n, got=r, want=model.get(n))
                else: ctx.check(r == ("exc", AttributeError), "an unbound name reads", name=n, got=r)
            elif op in ("set", "attr", "lshift", "new"):
                if op == "set": r = outcome(e.set, n, c)
                elif op == "lshift": r = outcome(lambda: e << (n, c))
                else: r = outcome(setattr, e, n, c)
                if n in model:
                    ctx.check(r[0] == "ok" and (op != "set" or r[1] == c), "assignment to a let variable failed", got=r)
                    model[n] = c
                else: ctx.check(r == ("exc", AttributeError), "a new name was bound in a let environment", name=n, got=r)
            elif op == "del":
                r = outcome(delattr, e, n)
                ctx.check(r == ("exc", TypeError), "a let variable was deleted", got=r)
            else:
                getters.append((lambda: e[n] if n in e else "unbound", lambda: model.get(n, "unbound")))
        ctx.check(list(e) == list(model), "wrong set or order of let variables", got=list(e), want=list(model))
    calls = [0]
    def body(e):
        calls[0] += 1
        envs.append(e)
        ctx.check(norm(log) == norm(wlog), "initializers: wrong evaluation order, count or environment", got=norm(log), want=norm(wlog))
        run_ops(e, m, bodyops)
        return ("result", calls[0])
    if form == "let":
        r = outcome(lambda: fun(body, **bind) if syntax == "kw" and rng.random() < 0.5 else fun(body=body, **bind) if syntax == "kw" else fun(bind, body))
        if want[0] == "exc":
            ctx.event("errors")
            ctx.check(r == want and calls[0] == 0, "wrong error", got=r, want=want)
            ctx.check(norm(log) == norm(wlog), "initializers after the failing one ran", got=log, want=wlog)
        else:
            ctx.check(r == ("ok", ("result", 1)) and calls[0] == 1, "let: wrong result or body not run exactly once", got=r, calls=calls[0])
        if want[0] == "ok" and rng.random() < 0.3:   # invalid bodies
            for bb in (lambda: 1, lambda a, b: 1, 42, "x"):
                ctx.check(outcome(lambda: fun(bb, **bind) if syntax == "kw" else fun(bind, bb))[0] == "exc", "invalid body accepted", body=bb)
            ctx.event("errors")
    else:
        def target(*args, env, **kwargs):
            return (body(env), args, kwargs)
        r = outcome(lambda: fun(**bind) if syntax == "kw" else fun(bind))
        ctx.check(r[0] == "ok" and not log, "making the decorator evaluated something", got=r)
        deco = r[1]
        if form == "blet":
            r = outcome(deco, target)
            if want[0] == "exc":
                ctx.event("errors")
                ctx.check(r == want, "wrong error", got=r, want=want)
            else: ctx.check(r == ("ok", (("result", 1), (), {})) and calls[0] == 1, "blet: wrong result", got=r)
        else:
            r = outcome(deco, target)
            if want[0] == "exc":
                ctx.event("errors")
                ctx.check(r == want and calls[0] == 0, "wrong error", got=r, want=want)
            else:
                f = r[1]
                ctx.check(f.__name__ == "target" and calls[0] == 0, "dlet called the body at decoration")
                k = rng.randrange(1, 4)
                for i in range(k):
                    a, kw = tuple(range(rng.randrange(3))), {n: i for n in rng.sample(["p", "q", "bindings", "body"], rng.randrange(2))}
                    r = f(*a, **kw)
                    ctx.check(r == (("result", i + 1), a, kw), "dlet: wrong result or arguments", got=r)
                    ctx.event("persist")
                ctx.check(len({id(x) for x in envs}) <= 1, "environment of dlet does not persist")
                if rng.random() < 0.4:   # the same decorator on another function: independent environment
                    seen2 = []
                    g = deco(lambda *, env: (seen2.append(env), dict(env.items()))[1])
                    d2 = g()
                    w2 = reference()[1]
                    norm2 = lambda d: {k: None if callable(v) else v for k, v in d.items()}
                    ctx.check(norm2(d2) == norm2(w2) and (not envs or seen2[0] is not envs[0]), "two functions decorated by one dlet share an environment or see each other's changes", got=d2, want=w2)
    for get, wantf in getters:
        w = wantf()
        g = get()
        ctx.event("closures")
        ctx.check(g == w or callable(g), "a closure over the let environment reads a wrong value", got=g, want=w)
    ctx.check(not any(x[0] == "called" for x in log), "plain let called a callable value")
    ctx.event("initializer", len([x for x in log if x[0] == "init"]))
    ctx.seen(fname, syntax, tuple(k for _, k, _, _ in specs), tuple(o[0] for o in bodyops))

@section(quick=2500, thorough=40000, require={"nest": 2000, "reads": 10000})
def nested(ctx, rng):
    """Nested lets of both syntaxes; closures over several levels called in random order against one dict per level."""
    depth = rng.randrange(2, 5)
    acts = []
    ctx.event("nest")
    plan = [(rng.choice(["kw", "lispy"]), rng.random() < 0.5, rng.sample(NAMES[:6], rng.randrange(1, 4))) for _ in range(depth)]
    ctx.note(plan=plan)
    def level(i, envs, models):
        if i == depth: return envs, models
        syntax, rec, names = plan[i]
        mod = klet if syntax == "kw" else llet
        f = mod.letrec if rec else mod.let
        base = {n: rng.randrange(1000) for n in names}
        # a recursive function value that reads the env it is defined in, and an outer one
        if rec: binds = {n: (lambda e, n=n: base[n]) for n in names}
        else: binds = dict(base)
        def body(e):
            m = dict(base)
            for j, (pe, pm) in enumerate(zip(envs, models)):
                for k in pm: ctx.check(pe[k] == pm[k], "an outer let variable changed by an inner let", level=j)
            return level(i + 1, envs + [e], models + [m])
        return f(body, **binds) if syntax == "kw" else f(list(binds.items()), body)
    envs, models = level(0, [], [])
    for _ in range(12):
        i = rng.randrange(depth)
        n = rng.choice(NAMES[:6])
        if rng.random() < 0.4 and n in models[i]:
            v = rng.randrange(1000)
            envs[i].set(n, v); models[i][n] = v
        for e, m in zip(envs, models):
            ctx.event("reads")
            ctx.check((e[n] if n in e else None) == m.get(n), "levels are not independent", name=n, plan=plan)
    ctx.seen(tuple((a, b, len(c)) for a, b, c in plan))

@section(quick=400, require={"evenodd": 400})
def mutual(ctx, rng):
    n = rng.randrange(0, 60)
    ctx.event("evenodd")
    r = klet.letrec(evenp=lambda e: lambda x: (x == 0) or e.oddp(x - 1), oddp=lambda e: lambda x: (x != 0) and e.evenp(x - 1), body=lambda e: e.evenp(n))
    r2 = llet.letrec((("evenp", lambda e: lambda x: (x == 0) or e.oddp(x - 1)), ("oddp", lambda e: lambda x: (x != 0) and e.evenp(x - 1))), lambda e: e.evenp(n))
    ctx.check(r == r2 == (n % 2 == 0), "mutually recursive letrec", n=n, r=(r, r2))
    ctx.seen(n)

# ---------------------------------------------------------------- do
@section(quick=5000, thorough=80000, require={"do": 2000, "do0": 1500, "assign": 5000, "errors": 400})
def do_forms(ctx, rng):
    first = rng.random() < 0.4
    f = do0 if first else do
    log, want = [], []
    items, spec = [], []
    m = {}
    vals = []
    err = None
    names = rng.sample(NAMES, 4)
    for i in range(rng.randrange(1, 8)):
        k = rng.choice(["value", "fn", "assign", "assign", "assignfn", "assignfn", "read", "callable", "set", "boom" if rng.random() < 0.15 else "fn", "badarity" if rng.random() < 0.2 else "value"])
        n, c = rng.choice(names), rng.randrange(100)
        spec.append((k, n, c))
        snap = lambda e: {a: b for a, b in e.items() if a != "_do0_result"}
        v = w = None
        if k == "value": v, w = c, c
        elif k == "fn": v = (lambda e, i=i: (log.append((i, snap(e))), ("r", i))[1]); w = ("r", i)
        elif k == "assign": v, w = assign(**{n: c}), c
        elif k == "assignfn": v = assign(**{n: (lambda e, i=i: (log.append((i, snap(e))), ("a", i))[1])}); w = ("a", i)
        elif k == "read": v = (lambda e, i=i, n=n: (log.append((i, snap(e))), e[n])[1])
        elif k == "callable": v = assign(**{n: lambda e, i=i: (log.append((i, snap(e))), lambda: i)[1]}); w = "callable"
        elif k == "set": v = (lambda e, i=i, n=n, c=c: (log.append((i, snap(e))), e.set(n, c))[1])
        elif k == "boom":
            def v(e, i=i):
                log.append((i, snap(e))); raise Boom()
        else: v = rng.choice([lambda: 3, lambda a, b: 3])
        items.append(v)
        if err is None:
            if k in ("fn", "assignfn", "read", "callable", "set", "boom"): want.append((i, dict(m)))
            if k == "read":
                if n not in m: err = AttributeError
                else: w = m[n]
            elif k == "set":
                if n not in m: err = AttributeError
                else: m[n] = w = c
            elif k == "boom": err = Boom
            elif k == "badarity": err = ValueError
            if err is None:
                if k in ("assign", "assignfn", "callable"): m[n] = w
                vals.append(w)
    ctx.note(spec=spec, first=first)
    r = outcome(f, *items)
    ctx.event("do0" if first else "do")
    ctx.event("assign", sum(k.startswith("assign") for k, _, _ in spec))
    nrm = lambda L: [(i, {k: "callable" if callable(v) else v for k, v in d.items()}) for i, d in L]
    ctx.check(nrm(log) == nrm(want), "do: wrong order, count or environment of evaluations", got=nrm(log), want=nrm(want))
    if err:
        ctx.event("errors")
        ctx.check(r == ("exc", err), "do: wrong error", got=r, want=err)
    else:
        w = vals[0] if first else vals[-1]
        ctx.check(r[0] == "ok" and (r[1] == w or (w == "callable" and callable(r[1]))), "do: wrong value", got=r, want=w)
    ctx.seen(first, tuple((k, n) for k, n, _ in spec))
