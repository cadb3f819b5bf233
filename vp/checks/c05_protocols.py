"""C05: error/cerror/warn/resignal protocols: random scenarios against a reference model."""
import warnings
from vp.core import section, Violation
from unpythonic import (signal, handlers, restarts, invoke, use_value, invoker, proceed, muffle, error, cerror, warn,
                        resignal, resignal_in, unbox, available_handlers, available_restarts)
from unpythonic.conditions import ControlError


class L0(Exception): pass
class L0a(L0): pass
class L0b(L0): pass
class L0w(UserWarning): pass
class L1(Exception): pass
class L1a(L1): pass
class L1w(DeprecationWarning): pass
class L2(Exception): pass
class L2w(L0w): pass          # a level-2 type which is also an instance of a level-0 one is not used in mappings
class L3(Exception): pass
class Boom(Exception): pass
LEVELS = [[L0, L0a, L0b, L0w], [L1, L1a, L1w], [L2]]
OUT = [[L1, L1a, L1w], [L2], [L3]]
ALL = [L0, L0a, L0b, L0w, L1, L1a, L1w, L2, L3]
PROTOS = {"signal": signal, "error": error, "cerror": cerror, "warn": warn}
RNAMES = ["use_value", "proceed", "muffle", "other"]
ACTS = ["decline"] * 5 + ["use_value", "proceed", "muffle", "other", "nosuch", "raise", "invproceed", "invmuffle"]


def gen(rng):
    layers = []
    for _ in range(rng.randrange(1, 7)):
        k = rng.random()
        if k < 0.45:
            layers.append(("h", [(rng.choice(ALL + [Exception, BaseException, Warning, (L0a, L1a), (L0w, L1w), ControlError]), rng.choice(ACTS)) for _ in range(rng.randrange(1, 3))]))
        elif k < 0.75:
            m = []
            for _ in range(rng.randrange(1, 4)):
                lv = rng.randrange(3)
                key = rng.choice(LEVELS[lv])
                if rng.random() < 0.25:
                    key = tuple(rng.sample(LEVELS[lv], min(2, len(LEVELS[lv]))))
                m.append((key, rng.choice(OUT[rng.randrange(lv, 3)]), rng.random() < 0.3))
            layers.append(("resignal", m, rng.random() < 0.5))
        else:
            layers.append(("restarts", rng.sample(RNAMES, rng.randrange(1, 4))))
    return {"layers": layers, "proto": rng.choice(list(PROTOS)), "cond": rng.choice(ALL[:7]), "cls": rng.random() < 0.4,
            "cause": rng.choice([None, None, KeyError, "inst"])}


class Ref:
    class Unwind(Exception):
        def __init__(self, uid, name): self.uid, self.name = uid, name
    class UserExc(Exception):
        pass
    class CE(Exception):
        def __init__(self, cause): self.cause = cause
    def __init__(self, p):
        self.p, self.log, self.warned, self.uid, self.ev = p, [], [], 0, {}
    def e(self, k): self.ev[k] = self.ev.get(k, 0) + 1
    def run(self):
        try:
            r = self.layer(0, [], [])
            return ("ret", r)
        except self.UserExc:
            return ("exc", "Boom")
        except self.CE as e:
            return ("ControlError", e.cause)
    def layer(self, i, hs, rs):
        if i == len(self.p["layers"]):
            cause = self.p["cause"]
            cause = () if cause is None else ("KeyError",)
            self.proto(self.p["proto"], self.p["cond"], cause, hs, rs)
            self.log.append("after")
            return "normal"
        la = self.p["layers"][i]
        if la[0] == "h":
            return self.layer(i + 1, [("h", i, la[1])] + hs, rs)
        if la[0] == "resignal":
            return self.layer(i + 1, [("resignal", i, la[1])] + hs, rs)
        try:
            return self.layer(i + 1, hs, [(i, la[1])] + rs)
        except self.Unwind as u:
            if u.uid != i:
                raise
            self.log.append(("restart", i, u.name))
            return (i, u.name)
    def proto(self, p, ctype, chain, hs, rs):
        """chain = names of the causes, innermost cause first"""
        self.e(p)
        if p == "signal":
            return self.fire(p, ctype, chain, hs, rs)
        if p == "error":
            self.fire(p, ctype, chain, hs, rs)
            raise self.CE((ctype.__name__,) + chain)
        self.uid -= 1
        uid = self.uid
        if p == "cerror":
            try:
                self.fire(p, ctype, chain, hs, [(uid, ["proceed"])] + rs)
            except self.Unwind as u:
                if u.uid == uid:
                    self.e("proceeded")
                    return
                raise
            raise self.CE((ctype.__name__,) + chain)
        try:
            self.fire(p, ctype, chain, hs, [(uid, ["muffle"])] + rs)
        except self.Unwind as u:
            if u.uid == uid:
                self.e("muffled")
                return
            raise
        self.warned.append(ctype.__name__ if issubclass(ctype, Warning) else "Warning")
    def fire(self, p, ctype, chain, hs, rs):
        for kind, i, body in hs:
            if kind == "h":
                for j, (spec, act) in enumerate(body):
                    if issubclass(ctype, spec):
                        self.log.append(("h", i, j, ctype.__name__, chain, p))
                        if ctype is not ControlError:   # handlers decline refusals of their own invocations
                            self.act(act, hs, rs)
            else:
                for key, out, inst in body:
                    if issubclass(ctype, key):
                        self.e("converted")
                        self.proto(p, out, (ctype.__name__,) + chain, hs, rs)
                        break
    def act(self, act, hs, rs):
        if act == "decline":
            return
        if act == "raise":
            raise self.UserExc()
        name = {"invproceed": "proceed", "invmuffle": "muffle"}.get(act, act)
        for uid, names in rs:
            if name in names:
                raise self.Unwind(uid, name)
        self.e("nosuch")
        # the refusal is itself signaled as an error; our handlers may see it
        self.fire("error", ControlError, (), hs, rs)
        raise self.CE(("ControlError",))


def chain_of(c):
    out = []
    c = c.__cause__
    while c is not None:
        out.append(type(c).__name__)
        c = c.__cause__
    return tuple(out)


class Real:
    def __init__(self, p, ctx):
        self.p, self.log, self.ctx, self.depth = p, [], ctx, 0
        self.instances = {}
    def run(self):
        try:
            return ("ret", self.layer(0))
        except Boom:
            return ("exc", "Boom")
        except ControlError as e:
            c = e.__cause__
            return ("ControlError", (type(c).__name__,) + chain_of(c) if c is not None else None)
    def handler(self, i, j, act):
        def h(c):
            self.depth += 1
            try:
                if self.depth > 40:
                    raise RecursionError("handlers recursing")
                self.log.append(("h", i, j, type(c).__name__, chain_of(c), c.__protocol__.__name__))
                if isinstance(c, ControlError): return
                if c.__traceback__ is None:
                    raise Violation("signaled condition carries no traceback")
                if act == "raise": raise Boom()
                if act == "use_value": use_value(i, j, key=act)
                if act == "proceed": proceed(c)
                if act == "muffle": muffle(c)
                if act == "invproceed": invoker("proceed")(c)
                if act == "invmuffle": invoke("muffle")
                if act in ("other", "nosuch"): invoke(act)
            finally:
                self.depth -= 1
        return h
    def layer(self, i):
        if i == len(self.p["layers"]):
            cond = self.p["cond"]
            c = cond if self.p["cls"] else cond("msg")
            cause = {None: None, KeyError: KeyError, "inst": KeyError("k")}[self.p["cause"]]
            f = PROTOS[self.p["proto"]]
            r = f(c, cause=cause) if cause is not None else f(c)
            if self.p["proto"] == "signal":
                if not isinstance(r, cond) or (not self.p["cls"] and r is not c):
                    raise Violation(f"signal returned {r!r} for {c!r}")
            elif r is not None:
                raise Violation(f"{self.p['proto']} returned {r!r}")
            self.log.append("after")
            return "normal"
        la = self.p["layers"][i]
        if la[0] == "h":
            with handlers(*[(s, self.handler(i, j, act)) for j, (s, act) in enumerate(la[1])]):
                return self.layer(i + 1)
        if la[0] == "resignal":
            m = {}
            for key, out, inst in la[1]:
                m.setdefault(key, out("converted") if inst else out)
            if la[2]:
                with resignal(m):
                    return self.layer(i + 1)
            return resignal_in(lambda: self.layer(i + 1), m)
        def mk(n):
            def r(*a, **k):
                self.log.append(("restart", i, n))
                if n == "use_value" and not (len(a) == 2 and k == {"key": "use_value"}):
                    raise Violation(f"use_value restart got {a} {k}")
                return (i, n)
            return r
        with restarts(**{n: mk(n) for n in la[1]}) as b:
            b << self.layer(i + 1)
        return unbox(b)


@section(quick=8000, require={"converted": 800, "error": 800, "cerror": 800, "warn": 800, "proceeded": 40, "muffled": 40, "nosuch": 200})
def scenario(ctx, rng):
    p = gen(rng)
    # duplicate keys collapse in a dict (first one kept here)
    for la in p["layers"]:
        if la[0] == "resignal":
            seen, keep = set(), []
            for e in la[1]:
                if e[0] not in seen:
                    seen.add(e[0]); keep.append(e)
            la[1][:] = keep
    ctx.note(scenario=p)
    ref = Ref(p)
    want = ref.run()
    real = Real(p, ctx)
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        got = real.run()
    for k, v in ref.ev.items():
        ctx.event(k, v)
    ctx.seen(p)
    ctx.sample((p, real.log, got))
    ctx.same(real.log, ref.log, "trace differs from the protocol model", scenario=p)
    ctx.same(got, want, "outcome differs from the protocol model", scenario=p)
    ctx.same([w.category.__name__ for w in ws], ref.warned, "warnings emitted differ", scenario=p)
    for w in ws:
        if issubclass(w.category, (L0w, L1w)) and not isinstance(w.message, w.category):
            ctx.violate("warning message is not the condition instance", scenario=p)
    if p["proto"] == "warn" and "after" in real.log and ws and not any(l[0] == "resignal" for l in p["layers"]):
        ctx.check(ws[0].filename == __file__, "warning is not attributed to the caller of warn", filename=ws[0].filename)
        want_msg = str(p["cond"]() if p["cls"] else p["cond"]("msg"))
        ctx.same(str(ws[0].message), want_msg, "warning text is not str(condition)")
    ctx.check(available_restarts() == [] and available_handlers() == [], "scopes left behind")


@section(quick=600, require={"exact": 100})
def instance(ctx, rng):
    """a mapping to an exception instance signals exactly that instance; others pass untouched, causes chained"""
    p = rng.choice(["signal", "error", "cerror", "warn"])
    inst = L1w("x") if p == "warn" else L1("x")
    got = []
    orig = rng.choice([L0a, L2, L0b])("o")
    def body():
        with restarts(use_value=lambda v: v) as b:
            PROTOS[p](orig)
            b << "normal"
        return unbox(b)
    m = {(L0a, L0b): inst}
    def take(c):
        got.append(c)
        use_value(7)
    with handlers((BaseException, take)):
        if rng.random() < 0.5:
            r = resignal_in(body, m)
        else:
            with resignal(m):
                r = body()
    ctx.same(r, 7, "restart value lost")
    ctx.event("exact")
    ctx.seen(p, type(orig), type(inst))
    if isinstance(orig, (L0a, L0b)):
        ctx.check(got[0] is inst, "the given instance is not the one signaled", got=got)
        ctx.check(inst.__cause__ is orig, "original condition is not the cause", cause=inst.__cause__)
        ctx.check(inst.__protocol__ is PROTOS[p], "protocol not kept", proto=inst.__protocol__)
    else:
        ctx.check(got[0] is orig and len(got) == 1, "a condition outside the mapping was touched", got=got)


@section(quick=400)
def custom(ctx, rng):
    """user-defined protocols on top of signal survive resignaling"""
    calls = []
    def myproto(cond, *, cause=None):
        calls.append((cond if isinstance(cond, type) else type(cond), None if cause is None else type(cause)))
        r = signal(cond, cause=cause, protocol=myproto)
        return ("unhandled", type(r))
    with resignal({L0: L1, (L0w,): L1w}):
        c = rng.choice([L0, L0a, L0b, L0w, L2])
        inst = c() if rng.random() < 0.5 else c
        seen = []
        with resignal({L1: L2}) if rng.random() < 0.5 else handlers((BaseException, lambda c: seen.append(c))):
            r = myproto(inst)
    ctx.same(r, ("unhandled", c), "custom protocol result")
    if issubclass(c, L0):
        ctx.same(calls[1], (L1, c), "custom protocol not used for the converted signal", calls=calls)
    elif c is L0w:
        ctx.same(calls[1], (L1w, c), "custom protocol not used for the converted signal", calls=calls)
    else:
        ctx.same(len(calls), 1, "unmapped condition converted", calls=calls)
    ctx.seen(c, isinstance(inst, type), len(calls))
