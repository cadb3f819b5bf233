"""C12: isoftype against an independent membership reference."""
import collections
import typing
import warnings
from vp.core import section
from vp import types as ty
from unpythonic.typecheck import isoftype

warnings.simplefilter("ignore", DeprecationWarning)


def kinds(s):
    out = [s.kind]
    for a in s.args:
        if isinstance(a, ty.Spec): out += kinds(a)
    return out


@section(quick=40000, require={"match": 8000, "mismatch": 8000})
def member(ctx, rng):
    s, v = ty.case(rng, rng.choice([0, 1, 1, 2, 2, 3]))
    r0 = repr(v)
    got = isoftype(v, s.T)
    want = s.ok(v)
    ctx.check(got is want, "isoftype gives the wrong answer", spec=s, T=s.T, value=v, got=got, want=want)
    ctx.event("match" if got else "mismatch")
    for k in set(kinds(s)): ctx.event("kind:" + k)
    ctx.check(repr(v) == r0, "isoftype modified the value", before=r0, after=v)
    ctx.seen(s, type(v).__name__, got)


@section(quick=4000, require={"match": 500, "mismatch": 500})
def nearmiss(ctx, rng):
    """deep container where exactly one leaf is wrong"""
    depth = rng.randrange(1, 5)
    leafT = rng.choice([int, str, float])
    bad = {int: "s", str: 3, float: None}[leafT]
    good = {int: 7, str: "q", float: 0.5}[leafT]
    s = ty.Spec("class", leafT)
    wrong = rng.random() < 0.5
    def grow(s, d, dobad):
        if d == 0: return bad if dobad else good
        n = rng.randrange(1, 4) if rng.random() < 0.8 else rng.randrange(4, 14)
        where = rng.randrange(n) if dobad else -1
        return [grow(s, d - 1, i == where) for i in range(n)]
    v = grow(s, depth, wrong)
    def wrap(v, d):
        if d == 0: return v
        xs = [wrap(x, d - 1) for x in v]
        return layers[d - 1][1](xs)
    layers = []
    for d in range(depth):
        k = rng.choice(["List", "TupleHomo", "Sequence", "MutableSequence", "Deque", "Dict", "Mapping", "Tuple2", "ValuesView", "ItemsView", "AbstractSet", "KeysView", "MutableMapping"])
        if k == "Dict": layers.append((lambda t: ty.Spec("Dict", ty.Spec("class", int), t), lambda xs: dict(enumerate(xs))))
        elif k == "Mapping": layers.append((lambda t: ty.Spec("Mapping", ty.Spec("class", str), t), lambda xs: ty.RO({str(i): x for i, x in enumerate(xs)})))
        elif k == "Tuple2": layers.append((lambda t: ty.Spec("Tuple", ty.Spec("class", str), ty.Spec("List", t)), lambda xs: ("h", xs)))
        elif k == "ValuesView": layers.append((lambda t: ty.Spec("ValuesView", t), lambda xs: dict(enumerate(xs)).values()))
        elif k == "ItemsView": layers.append((lambda t: ty.Spec("ItemsView", ty.Spec("class", int), t), lambda xs: dict(enumerate(xs)).items()))
        elif k == "MutableMapping": layers.append((lambda t: ty.Spec("MutableMapping", ty.Spec("class", int), t), lambda xs: ty.MyDict(enumerate(xs))))
        elif k in ("AbstractSet", "KeysView") and d == 0: layers.append((lambda t, k=k: ty.Spec(k, t), lambda xs: dict.fromkeys(xs).keys()))
        else:
            if k in ("AbstractSet", "KeysView"): k = "List"
            c = {"List": list, "TupleHomo": tuple, "Sequence": ty.ROSeq, "MutableSequence": list, "Deque": collections.deque}[k]
            layers.append((lambda t, k=k: ty.Spec(k, t), c))
    for mk, _ in layers: s = mk(s)
    v = wrap(v, depth)
    got = isoftype(v, s.T)
    ctx.check(got is (not wrong), "isoftype overlooks (or imagines) a wrong leaf", spec=s, value=v, got=got)
    ctx.event("match" if got else "mismatch")
    ctx.seen(s, wrong)


@section(quick=1500, require={"refused": 400, "iterator": 400})
def unsupported(ctx, rng):
    if rng.random() < 0.5:
        T = rng.choice(ty.UNSUPPORTED)
        v = ty.anyvalue(rng)
        if rng.random() < 0.3 and 'ClassVar' not in str(T) and 'NoReturn' not in str(T):
            T, v = typing.List[T], [v]
        try:
            r = isoftype(v, T)
        except NotImplementedError:
            ctx.event("refused")
            ctx.seen(str(T))
        else:
            ctx.violate("answered for an unsupported type specification", T=T, value=v, got=r)
    else:
        it = iter([1, 2, 3])
        for T in (typing.Iterator, typing.Iterable, typing.Any, typing.Sized, typing.Optional[typing.Iterator], typing.Sequence[int]):
            got = isoftype(it, T)
            ctx.same(got, T not in (typing.Sized, typing.Sequence[int]), "iterator", T=T)
        ctx.same(list(it), [1, 2, 3], "isoftype consumed the iterator")
        ctx.event("iterator")
