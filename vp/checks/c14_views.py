"""C14: sequence views, functional updates and slice arithmetic against a shadow list."""
import array
import collections
import itertools
import operator
from vp.core import section, short
from vp.gen import scalar
from unpythonic import view, roview, ShadowedSequence, fup, fupdate, in_slice, index_in_slice, imemoize, fimemoize, gmemoize, frozendict
from unpythonic.collections import SequenceView, MutableSequenceView

NT = collections.namedtuple("NT", "p q r")


def rslice(rng, n, steps=(1, 1, 1, 2, 3, -1, -1, -2, -3, None)):
    lim = n + 2
    b = lambda: rng.choice([None, rng.randint(-lim, lim), rng.randint(-lim, lim), rng.randint(0, lim)])
    return slice(b(), b(), rng.choice(steps))


def select(data, slices):
    for s in slices:
        data = data[s]
    return list(data)


class MySeq(collections.abc.MutableSequence):
    """a user-defined mutable sequence"""
    def __init__(self, it=()): self.d = list(it)
    def __getitem__(self, k): return MySeq(self.d[k]) if isinstance(k, slice) else self.d[k]
    def __setitem__(self, k, v): self.d[k] = v
    def __delitem__(self, k): del self.d[k]
    def __len__(self): return len(self.d)
    def insert(self, i, v): self.d.insert(i, v)
    def __repr__(self): return f"MySeq({self.d})"


def err(f):
    try:
        f()
    except Exception as e:
        return type(e).__name__
    return None


def agree(ctx, rng, v, model, what):
    """v must look like the list `model` through its whole API"""
    n = len(model)
    ctx.event("observed")
    ctx.same(len(v), n, what + ": len")
    ctx.same(list(v), model, what + ": iteration")
    ctx.same(list(reversed(v)), model[::-1], what + ": reversed")
    for k in (rng.randint(-n - 2, n + 1) for _ in range(3)):
        try:
            got = v[k]
        except IndexError:
            ctx.check(not -n <= k < n, what + ": IndexError for a valid index", k=k, n=n)
        else:
            ctx.check(-n <= k < n, what + ": no IndexError", k=k, n=n)
            ctx.check(got is model[k] or got == model[k], what + ": item", k=k, got=got, want=model[k])
    ctx.check(v == model and not v != model, what + ": equality with an equal list", v=list(v))
    ctx.check(not v == model + [0] and v != model + [0], what + ": equality with a longer list")
    if n:
        m2 = list(model)
        m2[rng.randrange(n)] = object()
        ctx.check(not v == m2, what + ": equality with a different list")
        x = rng.choice(model)
        ctx.check(x in v, what + ": membership")
        ctx.same(v.index(x), model.index(x), what + ": index")
        ctx.same(v.count(x), model.count(x), what + ": count")
    ctx.check(object() not in v, what + ": membership of a foreign object")
    if not isinstance(v, ShadowedSequence):
        ctx.same(err(lambda: v[0, 1]), "TypeError", what + ": multidimensional subscript")


@section(quick=2500, require={"observed": 8000, "write": 2000, "resize": 1500, "self-assign": 150})
def views(ctx, rng):
    n = rng.randrange(0, 12)
    base = [rng.randrange(100) for _ in range(n)]
    kind = rng.choice(["list", "list", "list", "MySeq", "bytearray", "array", "deque"])
    data = {"list": list, "MySeq": MySeq, "bytearray": bytearray, "array": lambda x: array.array("i", x), "deque": collections.deque}[kind](base)
    shadow = list(base)
    cls = view if rng.random() < 0.7 else roview
    views = []      # (view, parent-slices, writable)
    def mk():
        if views and rng.random() < 0.6:
            p, sl, _ = rng.choice(views)
            s = rslice(rng, max(len(p), 2))
            if rng.random() < 0.3:
                c = rng.choice([view, roview])
                if c is view and type(p) is roview:
                    ctx.same(err(lambda: view(p, s)), "TypeError", "writable view of a read-only view")
                    ctx.event("refused")
                    c = roview
                v = c(p, s)
            else:
                v = p[s]
            ctx.check(isinstance(v, SequenceView), "slice of a view is a view", got=v)
            views.append((v, sl + [s], isinstance(v, view)))
        else:
            s = rslice(rng, max(n, 2))
            v = cls(data, s) if rng.random() < 0.5 else cls(data)[s]
            views.append((v, [s], cls is view))
            ctx.check(type(v) is cls, "type of a slice of a view", got=type(v))
    for _ in range(rng.randrange(1, 4)):
        mk()
    ctx.note(data=base, kind=kind, views=[(type(v).__name__, sl) for v, sl, w in views])
    hist = []
    ctx.note(history=hist)
    for step in range(rng.randrange(3, 10)):
        op = rng.choice(["write", "write", "slice", "slice", "scalar", "reverse", "resize", "resize", "data", "new", "self"])
        i = rng.randrange(len(views))
        v, sl, w = views[i]
        idx = select(range(len(shadow)), sl)   # positions the view selects now
        hist.append((op, i))
        before = list(shadow)
        if op == "new":
            if len(views) < 6: mk()
        elif op == "resize":
            ctx.event("resize")
            k = rng.randrange(4)
            if k == 0: data.append(7); shadow.append(7)
            elif k == 1 and shadow:
                j = rng.randrange(len(shadow)); data.insert(j, 8); shadow.insert(j, 8)
            elif shadow:
                j = rng.randrange(len(shadow)); del data[j]; del shadow[j]
        elif op == "data":
            if shadow:
                j = rng.randrange(len(shadow)); data[j] = 99 - step; shadow[j] = 99 - step
        elif not w:
            ctx.check(err(lambda: operator.setitem(v, 0, 5)) in ("TypeError", "AttributeError"), "a read-only view allows item assignment")
            ctx.check(err(lambda: operator.setitem(v, slice(None), [5])) in ("TypeError", "AttributeError"), "a read-only view allows slice assignment")
            ctx.same(err(lambda: v.reverse()), "AttributeError", "a read-only view allows reverse")
            ctx.event("refused")
        elif op == "write":
            k = rng.randint(-len(idx) - 1, len(idx))
            x = rng.randrange(100, 200)
            e = err(lambda: operator.setitem(v, k, x))
            if -len(idx) <= k < len(idx):
                ctx.same(e, None, "valid item assignment raised")
                shadow[idx[k]] = x
            else:
                ctx.same(e, "IndexError", "item assignment out of range")
            ctx.event("write")
        elif op in ("slice", "scalar", "self"):
            s = rslice(rng, len(idx)) if rng.random() < 0.8 else slice(None)
            tgt = idx[s]
            if op == "scalar":
                x = rng.randrange(100, 200)
                v[s] = x
                for j in tgt: shadow[j] = x
            elif op == "self":
                # assign from a view into the same data, of the right length
                cand = [(v2, sl2) for v2, sl2, _ in views]
                v2, sl2 = rng.choice(cand)
                if rng.random() < 0.5: v2, sl2 = v[s][::-1], sl + [s, slice(None, None, -1)]
                src = select(shadow, sl2)
                if len(src) < len(tgt): continue
                v[s] = v2
                for j, x in zip(tgt, src): shadow[j] = x
                ctx.event("self-assign")
            else:
                xs = [rng.randrange(100, 200) for _ in tgt]
                src = rng.choice([list, tuple, iter, lambda q: itertools.chain(q, itertools.repeat(5)), lambda q: (z for z in q)])(xs)
                v[s] = src
                for j, x in zip(tgt, xs): shadow[j] = x
                if not isinstance(src, (list, tuple)) and rng.random() < 0.2:
                    ctx.check(next(src, 5) == 5, "slice assignment read more items than needed")
            ctx.event("write")
        elif op == "reverse":
            v.reverse()
            for j, x in zip(idx, [before[q] for q in reversed(idx)]): shadow[j] = x
            ctx.event("write")
        ctx.same(list(data), shadow, "underlying data after an operation", op=op, view=sl)
        v, sl, w = rng.choice(views)
        agree(ctx, rng, v, select(shadow, sl), "view")
        if rng.random() < 0.2:
            mdl = select(shadow, sl)
            if kind == "list": ctx.same(repr(v), f"{type(v).__name__}({mdl!r})", "repr"); ctx.same(str(v), str(mdl), "str")
            if len(views) > 1:
                v2, sl2, _ = rng.choice(views)
                ctx.same(v == v2, mdl == select(shadow, sl2), "equality of two views")
            s = rslice(rng, len(mdl))
            ctx.same(list(v[s]), mdl[s], "slice of a view", s=s)
            ctx.same(list(v[:]), mdl, "full slice")
    ctx.seen(kind, [sl for _, sl, _ in views], hist)


@section(quick=1200, require={"immutable": 800})
def roviews(ctx, rng):
    """read-only views of immutable sequences"""
    n = rng.randrange(0, 10)
    mk = rng.choice([tuple, lambda x: range(x[0] if x else 0), lambda x: "".join(chr(97 + i % 20) for i in x), lambda x: bytes(x), lambda x: NT(1, 2, 3),
                     lambda x: ShadowedSequence(tuple(x), slice(None), tuple(reversed(x))) if x else ()])
    data = mk([rng.randrange(20) for _ in range(n)])
    model = list(data)
    ctx.note(data=data)
    ctx.same(err(lambda: view(data)), "TypeError", "writable view of an immutable sequence") if not isinstance(data, ShadowedSequence) else None
    v, sl = roview(data), []
    for _ in range(rng.randrange(1, 5)):
        s = rslice(rng, len(model))
        sl.append(s)
        v, model = v[s], model[s]
        agree(ctx, rng, v, model, "roview")
    t = tuple(model)
    want = {tuple: repr(t), range: repr(t), str: repr("".join(map(str, model))), bytes: repr(bytes(model)) if isinstance(data, bytes) else None, NT: repr(t)}.get(type(data))
    if want is not None:
        ctx.same(repr(v), f"roview({want})", "repr")
        ctx.same(str(v), want if not isinstance(data, str) else "".join(model), "str")
    ctx.same(err(lambda: operator.setitem(v, 0, 1)), "TypeError", "assignment into roview")
    ctx.same(err(lambda: hash(v)), "TypeError", "views are not hashable")
    ctx.event("immutable")
    ctx.seen(type(data), sl)


def replacement(rng, need, backwards, seqneeded):
    """a replacement iterable of at least `need` items -> (object, items)"""
    xs = [("r", rng.randrange(100)) for _ in range(need + rng.choice([0, 0, 1, 3]))]
    k = rng.randrange(8)
    if k == 0: return tuple(xs), xs
    if k == 1: return list(xs), xs
    if k == 2: return view(list(xs)), xs
    if k == 3: return imemoize(itertools.chain(xs, itertools.count()))(), xs     # usable in any direction
    if k == 4:
        @gmemoize
        def g(): yield from xs
        return g(), xs
    if seqneeded or backwards: return tuple(xs), xs
    if k == 5: return iter(xs), xs
    if k == 6: return (x for x in xs), xs
    return itertools.chain(xs, itertools.repeat("inf")), xs


TARGETS = [list, tuple, collections.deque, MySeq, collections.UserList]


@section(quick=4000, require={"int": 1200, "slice": 2000, "multi": 1000, "too-short": 20, "IndexError": 80, "iterator": 300, "fup": 350})
def updates(ctx, rng):
    n = rng.randrange(0, 9)
    mk = rng.choice(TARGETS + [list, tuple, tuple])
    base = [rng.randrange(100) for _ in range(n)]
    if rng.random() < 0.1:
        base = [1, 2, 3]; n = 3; target = NT(*base); mk = NT._make
    elif rng.random() < 0.1:
        mk = rng.choice([bytes, bytearray]); target = mk(base)
    else:
        target = mk(base)
    ascii_only = isinstance(target, (bytes, bytearray))
    nspec = rng.choice([1, 1, 1, 2, 3, 4])
    out, fail, ixs, vals, orig_vals = list(base), None, [], [], []
    for _ in range(nspec):
        if rng.random() < 0.4:
            ix = rng.randint(-n - 1, n) if rng.random() < 0.2 else (rng.randint(-n, n - 1) if n else 0)
            x = rng.randrange(256) if ascii_only else ("v", rng.randrange(100))
            ixs.append(ix); vals.append(x); orig_vals.append(x)
            ctx.event("int")
            if -n <= ix < n: out[ix] = x
            else: fail = fail or "IndexError"
        else:
            s = rslice(rng, n)
            pos = list(range(n))[s]
            bw = (s.step or 1) < 0 or nspec > 1
            v, xs = replacement(rng, len(pos), (s.step or 1) < 0, False)
            if ascii_only:
                xs = [rng.randrange(256) for _ in xs]; v = tuple(xs)
            if not isinstance(v, (list, tuple, view)): ctx.event("iterator")
            if len(pos) and rng.random() < 0.08:
                xs = xs[:len(pos) - 1]
                v = tuple(xs) if (s.step or 1) < 0 or rng.random() < 0.5 else iter(list(xs))
                if nspec == 1: fail = fail or "IndexError"; ctx.event("too-short")
                else: continue
            ixs.append(s); vals.append(v); orig_vals.append(list(xs))
            ctx.event("slice")
            for p, x in zip(pos, xs): out[p] = x
    if not ixs: return
    ctx.note(target=target, indices=ixs, values=orig_vals)
    single = len(ixs) == 1
    vcopies = [list(v) if isinstance(v, (list, view)) else None for v in vals]
    how = rng.randrange(3)
    def go():
        if single and how == 0:
            ctx.event("fup")
            return fup(target)[ixs[0]] << vals[0]
        if single and how == 1: return fupdate(target, ixs[0], vals[0])
        ctx.event("multi")
        c = rng.choice([list, tuple])
        return fupdate(target, c(ixs), c(vals))
    try:
        got = go()
    except IndexError:
        ctx.event("IndexError")
        ctx.check(fail == "IndexError", "IndexError from a valid update")
        got = None
    else:
        ctx.check(fail is None, "an invalid update was accepted", got=got)
        ctx.check(type(got) is type(target), "type of the updated copy", got=type(got))
        ctx.same(list(got), out, "updated copy")
        ctx.check(got is not target or isinstance(target, (tuple, bytes)), "the result is the target itself")
    ctx.same(list(target), base, "fupdate changed the target")
    for v, c in zip(vals, vcopies):
        if c is not None: ctx.same(list(v), c, "fupdate changed the replacement")
    ctx.seen(type(target), n, ixs)
    if got is not None and isinstance(target, (list, bytearray, MySeq)) and n:
        target[0] = 17                                    # later changes of the original do not show
        ctx.same(list(got), out, "updated copy is tied to the original")


@section(quick=1500, require={"shadowed": 1000, "nested": 300})
def shadowed(ctx, rng):
    n = rng.randrange(1, 9)
    base = rng.choice([list, tuple])([rng.randrange(100) for _ in range(n)])
    sh, model, specs = base, list(base), []
    for _ in range(rng.choice([1, 1, 2, 3])):
        r = rng.random()
        if r < 0.1: sh = ShadowedSequence(sh); specs.append(None)
        elif r < 0.45:
            i = rng.randint(-n, n - 1)
            x = rng.choice([None, 0, ("x", 1), [3]])
            sh = ShadowedSequence(sh, i, x); model[i] = x; specs.append(i)
        else:
            s = rslice(rng, n)
            pos = list(range(n))[s]
            v, xs = replacement(rng, len(pos), True, True)
            sh = ShadowedSequence(sh, s, v); specs.append(s)
            for p, x in zip(pos, xs): model[p] = x
    ctx.note(base=base, specs=specs)
    ctx.event("shadowed")
    if len(specs) > 1: ctx.event("nested")
    for _ in range(2):
        agree(ctx, rng, sh, model, "ShadowedSequence")
    for _ in range(3):
        s = rslice(rng, n)
        got = sh[s]
        ctx.check(list(got) == model[s], "slice of a ShadowedSequence", s=s, got=got, want=model[s])
    v = roview(sh)
    s = rslice(rng, n)
    ctx.same(list(v[s]), model[s], "view of a ShadowedSequence")
    ctx.same(list(base), list(base), "base")
    ctx.seen(specs)
    # reading does not copy: changes of the base show through
    if isinstance(base, list) and len(specs) == 1 and type(specs[0]) is int:
        j = rng.randrange(n)
        base[j] = "new"
        if j != specs[0] % n: model[j] = "new"
        ctx.same(list(sh), model, "a ShadowedSequence reads from the original")
    for bad in (lambda: ShadowedSequence([1], "a", 2), lambda: ShadowedSequence(5, 0, 2), lambda: ShadowedSequence([1], slice(None), 2), lambda: fup([1])[0, 0]):
        ctx.same(err(bad), "TypeError", "invalid ShadowedSequence specification")


class UD(collections.UserDict): pass


@section(quick=1500, require={"mapping": 1000, "copy": 300})
def mappings(ctx, rng):
    mk = rng.choice([dict, collections.OrderedDict, frozendict, UD, lambda d: collections.defaultdict(int, d)])
    base = {k: rng.randrange(9) for k in rng.sample("abcdef", rng.randrange(5))}
    t = mk(base)
    upd = {k: rng.randrange(10, 20) for k in rng.sample("abcdefgh", rng.randrange(4))}
    got = fupdate(t, **upd)
    ctx.event("mapping")
    ctx.check(type(got) is type(t), "type", got=type(got))
    ctx.same(dict(got), {**base, **upd}, "updated mapping")
    ctx.same(list(got), list({**base, **upd}), "order of keys")
    ctx.same(dict(t), base, "fupdate changed the target")
    if not isinstance(t, frozendict):
        t["zz"] = 1
        ctx.check("zz" not in got, "updated copy is tied to the original")
        got["yy"] = 1
        ctx.check("yy" not in t, "original is tied to the updated copy")
    seq = rng.choice([[1, 2], (1, 2)])
    c = fupdate(seq)
    ctx.check(c == seq and type(c) is type(seq), "fupdate without specification", got=c)
    if isinstance(seq, list): ctx.check(c is not seq, "fupdate without specification must copy")
    ctx.event("copy")
    ctx.same(err(lambda: fupdate([1, 2], 0, 5, a=3)), "ValueError", "indices and bindings together")
    ctx.seen(type(t), sorted(base), sorted(upd))


@section(quick=6000, require={"in": 500, "out": 1000, "nolength": 700, "ValueError": 300})
def inslice(ctx, rng):
    n = rng.randrange(1, 10)
    s = rslice(rng, n) if rng.random() < 0.85 else rng.randint(-n, n - 1)
    ctx.note(s=s, n=n)
    if rng.random() < 0.7:
        i = rng.randint(-n, n - 1)
        pos = list(range(n))[s] if isinstance(s, slice) else [s % n]
        want = i % n in pos
        ctx.event("in" if want else "out")
        ctx.same(in_slice(i, s, n), want, "in_slice", i=i)
        if isinstance(s, slice):
            ctx.same(index_in_slice(i, s, n), pos.index(i % n) if want else None, "index_in_slice", i=i)
    else:
        ctx.event("nolength")
        i = rng.randint(-3, 12)
        step = (s.step if s.step is not None else 1) if isinstance(s, slice) else 1
        need = i < 0 or (isinstance(s, int) and s < 0) or (isinstance(s, slice) and ((s.start or 0) < 0 or (s.stop or 0) < 0 or (s.stop is None and step > 0) or (s.start is None and step < 0)))
        try:
            got = in_slice(i, s)
        except ValueError:
            ctx.event("ValueError")
            ctx.check(need, "ValueError though the length is not needed", i=i)
        else:
            ctx.check(not need, "answered although the length is needed", i=i, got=got)
            pos = [s] if isinstance(s, int) else list(range(s.start or 0, s.stop if s.stop is not None else -1, step))
            ctx.same(got, i in pos, "in_slice without length", i=i)
            if isinstance(s, slice):
                ctx.same(index_in_slice(i, s), pos.index(i) if i in pos else None, "index_in_slice without length", i=i)
    ctx.same(err(lambda: in_slice(1, slice(0, 3, 0), 3)), "ValueError", "zero step")
    ctx.same(err(lambda: in_slice("a", slice(0, 3), 3)), "TypeError", "non-integer index")
    ctx.same(err(lambda: in_slice(1, "abc", 3)), "TypeError", "non-slice")
    ctx.seen(s, n)
