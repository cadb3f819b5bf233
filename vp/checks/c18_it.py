"""C18: iterator utilities: every item, its order, and what was consumed from the input, against list-based definitions."""
import collections
import itertools
import operator
import queue
import random
from vp.core import section, outcome
from vp.gen import scalar, CountIter, as_iterable
from unpythonic import (rev, map as umap, map_longest, rmap, rzip, rmap_longest, rzip_longest, mapr, zipr, mapr_longest, zipr_longest,
                        flatmap, uniqify, uniq, take, drop, split_at, unpack, tail, butlast, butlastn, first, second, nth, last, lastn,
                        scons, pad, flatten, flatten1, flatten_in, iterate, iterate1, partition, inn, iindex, find, window, chunked,
                        within, interleave, subset, powerset, allsame, islice, Popper, CountingIterator, slurp, Values, ll)

class Boom(Exception): pass

def tup(*a): return ("t",) + a

# ---- one-input stream transformers: (name, params) -> (real(params, it), ref(params, list) -> list) -------------------
# `ref(prefix)` is what is already determined by a prefix of the input.
def r_uniqify(xs, key):
    out, seen = [], []
    for x in xs:
        k = key(x) if key else x
        if k not in seen: seen.append(k); out.append(x)
    return out
def r_uniq(xs, key):
    out, first_, prev = [], True, None
    for x in xs:
        k = key(x) if key else x
        if first_ or k != prev: out.append(x)
        first_, prev = False, k
    return out
def r_flat(xs, pred):
    out = []
    for x in xs:
        if isinstance(x, (list, tuple)) and (pred is None or pred(x)): out += r_flat(x, pred)
        else: out.append(x)
    return out
def r_flat1(xs, pred):
    out = []
    for x in xs:
        if isinstance(x, (list, tuple)) and (pred is None or pred(x)): out += list(x)
        else: out.append(x)
    return out
def r_flatin(xs, pred):
    out = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            sub = r_flatin(x, pred)
            if pred is None or pred(x): out += sub
            else: out.append(type(x)(sub))
        else: out.append(x)
    return out
def r_within(xs, tol):
    out = []
    for i, x in enumerate(xs):
        out.append(x)
        if i and abs(xs[i - 1] - x) <= tol: break
    return out
def r_powerset(xs):
    bag, out = [], []
    for x in xs:
        new = [(x,)] + [c + (x,) for c in bag]
        out += new
        bag += new
    return out
def key(x): return len(x) if isinstance(x, (str, bytes, tuple, frozenset)) else type(x).__name__
def nested(rng, d=0):
    r = rng.random()
    if r < 0.45 and d < 4: return rng.choice([list, tuple])(nested(rng, d + 1) for _ in range(rng.randrange(0, 4)))
    return rng.choice([rng.randrange(10), "str", b"by", None, frozenset([1])])
def pred_nested(e): return all(isinstance(x, (list, tuple)) for x in e)
def pred_short(e): return len(e) < 3

def small(rng): return rng.choice([0, 1, 1, 2, 3, 4, 6])

def single(rng):
    """-> name, item maker, real(it), ref(list)"""
    k = rng.randrange(21)
    sc = lambda: scalar(rng)
    few = lambda: rng.choice([0, 1, 2, "a", "bb", (), None])
    if k == 0: return "map", sc, lambda it: umap(tup, it), lambda xs: [tup(x) for x in xs]
    if k == 1: return "uniqify", few, lambda it: uniqify(it), lambda xs: r_uniqify(xs, None)
    if k == 2: return "uniqify-key", few, lambda it: uniqify(it, key=key), lambda xs: r_uniqify(xs, key)
    if k == 3: return "uniq", few, lambda it: uniq(it), lambda xs: r_uniq(xs, None)
    if k == 4: return "uniq-key", few, lambda it: uniq(it, key=key), lambda xs: r_uniq(xs, key)
    if k == 5:
        n = small(rng)
        return f"take{n}", sc, lambda it: take(n, it), lambda xs: xs[:n]
    if k == 6:
        n = small(rng)
        return f"drop{n}", sc, lambda it: drop(n, it), lambda xs: xs[n:]
    if k == 7: return "tail", sc, lambda it: tail(it), lambda xs: xs[1:]
    if k == 8: return "butlast", sc, lambda it: butlast(it), lambda xs: xs[:-1]
    if k == 9:
        n = small(rng)
        return f"butlastn{n}", sc, lambda it: butlastn(n, it), lambda xs: xs[:max(0, len(xs) - n)]
    if k == 10:
        v = scalar(rng)
        return "scons", sc, lambda it: scons(v, it), lambda xs: [v] + xs
    if k == 11: return "flatmap", lambda: rng.randrange(4), lambda it: flatmap(lambda x: [x] * x, it), lambda xs: [x for x in xs for _ in range(x)]
    if k == 12:
        p = rng.choice([None, pred_nested, pred_short])
        return f"flatten-{p and p.__name__}", lambda: nested(rng), lambda it: flatten(it, p) if p else flatten(it), lambda xs: r_flat(xs, p)
    if k == 13:
        p = rng.choice([None, pred_nested, pred_short])
        mk = (lambda: [nested(rng) for _ in range(rng.randrange(3))]) if p is None else (lambda: nested(rng))
        return f"flatten1-{p and p.__name__}", mk, lambda it: flatten1(it, p) if p else flatten1(it), lambda xs: r_flat1(xs, p)
    if k == 14:
        p = rng.choice([None, pred_nested, pred_short])
        return f"flatten_in-{p and p.__name__}", lambda: nested(rng), lambda it: flatten_in(it, p) if p else flatten_in(it), lambda xs: r_flatin(xs, p)
    if k == 15:
        n = rng.choice([2, 2, 3, 4, 5])
        return f"window{n}", sc, lambda it: window(n, it), lambda xs: [tuple(xs[i:i + n]) for i in range(len(xs) - n + 1)]
    if k == 16:
        n = rng.choice([2, 2, 3, 4])
        return f"chunked{n}", sc, lambda it: umap(tuple, chunked(n, it)), lambda xs: [tuple(xs[i:i + n]) for i in range(0, len(xs), n)]
    if k == 17:
        tol = rng.choice([0, 1, 0.5, 2])
        return f"within{tol}", lambda: rng.randrange(-9, 9) / 2, lambda it: within(tol, it), lambda xs: r_within(xs, tol)
    if k == 18: return "powerset", sc, lambda it: powerset(it), r_powerset
    if k == 19:
        a, b, c = rng.choice([None, 0, 1, 2, 5]), rng.choice([None, 0, 1, 3, 7]), rng.choice([None, 1, 2, 3])
        return f"islice[{a}:{b}:{c}]", sc, lambda it: islice(it)[a:b:c], lambda xs: xs[a:b:c]
    n = small(rng)
    # the fill items come only after the end
    return f"pad{n}", sc, lambda it: pad(n, "FILL", it), lambda xs, end=False: xs + ["FILL"] * (max(0, n - len(xs)) if end else 0)

NEEDEND = ("chunked",)

@section(quick=9000, thorough=180000, require={"items": 15000, "infinite": 2000, "finite": 2000, "failing": 1000, "consumed": 10000})
def streams(ctx, rng):
    name, mk, real, ref = single(rng)
    mode = rng.choice(["finite", "finite", "infinite", "failing"])
    L = rng.choice([0, 1, 2, 3, 5, 9]) if mode != "infinite" else 14
    xs = [mk() for _ in range(L)]
    ctx.note(util=name, mode=mode, xs=xs)
    def det(p):   # determined by the first p items
        if name.startswith("chunked"):
            n = int(name[7:])
            return [tuple(xs[i:i + n]) for i in range(0, p - n + 1, n)]
        return ref(xs[:p])
    def need(k):  # smallest prefix which determines k outputs
        for p in range(L + 1):
            if len(det(p)) >= k: return p
        return None
    eager = int(name[6:]) if name.startswith("window") else int(name[4:]) if name.startswith("drop") else 1 if name in ("tail",) else 0
    if mode == "finite":
        full = ref(xs, end=True) if name.startswith("pad") else ref(xs)
        src = as_iterable(rng, xs)
        got = list(real(src))
        ctx.check(got == full and all(type(a) is type(b) for a, b in zip(got, full)), f"{name}: wrong items", got=got, want=full)
        if isinstance(src, (list, tuple)): ctx.check(list(src) == xs, f"{name}: input was modified")
        ctx.event("finite"); ctx.event("items", len(got))
        ctx.seen(name, L, "f")
        return
    if mode == "failing":
        def gen():
            yield from xs
            raise Boom()
        src = CountIter(gen())
        got, boom = [], False
        try:
            for x in real(src): got.append(x)
        except Boom: boom = True
        want = det(L)
        if name.startswith(("take", "islice", "within")) and not boom:   # may end before reaching the failure
            ctx.check(got == want, f"{name}: wrong items", got=got, want=want)
        else:
            ctx.check(boom, f"{name}: an exception from the input was swallowed", got=got)
            ctx.check(got == want, f"{name}: items before the failure", got=got, want=want)
        ctx.event("failing"); ctx.event("items", len(got))
        ctx.seen(name, L, "x")
        return
    src = CountIter(itertools.chain(xs, itertools.repeat(Poison)), limit=L + 3)
    it = real(src)
    ctx.check(src.n <= eager, f"{name}: consumed items before any was requested", consumed=src.n)
    k = 0
    for k in range(1, 12):
        p = need(k)
        if p is None: break
        x = next(it)
        w = det(p)[k - 1]
        ctx.check(x == w and type(x) is type(w), f"{name}: wrong item #{k}", got=x, want=w)
        ctx.check(src.n <= max(p, eager), f"{name}: consumed more of the input than needed for {k} items", consumed=src.n, needed=p)
        ctx.event("consumed")
    ctx.event("infinite"); ctx.event("items", k)
    ctx.seen(name, k, "i")

class Poison: pass

@section(quick=4000, require={"multi": 2500, "interleave": 300, "items": 8000})
def multi(ctx, rng):
    n = rng.choice([1, 1, 2, 2, 3])
    seqs = [[scalar(rng) for _ in range(rng.choice([0, 1, 2, 4, 6]))] for _ in range(n)]
    fill = rng.choice([None, "FILL"])
    kw = {} if fill is None else {"fillvalue": fill}
    names = ["map", "map_longest", "rmap", "rzip", "rmap_longest", "rzip_longest", "mapr", "zipr", "mapr_longest", "zipr_longest", "flatmap", "interleave", "rev"]
    w = rng.choice(names)
    ctx.note(which=w, seqs=seqs, fill=fill)
    def z(ss, longest):
        m = (max if longest else min)(map(len, ss))
        return [tuple(s[i] if i < len(s) else fill for s in ss) for i in range(m)]
    r = [s[::-1] for s in seqs]
    its = [as_iterable(rng, s) for s in seqs]
    if w == "map": got, want = umap(tup, *its), [tup(*x) for x in z(seqs, False)]
    elif w == "map_longest": got, want = map_longest(tup, *its, **kw), [tup(*x) for x in z(seqs, True)]
    elif w == "rmap": got, want = rmap(tup, *its), [tup(*x) for x in z(r, False)]
    elif w == "rzip": got, want = rzip(*its), z(r, False)
    elif w == "rmap_longest": got, want = rmap_longest(tup, *its, **kw), [tup(*x) for x in z(r, True)]
    elif w == "rzip_longest": got, want = rzip_longest(*its, **kw), z(r, True)
    elif w == "mapr": got, want = mapr(tup, *its), [tup(*x) for x in z(seqs, False)][::-1]
    elif w == "zipr": got, want = zipr(*its), z(seqs, False)[::-1]
    elif w == "mapr_longest": got, want = mapr_longest(tup, *its, **kw), [tup(*x) for x in z(seqs, True)][::-1]
    elif w == "zipr_longest": got, want = zipr_longest(*its, **kw), z(seqs, True)[::-1]
    elif w == "flatmap": got, want = flatmap(lambda *a: a, *its), [y for x in z(seqs, False) for y in x]
    elif w == "rev": got, want = rev(its[0]), seqs[0][::-1]
    else:
        want = []
        pos = [0] * n
        j = 0
        while n and pos[j % n] < len(seqs[j % n]):
            want.append(seqs[j % n][pos[j % n]]); pos[j % n] += 1; j += 1
        cs = [CountIter(s) for s in seqs]
        g = interleave(*cs)
        got = []
        for i, x in enumerate(g):
            got.append(x)
            for j, c in enumerate(cs):
                ctx.check(c.n <= (i - j) // n + 1 if i >= j else c.n == 0, "interleave read ahead", at=i, which=j, consumed=c.n)
        ctx.event("interleave")
        if rng.random() < 0.1: ctx.check(list(interleave()) == [], "interleave of nothing")
    got = list(got)
    ctx.check(got == want, f"{w}: wrong items", got=got, want=want)
    ctx.event("multi"); ctx.event("items", len(got))
    ctx.seen(w, [len(s) for s in seqs], fill)

@section(quick=6000, require={"picks": 4000, "refused": 300})
def picks(ctx, rng):
    xs = [scalar(rng) for _ in range(rng.choice([0, 1, 2, 3, 5]))]
    L = len(xs)
    dflt = rng.choice([None, None, "D"])
    kw = {} if dflt is None else {"default": dflt}
    n = rng.choice([0, 1, 2, 3, 5, 7])
    w = rng.choice(["first", "second", "nth", "last", "lastn", "find", "iindex", "allsame", "subset", "split_at", "unpack", "partition", "islice1", "negslice", "bad", "dropall", "counting"])
    c = CountIter(list(xs))
    ctx.note(which=w, xs=xs, n=n)
    ctx.event("picks")
    ctx.seen(w, L, n)
    def atmost(k): ctx.check(c.n <= k, f"{w} consumed more than needed", consumed=c.n, needed=k)
    if w in ("first", "second", "nth"):
        n = {"first": 0, "second": 1}.get(w, n)
        got = {"first": first, "second": second}[w](c, **kw) if w != "nth" else nth(n, c, **kw)
        ctx.check(got is (xs[n] if n < L else dflt), w, got=got); atmost(n + 1)
        ctx.check(list(c) == xs[n + 1:], f"{w}: position of the iterator")
    elif w == "last": ctx.check(last(c, **kw) is (xs[-1] if xs else dflt), w)
    elif w == "lastn": ctx.same(list(lastn(n, c)), xs[max(0, L - n):], w)
    elif w == "find":
        t = scalar(rng) if not xs or rng.random() < 0.3 else rng.choice(xs)
        i = next((i for i, x in enumerate(xs) if x == t), None)
        got = find(lambda x: x == t, c, default=dflt) if rng.random() < 0.5 else find(lambda x: x == t, c, dflt)
        ctx.check(got is (dflt if i is None else xs[i]), w, got=got); atmost(L if i is None else i + 1)
    elif w == "iindex":
        t = scalar(rng) if not xs or rng.random() < 0.3 else rng.choice(xs)
        got = outcome(iindex, t, c)
        want = ("ok", xs.index(t)) if t in xs else ("exc", ValueError)
        ctx.check(got == want, w, got=got, want=want)
        if t in xs: atmost(xs.index(t) + 1)
    elif w == "allsame":
        ys = [rng.choice([1, 1, 1, 1.0, True, 2]) for _ in range(n)]
        c = CountIter(ys)
        ctx.same(allsame(c), all(y == ys[0] for y in ys), w, ys=ys)
        d = next((i for i, y in enumerate(ys) if y != ys[0]), len(ys) - 1)
        atmost(d + 1)
    elif w == "subset":
        part = [rng.choice(xs) if xs and rng.random() < 0.8 else scalar(rng) for _ in range(rng.randrange(4))]
        ctx.same(subset(as_iterable(rng, part), xs), all(p in xs for p in part), w, part=part)
    elif w == "split_at":
        a, b = split_at(n, c)
        order = rng.random() < 0.5
        if order: la = list(a); lb = list(b)
        else: lb = list(b); la = list(a)
        ctx.check((la, lb) == (xs[:n], xs[n:]), w, got=(la, lb))
        if rng.random() < 0.3:   # mutual independence when interleaved
            a, b = split_at(n, iter(xs))
            r = random.Random(rng.random()); oa, ob = [], []
            live = [(a, oa), (b, ob)]
            while live:
                s, o = r.choice(live)
                try: o.append(next(s))
                except StopIteration: live.remove((s, o))
            ctx.check((oa, ob) == (xs[:n], xs[n:]), w, got=(oa, ob))
    elif w == "unpack":
        k = rng.choice([None, None, 0, 1, 2, 4])
        fv = rng.choice([None, "F"])
        a = dict(k=k) if k is not None else {}
        if fv: a["fillvalue"] = fv
        *got, tl = unpack(n, c, **a)
        kk = n if k is None else k
        ctx.check(got == (xs + [fv] * n)[:n], "unpack: extracted items", got=got)
        atmost(max(n, kk))
        tl = list(tl)
        ctx.check(tl == (xs[kk:] if L >= n else []), "unpack: tail", got=tl, want=xs[kk:], k=k)
    elif w == "partition":
        p = lambda x: hash(x) % 2 == 0
        f, t = partition(p, c)
        wf, wt = [x for x in xs if not p(x)], [x for x in xs if p(x)]
        r = random.Random(rng.random()); of, ot = [], []
        live = [(f, of), (t, ot)]
        while live:
            s, o = r.choice(live)
            try: o.append(next(s))
            except StopIteration: live.remove((s, o))
        ctx.check((of, ot) == (wf, wt), w, got=(of, ot)); atmost(L)
    elif w == "islice1":
        i = rng.randrange(-7, 8)
        got = islice(c)[i]
        ctx.check(got is (xs[i] if -L <= i < L else None), "islice of a single index", i=i, got=got)
        if i >= 0: atmost(i + 1)
    elif w == "negslice":
        a, b = [rng.choice([None, 0, 1, 2, 4, 9, -1, -2, -3, -8]) for _ in range(2)]
        s = rng.choice([None, 1, 2, 3])
        ctx.check(list(islice(c)[a:b:s]) == xs[a:b:s], "islice", slice=(a, b, s))
    elif w == "bad":
        f = rng.choice([take, drop, split_at, nth, unpack])
        v = rng.choice([-1, -5, 1.5, "x", 2.0])
        got = outcome(f, v, c)
        ctx.check(got == ("exc", ValueError if isinstance(v, int) else TypeError), f"{f.__name__} accepted a bad count", v=v, got=got)
        ctx.check(c.n == 0, "a refused call consumed input")
        g = rng.choice([window, chunked])
        got = outcome(g, rng.choice([1, 0, -1]), c)
        ctx.check(got == ("exc", ValueError), f"{g.__name__} accepted a bad length", got=got)
        got = outcome(unpack, 1, c, k=rng.choice([-1, 1.5]))
        ctx.check(got[0] == "exc" and got[1] in (ValueError, TypeError), "unpack accepted a bad k", got=got)
        ctx.event("refused")
    elif w == "dropall":
        ctx.check(list(drop(None, c)) == [] and c.n == L, "drop(None)")
    elif w == "counting":
        ci = CountingIterator(as_iterable(rng, xs))
        out = []
        ctx.check(iter(ci) is ci and ci.count == 0, w)
        for i, x in enumerate(ci):
            out.append(x); ctx.check(ci.count == i + 1, "CountingIterator.count", count=ci.count, i=i)
        ctx.check(out == xs and next(ci, 0) == 0 and ci.count == L, "CountingIterator after the end", count=ci.count)

@section(quick=2500, require={"iterate": 500, "inn": 800, "popper": 400, "slurp": 300})
def others(ctx, rng):
    k = rng.randrange(5)
    if k == 0:
        n = rng.randrange(1, 8)
        calls = []
        def f(x): calls.append(x); return ("f", x)
        g = iterate1(f, "x0")
        out = [next(g) for _ in range(n)]
        want = ["x0"]
        for _ in range(n - 1): want.append(("f", want[-1]))
        ctx.check(out == want and calls == want[:-1], "iterate1", got=out, calls=calls)
        calls2 = []
        def h(*a, **kw):
            calls2.append((a, kw))
            return Values(*a[::-1], len(calls2), **{"n": len(calls2)}) if len(calls2) < 4 else 17
        g = iterate(h, 1, 2, n=0)
        out, err = [], None
        try:
            for _ in range(n): out.append(next(g))
        except TypeError: err = TypeError
        ctx.check((err is TypeError) == (n > 4), "iterate must refuse a result which is not a Values", n=n)
        st, want = ((1, 2), {"n": 0}), []
        for i in range(min(n, 4)):
            want.append(st)
            st = (st[0][::-1] + (i + 1,), {"n": i + 1})
        ctx.check([(tuple(v.rets), dict(v.kwrets)) for v in out] == want, "iterate values", got=out, want=want)
        ctx.check(calls2[:len(want) - 1] == want[:-1], "iterate calls", calls=calls2)
        ctx.event("iterate"); ctx.seen("iterate", n)
    elif k in (1, 2):
        sgn = rng.choice([1, -1])
        x0 = rng.randrange(-6, 7)
        steps = [rng.choice([0, 0, 1, 1, 2, 3, 0.5]) * sgn for _ in range(12)]
        seq = [x0]
        for s in steps: seq.append(seq[-1] + s)
        if all(s == 0 for s in steps): return
        x = rng.choice([rng.choice(seq), rng.randrange(-8, 9), seq[0] - sgn, seq[0]])
        def inf():
            yield from seq
            y = seq[-1]
            while True: y += 100 * sgn; yield y
        c = CountIter(inf(), limit=60)
        got = inn(x, c)
        want = x in seq
        if (x - seq[-1]) * sgn >= 100: return
        ctx.same(got, want, "inn", x=x, seq=seq)
        fin = seq[:rng.randrange(0, 6)]
        ctx.same(inn(x, as_iterable(rng, fin)), x in fin, "inn (finite)", x=x, seq=fin)
        ctx.event("inn"); ctx.seen("inn", sgn, seq.index(x) if want else None)
    elif k == 3:
        items = [scalar(rng) for _ in range(rng.randrange(0, 6))]
        kind = rng.choice([list, collections.deque, LL])
        c = kind(items)
        ref = list(items)
        r = random.Random(rng.random())
        out, want = [], []
        budget = 8
        for x in Popper(c):
            out.append(x)
            want.append(ref.pop(0))
            ctx.check(list(c) == ref, "Popper: container must hold the remaining items", got=list(c), want=ref)
            if budget and r.random() < 0.4:
                budget -= 1
                if r.random() < 0.5: c.append(budget); ref.append(budget)
                else: c.insert(0, budget); ref.insert(0, budget)
            elif ref and r.random() < 0.1: c.pop(); ref.pop()
        ctx.check(out == want and not ref and not list(c), "Popper", got=out, want=want)
        ctx.event("popper"); ctx.seen("popper", kind.__name__, len(out))
    else:
        q = rng.choice([queue.Queue, queue.LifoQueue, queue.SimpleQueue])()
        items = [rng.choice([None, 0, scalar(rng)]) for _ in range(rng.randrange(0, 7))]
        for x in items: q.put(x)
        want = items[::-1] if isinstance(q, queue.LifoQueue) else items
        ctx.check(slurp(q) == want and q.empty() and slurp(q) == [], "slurp", want=want)
        ctx.event("slurp"); ctx.seen("slurp", type(q).__name__, len(items))

class LL(collections.UserList): pass

@section(quick=4, require={"asked": 1})
def flatten1_plain(ctx, rng):
    """flatten1 of an iterable with items other than lists and tuples (documented as passed through)."""
    xs = [rng.randrange(5), [rng.randrange(5)]]
    ctx.event("asked")
    got = outcome(lambda: list(flatten1(xs)))
    ctx.check(got == ("ok", [xs[0]] + xs[1]), "flatten1 of a non-list item", key="flatten1-without-pred-non-list-item" if got == ("exc", TypeError) else None, xs=xs, got=got)
