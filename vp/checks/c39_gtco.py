"""C39: trampolined generators against a flat reference stream."""
import itertools
import sys

from vp.core import section
from unpythonic import gtco, gtrampolined


class Boom(Exception):
    pass


class ReIter:
    """Re-iterable, not an iterator."""
    def __init__(self, items):
        self.items = items
    def __iter__(self):
        return iter(self.items)


def depth():
    f, n = sys._getframe(1), 0
    while f is not None:
        n += 1
        f = f.f_back
    return n


def plan(rng):
    """A chain of segments and an ending."""
    segs = [[(i, j) for j in range(rng.randrange(0, 4))] for i in range(rng.randrange(1, 6))]
    end = rng.choice(["none", "value", "list", "tuple", "range", "iterator", "reiter", "str", "dict", "empty", "raise", "typeerror", "badmap", "raise-in-iter"])
    return segs, end


def ending(end, log=None):
    """(return value of last generator, extra items, final: ("stop", value) or ("exc", type))"""
    if end == "none": return None, [], ("stop", None)
    if end == "value": return 42, [], ("stop", 42)
    if end == "list": return [7, 8, 9], [7, 8, 9], ("stop", None)
    if end == "tuple": return (7, None), [7, None], ("stop", None)
    if end == "range": return range(3), [0, 1, 2], ("stop", None)
    if end == "iterator": return iter([5, 6]), [5, 6], ("stop", None)
    if end == "reiter": return ReIter([1, 2]), [1, 2], ("stop", None)
    if end == "str": return "ab", ["a", "b"], ("stop", None)
    if end == "dict": return {"k": 1}, ["k"], ("stop", None)
    if end == "empty": return [], [], ("stop", None)
    if end == "badmap": return map(lambda x: x if x < 2 else x + "s", [0, 1, 2, 3]), [0, 1], ("exc", TypeError)
    if end == "raise-in-iter": return map(lambda x: 1 // (1 - x), [0, 1]), [1], ("exc", ZeroDivisionError)


@section(quick=4000, thorough=60000, require={"items": 10000, "ending": 2000, "exc": 200, "sends": 300, "throws": 100})
def chains(ctx, rng):
    segs, end = plan(rng)
    styles = [rng.choice(["plain", "tramp"]) for _ in segs]
    catches = [rng.random() < 0.3 for _ in segs]
    started, closed = [], []
    sent = []
    def mk(i):
        def g(*a, **k):
            started.append(i)
            try:
                for x in segs[i]:
                    while True:
                        try:
                            r = yield x
                        except Boom as e:
                            sent.append((i, "caught", e.args))
                            if not catches[i]:
                                raise
                            x = ("again", x)
                            continue
                        if r is not None:
                            sent.append((i, "sent", r))
                        break
            finally:
                closed.append(i)
            if i + 1 < len(segs):
                return gens[i + 1]()
            if end == "raise":
                raise Boom("end")
            if end == "typeerror":
                raise TypeError("end")
            return ending(end)[0]
        return gtrampolined(g) if styles[i] == "tramp" else g
    gens = [mk(i) for i in range(len(segs))]
    first = gens[0]()
    s = iter(first) if styles[0] == "tramp" else gtco(first)
    ctx.note(segs=segs, end=end, styles=styles, catches=catches)
    extra, final = ([], ("exc", Boom)) if end == "raise" else ([], ("exc", TypeError)) if end == "typeerror" else ending(end)[1:]
    ctx.event("ending")
    want = [(i, x) for i, seg in enumerate(segs) for x in seg] + [(None, x) for x in extra]
    got_final = None
    pos = 0
    ops = []
    mode = rng.choice(["next", "next", "send", "throw", "close"])
    k = 0
    nextop = "next"
    expect_sent = []
    while True:
        try:
            if nextop == "next":
                v = next(s)
            elif nextop == "send":
                ctx.event("sends")
                expect_sent.append((want[pos - 1][0], "sent", ("msg", k)))
                v = s.send(("msg", k))
            elif nextop == "throw":
                ctx.event("throws")
                i = want[pos - 1][0]
                expect_sent.append((i, "caught", (k,)))
                if catches[i]:
                    v = s.throw(Boom(k))
                    ctx.check(v == ("again", want[pos - 1][1]), "thrown exception did not reach the running generator", got=v)
                    want[pos - 1] = (i, v)
                    nextop = "next"
                    k += 1
                    continue
                else:
                    final = ("exc", Boom)
                    want = want[:pos]
                    v = s.throw(Boom(k))
        except StopIteration as e:
            got_final = ("stop", e.value)
            break
        except (Boom, TypeError, ZeroDivisionError) as e:
            got_final = ("exc", type(e))
            break
        k += 1
        ctx.event("items")
        ctx.check(pos < len(want) and want[pos][1] == v, "wrong item in the stream", pos=pos, got=v, want=want)
        if want[pos][0] is not None:
            ctx.check(started[-1] == want[pos][0], "a later generator was started too early", started=started, pos=pos)
        pos += 1
        if mode == "close" and rng.random() < 0.3:
            s.close()
            i = want[pos - 1][0]
            if i is not None:
                ctx.check(closed and closed[-1] == i, "close did not reach the running generator", closed=closed)
            try:
                next(s)
            except StopIteration:
                pass
            else:
                ctx.violate("stream goes on after close")
            ctx.seen("close", repr(segs), pos)
            return
        in_gen = want[pos - 1][0] is not None
        nextop = mode if mode in ("send", "throw") and in_gen and rng.random() < 0.5 else "next"
    if final[0] == "exc":
        ctx.event("exc")
    ctx.check(pos == len(want), "stream ended early", got=pos, want=want, final=got_final)
    ctx.check(got_final == final, "stream ended differently", got=got_final, want=final)
    ctx.check(sent == expect_sent, "sent values / thrown exceptions did not reach the running generator", got=sent, want=expect_sent)
    ctx.seen(repr(segs), end, tuple(styles), mode, tuple(catches))
    ctx.sample({"segments": segs, "ending": end, "styles": styles, "mode": mode})


@section(quick=120, thorough=1500, require={"long_items": 50000})
def deep(ctx, rng):
    """Chains of any length in bounded depth; lazy."""
    n = rng.choice([500, 3000, 6000])
    depths = []
    k = rng.randrange(1, 4)
    styles = [rng.choice(["plain", "tramp"]) for _ in range(k)]
    def mk(i):
        def g(n):
            depths.append(depth())
            yield n
            if n:
                return gens[(i + 1) % k](n - 1)
        return gtrampolined(g) if styles[i] == "tramp" else g
    gens = [mk(i) for i in range(k)]
    s = gens[0](n)
    s = iter(s) if styles[0] == "tramp" and rng.random() < 0.7 else gtco(s if styles[0] == "plain" else iter(s))
    cut = rng.choice([None, n // 2])
    got = list(itertools.islice(s, cut))
    want = list(range(n, -1, -1))[:cut]
    ctx.event("long_items", len(got))
    ctx.check(got == want, "long chain delivers wrong items", n=n, styles=styles, got=got[:10])
    ctx.check(len(depths) == len(want), "generators run ahead of the consumer", ran=len(depths), items=len(want))
    ctx.check(max(depths) - min(depths) <= 10, "stack depth grows along the chain", lo=min(depths), hi=max(depths), n=n)
    ctx.seen(n, tuple(styles), cut)


@section(quick=300, thorough=3000, require={"reuse": 200})
def factory(ctx, rng):
    """A @gtrampolined function passes its arguments on and keeps its name; instances are independent."""
    @gtrampolined
    def g(a, *args, b=1, **kw):
        "doc"
        yield (a, args, b, kw)
        if a > 0:
            return g(a - 1, *args, b=b + 1, **kw)
    ctx.check(g.__name__ == "g" and g.__doc__ == "doc", "name lost")
    a, args, b, kw = rng.randrange(6), (1, 2)[:rng.randrange(3)], rng.randrange(5), {"z": 3} if rng.random() < 0.5 else {}
    want = [(a - i, args, b + i, kw) for i in range(a + 1)]
    x, y = g(a, *args, b=b, **kw), g(a, *args, b=b, **kw)
    ix, iy = iter(x), iter(y)
    gx, gy = [], []
    while len(gx) < len(want) or len(gy) < len(want):
        if rng.random() < 0.5 and len(gx) < len(want):
            gx.append(next(ix))
        elif len(gy) < len(want):
            gy.append(next(iy))
    ctx.event("reuse")
    ctx.check(gx == want and gy == want, "interleaved instances disturb each other", got=(gx, gy), want=want)
    ctx.seen(a, args, b, tuple(kw))
