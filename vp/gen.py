"""Generators shared by the checks: signatures, functions built from them, call shapes, values, iterables."""
import itertools

NAMES = "a b c d e f g h".split()


def scalar(rng):
    k = rng.randrange(9)
    if k == 0: return rng.randrange(-3, 10)
    if k == 1: return rng.choice(["", "x", "yy", "zeta", "x y"])
    if k == 2: return rng.choice([None, True, False])
    if k == 3: return rng.choice([0.5, -1.25, 3.0])
    if k == 4: return tuple(scalar(rng) for _ in range(rng.randrange(3)))
    if k == 5: return frozenset([rng.randrange(5)])
    if k == 6: return rng.choice([b"", b"ab"])
    return rng.randrange(100)


class Sig:
    """A function signature: lists of (name, default) with default None=required or ("d", value)."""
    def __init__(self, posonly, pos, varargs, kwonly, varkw):
        self.posonly, self.pos, self.varargs, self.kwonly, self.varkw = posonly, pos, varargs, kwonly, varkw

    @property
    def positional(self):
        return self.posonly + self.pos

    def source(self, annots=None):
        annots = annots or {}
        parts = []
        def one(n, d, kind):
            s = n
            if n in annots:
                s += f": {annots[n]}"
            if d is not None:
                s += f"=DEF_{n}"
            parts.append(s)
        for n, d in self.posonly:
            one(n, d, "po")
        if self.posonly:
            parts.append("/")
        for n, d in self.pos:
            one(n, d, "p")
        if self.varargs:
            parts.append("*" + self.varargs + (f": {annots[self.varargs]}" if self.varargs in annots else ""))
        elif self.kwonly:
            parts.append("*")
        for n, d in self.kwonly:
            one(n, d, "k")
        if self.varkw:
            parts.append("**" + self.varkw + (f": {annots[self.varkw]}" if self.varkw in annots else ""))
        return ", ".join(parts)

    def names(self):
        return [n for n, _ in self.posonly + self.pos + self.kwonly] + [x for x in (self.varargs, self.varkw) if x]

    def min_pos(self):
        return sum(1 for _, d in self.positional if d is None)

    def max_pos(self):
        return float("inf") if self.varargs else len(self.positional)

    def make(self, body, name="f", annots=None, env=None, first=None, isgen=False):
        """Build a function which calls body(bindings: dict) and returns its result."""
        ns = {"BODY": body, **(env or {})}
        for n, d in self.posonly + self.pos + self.kwonly:
            if d is not None:
                ns[f"DEF_{n}"] = d[1]
        d = "{" + ", ".join(f"{n!r}: {n}" for n in self.names()) + "}"
        params = self.source(annots)
        if first:
            params = first + (", " + params if params else "")
        kw = "yield from" if isgen else "return"
        src = f"def {name}({params}):\n    {kw} BODY({d})\n"
        exec(compile(src, "<gen>", "exec"), ns)
        f = ns[name]
        f._src = src
        return f

    def bind(self, args, kwargs):
        """Reference argument binding; returns dict or None (TypeError)."""
        out, kwargs, args = {}, dict(kwargs), list(args)
        for n, d in self.positional:
            if args:
                if n in kwargs and (n, d) in self.pos:
                    return None
                out[n] = args.pop(0)
            elif n in kwargs and (n, d) in self.pos:
                out[n] = kwargs.pop(n)
            elif d is not None:
                out[n] = d[1]
            else:
                return None
        if args and not self.varargs:
            return None
        for n, d in self.kwonly:
            if n in kwargs:
                out[n] = kwargs.pop(n)
            elif d is not None:
                out[n] = d[1]
            else:
                return None
        if self.varargs:
            out[self.varargs] = tuple(args)
        if kwargs and not self.varkw:
            return None
        if self.varkw:
            out[self.varkw] = kwargs
        return out


def rand_sig(rng, maxpos=4, posonly=True, varargs=0.3, kwonly=0.4, varkw=0.3, defaults=0.4, value=scalar, maxkw=2):
    names = list(NAMES)
    n = rng.randrange(maxpos + 1)
    ds = sum(1 for _ in range(n) if rng.random() < defaults)
    ps = [(names.pop(0), None if i < n - ds else ("d", value(rng))) for i in range(n)]
    cut = rng.randrange(n + 1) if posonly and rng.random() < 0.4 else 0
    ko = []
    if rng.random() < kwonly:
        for _ in range(rng.randrange(1, maxkw + 1)):
            ko.append(("k" + names.pop(0), ("d", value(rng)) if rng.random() < 0.5 else None))
    return Sig(ps[:cut], ps[cut:], "args" if rng.random() < varargs else None, ko, "kw" if rng.random() < varkw else None)


def rand_binding_call(rng, sig, value=scalar):
    """A valid call of sig: (args, kwargs), with random shape."""
    bindable = {}
    args, kwargs = [], {}
    pos = sig.positional
    npo = len(sig.posonly)
    need = sum(1 for n, d in sig.posonly if d is None)
    k = rng.randrange(need, len(pos) + 1) if len(pos) >= need else need
    for i in range(k):
        args.append(value(rng))
    if k == len(pos) and sig.varargs and rng.random() < 0.7:
        args.extend(value(rng) for _ in range(rng.randrange(3)))
    for i in range(k, len(pos)):
        n, d = pos[i]
        if i < npo:
            continue
        if d is None or rng.random() < 0.5:
            kwargs[n] = value(rng)
    for n, d in sig.kwonly:
        if d is None or rng.random() < 0.5:
            kwargs[n] = value(rng)
    if sig.varkw:
        for n in rng.sample(["x1", "x2", "x3"], rng.randrange(3)):
            kwargs[n] = value(rng)
    return tuple(args), shuffle_named(rng, sig, kwargs)


def shuffle_named(rng, sig, kwargs):
    """Permute named arguments, keeping the relative order of those which go to **kw."""
    known = {n for n, _ in sig.pos + sig.kwonly}
    a = [(k, v) for k, v in kwargs.items() if k in known]
    b = [(k, v) for k, v in kwargs.items() if k not in known]
    rng.shuffle(a)
    out = []
    while a or b:
        src = a if (a and (not b or rng.random() < 0.5)) else b
        out.append(src.pop(0))
    return dict(out)


def equivalent_call(rng, sig, binding):
    """Another call shape which binds to the same values."""
    args, kwargs = [], {}
    va = list(binding.get(sig.varargs, ())) if sig.varargs else []
    pos = sig.positional
    npo = len(sig.posonly)
    defaulted = [d is not None and d[1] is binding[n] for n, d in pos]
    if va:
        k = len(pos)
    else:
        k = rng.randrange(npo, len(pos) + 1)
        # posonly tail may be omitted when default
        if k == npo and rng.random() < 0.5:
            while k > 0 and defaulted[k - 1]:
                k -= 1
    for i in range(k):
        args.append(binding[pos[i][0]])
    for i in range(max(k, npo), len(pos)):
        n, d = pos[i]
        if defaulted[i] and rng.random() < 0.5:
            continue
        kwargs[n] = binding[n]
    args += va
    for n, d in sig.kwonly:
        if d is not None and d[1] is binding[n] and rng.random() < 0.5:
            continue
        kwargs[n] = binding[n]
    if sig.varkw:
        kwargs.update(binding[sig.varkw])
    return tuple(args), shuffle_named(rng, sig, kwargs)


def freeze(b):
    """Hashable, order-insensitive form of a binding dict."""
    return tuple(sorted((k, tuple(sorted(v.items(), key=lambda t: t[0])) if isinstance(v, dict) else v) for k, v in b.items()))


# -- iterables -----------------------------------------------------------------
class CountIter:
    """One-shot iterator which counts how many items were requested from it."""
    def __init__(self, it, limit=None, log=None):
        self.it, self.n, self.limit, self.log, self.ended = iter(it), 0, limit, log, 0
    def __iter__(self):
        return self
    def __next__(self):
        if self.limit is not None and self.n >= self.limit:
            raise AssertionError(f"over-consumption: item #{self.n + 1} requested, limit {self.limit}")
        try:
            x = next(self.it)
        except StopIteration:
            self.ended += 1
            raise
        self.n += 1
        if self.log is not None:
            self.log.append(x)
        return x


def as_iterable(rng, items):
    """Present the list `items` as some kind of iterable (reusable or one-shot)."""
    k = rng.randrange(6)
    if k == 0: return list(items)
    if k == 1: return tuple(items)
    if k == 2: return iter(list(items))
    if k == 3: return (x for x in list(items))
    if k == 4: return CountIter(list(items))
    return map(lambda x: x, list(items))
