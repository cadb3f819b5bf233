"""C16: cons cells and linked lists against nested Python tuples as the model."""
import copy
import itertools
import pickle
from vp.core import section, short
from vp.gen import as_iterable, CountIter
import importlib
L = importlib.import_module("unpythonic.llist")
from unpythonic.llist import (cons, nil, ll, llist, car, cdr, lreverse, lappend, lzip, member, LinkedListIterator, LinkedListOrCellIterator,
                              TailIterator, BinaryTreeIterator, JackOfAllTradesIterator)

NIL = ("NIL",)


class A:
    """leaf with equality by value"""
    def __init__(self, i): self.i = i
    def __eq__(self, o): return isinstance(o, A) and o.i == self.i
    def __hash__(self): return hash(("A", self.i))
    def __repr__(self): return f"A({self.i})"


def leaf(rng):
    return rng.choice([rng.randrange(6), "s%d" % rng.randrange(3), None, True, 2.5, (1, 2), A(rng.randrange(4)), ""])


def rand_model(rng, depth):
    """nested model: ("c", a, d) pairs, NIL, leaves"""
    r = rng.random()
    if depth == 0 or r < 0.15: return NIL if rng.random() < 0.3 else leaf(rng)
    if r < 0.55:
        m = NIL if rng.random() < 0.8 else leaf(rng)
        for _ in range(rng.randrange(1, 4)): m = ("c", rand_model(rng, depth - 1) if rng.random() < 0.4 else leaf(rng), m)
        return m
    return ("c", rand_model(rng, depth - 1), rand_model(rng, depth - 1))


def ispair(m): return isinstance(m, tuple) and len(m) == 3 and m[0] == "c"


def build(m):
    return cons(build(m[1]), build(m[2])) if ispair(m) else (nil if m is NIL else m)


def unbuild(x):
    """read a structure through car/cdr only"""
    return ("c", unbuild(x.car), unbuild(x.cdr)) if type(x) is cons else (NIL if x is nil else x)


def rebuild_fresh(m):
    """an equal structure made of new leaves where possible"""
    if ispair(m): return cons(rebuild_fresh(m[1]), rebuild_fresh(m[2]))
    return nil if m is NIL else (A(m.i) if isinstance(m, A) else m)


def aslist(m):
    """(items, tail)"""
    out = []
    while ispair(m):
        out.append(m[1]); m = m[2]
    return out, m


def tree(m): return tree(m[1]) + tree(m[2]) if ispair(m) else [m]
def jack(m):
    if not ispair(m): return [m]
    return jack(m[1]) + ([] if m[2] is NIL else jack(m[2]))


def take_until_error(it):
    out = []
    try:
        for x in it: out.append(unbuild(x))
    except TypeError:
        return out, "TypeError"
    return out, None


def lisp(m):
    if not ispair(m): return "nil" if m is NIL else repr(m)
    items, tail = aslist(m)
    if tail is NIL: return "(" + " ".join(lisp(x) for x in items) + ")"
    return f"({lisp(m[1])} . {lisp(m[2])})"


def pyrepr(m):
    if not ispair(m): return "nil" if m is NIL else repr(m)
    items, tail = aslist(m)
    if tail is NIL: return "ll(" + ", ".join(pyrepr(x) for x in items) + ")"
    return f"cons({pyrepr(m[1])}, {pyrepr(m[2])})"


ACC = ["c" + "".join(p) + "r" for n in range(1, 5) for p in itertools.product("ad", repeat=n)]


@section(quick=4000, require={"pair": 2500, "improper": 800, "accessor": 30000, "accessor-TypeError": 10000, "equal": 2500, "unequal": 1500})
def trees(ctx, rng):
    m = rand_model(rng, rng.choice([1, 2, 3, 4]))
    if not ispair(m): m = ("c", m, rng.choice([NIL, leaf(rng)]))
    x = build(m)
    ctx.note(structure=pyrepr(m))
    ctx.event("pair")
    items, tail = aslist(m)
    if tail is not NIL: ctx.event("improper")
    # accessors
    for name in ACC:
        f = getattr(L, name)
        cur = m
        for ch in reversed(name[1:-1]):
            if not ispair(cur):
                cur = "ERR"; break
            cur = cur[1] if ch == "a" else cur[2]
        ctx.event("accessor")
        try:
            got = f(x)
        except TypeError:
            ctx.event("accessor-TypeError")
            ctx.check(cur == "ERR", "accessor raised TypeError", name=name)
        else:
            ctx.check(cur != "ERR", "accessor accepted a non-cons", name=name, got=got)
            ctx.check(unbuild(got) == cur, "accessor", name=name, got=got, want=cur)
    # iterators
    ctx.same(take_until_error(BinaryTreeIterator(x)), (tree(m), None), "BinaryTreeIterator")
    ctx.same(take_until_error(JackOfAllTradesIterator(x)), (jack(m), None), "JackOfAllTradesIterator")
    ctx.same(take_until_error(LinkedListIterator(x)), (items, None if tail is NIL else "TypeError"), "LinkedListIterator")
    cell = len(items) == 1 and tail is not NIL
    ctx.same(take_until_error(x), (items + ([tail] if cell else []), None if tail is NIL or cell else "TypeError"), "default iteration")
    tails, q = [], m
    while ispair(q): tails.append(q); q = q[2]
    ctx.same(take_until_error(TailIterator(x)), (tails, None if tail is NIL else "TypeError"), "TailIterator")
    # unchanged by all this; immutable
    ctx.same(unbuild(x), m, "structure changed")
    for op in (lambda: setattr(x, "car", 1), lambda: setattr(x, "cdr", nil), lambda: setattr(x, "foo", 1), lambda: delattr(x, "car"), lambda: delattr(x, "cdr")):
        try:
            op()
            ctx.violate("a cons cell was modified")
        except TypeError:
            pass
    ctx.same(unbuild(x), m, "structure changed by a refused modification")
    # equality and hash
    y = rebuild_fresh(m)
    ctx.check(x == y and not x != y and y == x, "structurally equal cells are unequal")
    ctx.check(hash(x) == hash(y), "equal cells hash differently")
    ctx.event("equal")
    m2 = mutate(rng, m)
    if m2 != m:
        z = build(m2)
        ctx.check(x != z and not x == z and z != x, "structurally different cells are equal", other=pyrepr(m2))
        ctx.event("unequal")
    for o in (1, None, (1, 2), "ll(1)", nil, list(items)):
        ctx.check(x != o and not x == o, "a cons equals something else", o=o)
    # copies and pickles
    for c in (copy.copy(x), copy.deepcopy(x), *(pickle.loads(pickle.dumps(x, p)) for p in (0, 2, 5))):
        ctx.check(type(c) is cons and unbuild(c) == m and c == x and hash(c) == hash(x), "copy or pickle round trip", got=c)
    # printing
    ctx.same(repr(x), pyrepr(m), "repr")
    ctx.same(unbuild(eval(repr(x), {"ll": ll, "cons": cons, "nil": nil, "A": A})), m, "eval of repr")
    ctx.same(x.lispyrepr(), lisp(m), "lispyrepr")
    ctx.seen(pyrepr(m))


def mutate(rng, m):
    """change one place"""
    if not ispair(m) or rng.random() < 0.2:
        return rng.choice([NIL, "other", ("c", m, NIL), ("c", m, m)])
    k = rng.choice([1, 2])
    t = list(m)
    t[k] = mutate(rng, m[k])
    return tuple(t)


@section(quick=3000, require={"list": 3000, "empty": 200, "found": 500, "notfound": 500, "long": 10})
def lists(ctx, rng):
    long = rng.random() < 0.01
    n = rng.choice([0, 1, 2, 3, 5, 8]) if not long else rng.choice([3000, 20000])
    if long: ctx.event("long")
    if n == 0: ctx.event("empty")
    xs = [leaf(rng) for _ in range(n)]
    ctx.note(items=xs[:20])
    ctx.event("list")
    src = as_iterable(rng, xs)
    l = llist(src) if rng.random() < 0.6 else ll(*xs)
    def proper(l, xs, what):
        got, c, steps = [], l, 0
        while c is not nil:
            ctx.check(type(c) is cons, what + ": not a proper list", cell=type(c))
            got.append(c.car); c = c.cdr
        ctx.check(len(got) == len(xs) and all(a is b or a == b for a, b in zip(got, xs)), what, got=got[:20], want=xs[:20])
    proper(l, xs, "elements of the list")
    ctx.check((l is nil) == (n == 0), "nil iff empty")
    ctx.same(list(l), xs, "iteration")
    ctx.same(list(reversed(l)), xs[::-1], "reversed")
    proper(lreverse(l), xs[::-1], "lreverse")
    proper(lreverse(as_iterable(rng, xs)), xs[::-1], "lreverse of an iterable")
    proper(llist(reversed(l)), xs[::-1], "llist of reversed")
    proper(llist(l), xs, "llist of a list")
    if n:
        r = reversed(l)
        k = rng.randrange(0, min(n, 5) + 1)
        for _ in range(k): next(r)
        proper(llist(r), xs[::-1][k:], "llist of a partially consumed reversed", ) if k < n else ctx.check(llist(r) is nil, "llist of an exhausted reversed")
        a, *rest = l
        ctx.check(rest == xs[1:], "unpacking")
        ctx.check(isinstance(l, cons), "type")
        ctx.check(l == llist(xs) and hash(l) == hash(llist(xs)), "equality of equal lists")
        ctx.check(l != llist(xs + [1]) and l != llist(xs[:-1]), "lists of different lengths are equal")
    # member
    x = rng.choice(xs) if xs and rng.random() < 0.6 else rng.choice(["absent", 3, None])
    got = member(x, l)
    if x in xs:
        ctx.event("found")
        i = xs.index(x)
        c = l
        for _ in range(i): c = c.cdr
        ctx.check(got is c, "member gives the first matching tail", x=x, got=short(got))
    else:
        ctx.event("notfound")
        ctx.same(got, False, "member of an absent item")
    # append, zip
    parts = [[leaf(rng) for _ in range(rng.randrange(4))] for _ in range(rng.randrange(4))]
    ls = [llist(p) for p in parts]
    proper(lappend(*ls), sum(parts, []), "lappend")
    if not long: proper(lappend(l, *ls), sum([xs] + parts, []), "lappend to the list")
    for q, p in zip(ls, parts): proper(q, p, "lappend changed its input")
    if ls:
        z = lzip(*ls)
        want = list(zip(*parts))
        got = list(z)
        ctx.check(len(got) == len(want), "lzip length", got=z)
        for g, w in zip(got, want): proper(g, list(w), "lzip row")
    proper(l, xs, "list changed")
    ctx.check(repr(nil) == "nil" and list(nil) == [] and ll() is nil and llist([]) is nil and lreverse(nil) is nil and lappend() is nil, "nil")
    for r in (copy.copy(nil), copy.deepcopy(nil), pickle.loads(pickle.dumps(nil))):
        ctx.check(r is nil, "nil is a singleton", got=r)
    for f in (BinaryTreeIterator, JackOfAllTradesIterator, LinkedListIterator, LinkedListOrCellIterator, TailIterator, car, cdr, L.cadr):
        for bad in (nil, 5, (1, 2)):
            try:
                f(bad)
                ctx.violate("accepted something that is not a cons", f=f, bad=bad)
            except TypeError:
                pass
    ctx.seen(n, type(src))


@section(quick=60, require={"deep": 50})
def deep(ctx, rng):
    """iterators on deep structures (car-deep, cdr-deep, zigzag)"""
    n = rng.choice([2000, 5000, 20000])
    x, leaves = "end", ["end"]
    front, back = [], []
    for i in range(n):
        if rng.random() < 0.5: x = cons(i, x); front.append(i)
        else: x = cons(x, i); back.append(i)
    want = front[::-1] + leaves + back
    ctx.check(list(BinaryTreeIterator(x)) == want, "BinaryTreeIterator on a deep tree", n=n)
    ctx.check(list(JackOfAllTradesIterator(x)) == want, "JackOfAllTradesIterator on a deep tree", n=n)
    ctx.event("deep")
    ctx.seen(n, len(front))
    while isinstance(x, cons):  # take apart without deep recursion in deallocation
        x = x.car if isinstance(x.car, cons) else x.cdr
