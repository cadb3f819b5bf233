"""Type specifications with an independent membership reference, and values grown from them (C11, C12)."""
import collections
import collections.abc as abc
import types as _types
import typing


class MyStr(str): pass
class MyList(list): pass
class MyInt(int): pass
class MyDict(dict): pass
class NT(collections.namedtuple("NT", "a b")): pass
class Plain: pass
class Sub(Plain): pass
class Num:
    def __int__(self): return 1
    def __float__(self): return 1.0
class Abs:
    def __abs__(self): return 1
class Rnd:
    def __round__(self, n=0): return 1
class Idx:
    def __index__(self): return 1
class Unhashable:
    __hash__ = None
class RO(abc.Mapping):
    """a read-only mapping"""
    def __init__(self, d): self.d = dict(d)
    def __getitem__(self, k): return self.d[k]
    def __iter__(self): return iter(self.d)
    def __len__(self): return len(self.d)
    def __repr__(self): return f"RO({self.d})"
class ROSeq(abc.Sequence):
    def __init__(self, d): self.d = list(d)
    def __getitem__(self, k): return self.d[k]
    def __len__(self): return len(self.d)
    def __repr__(self): return f"ROSeq({self.d})"


SCALARS = [0, 1, -5, True, False, 2.5, 1j, "", "a", "abc", b"", b"xy", None, MyStr("m"), MyInt(3), Plain(), Sub(), Num(), Abs(), Rnd(), Idx(),
           Unhashable(), len, (lambda x: x), int, Plain, Ellipsis, range(0), range(3)]
CLASSES = [int, str, float, bool, complex, bytes, type(None), object, MyStr, MyInt, Plain, Sub, list, tuple, dict, set, frozenset, MyList, NT,
           MyDict, range, bytearray, collections.OrderedDict, collections.deque, type, abc.Sequence, abc.Mapping, abc.Hashable, collections.Counter]
COLL = {"List": list, "Set": set, "FrozenSet": frozenset, "Deque": collections.deque, "MutableSet": abc.MutableSet,
        "AbstractSet": abc.Set, "MutableSequence": abc.MutableSequence, "Sequence": abc.Sequence}
MAPS = {"Dict": dict, "MutableMapping": abc.MutableMapping, "Mapping": abc.Mapping}
PROT = {**{n: (lambda v, c=getattr(abc, n): isinstance(v, c)) for n in ("Sized", "Iterable", "Container", "Hashable", "Iterator", "Collection", "Reversible")},
        "SupportsInt": lambda v: hasattr(type(v), "__int__"), "SupportsFloat": lambda v: hasattr(type(v), "__float__"),
        "SupportsComplex": lambda v: hasattr(type(v), "__complex__"), "SupportsBytes": lambda v: hasattr(type(v), "__bytes__"),
        "SupportsIndex": lambda v: hasattr(type(v), "__index__"), "SupportsAbs": lambda v: hasattr(type(v), "__abs__"),
        "SupportsRound": lambda v: hasattr(type(v), "__round__")}
class Proto(typing.Protocol):
    def frob(self): ...


UNSUPPORTED = [Proto, typing.Literal[1], typing.Generator[int, None, None], typing.ContextManager[int], typing.Type[int], typing.NoReturn,
               typing.Iterable[int], typing.Iterator[int], typing.ClassVar[int], typing.DefaultDict[str, int], typing.Counter[str]]


class Spec:
    """kind, args -> .T (the typing object), .ok(value) (reference)"""
    def __init__(self, kind, *args):
        self.kind, self.args = kind, args
        self.T = self._typing()
    def __repr__(self):
        return f"{self.kind}{list(self.args) if self.args else ''}"

    def _typing(self):
        k, a = self.kind, self.args
        if k == "Any": return typing.Any
        if k == "class": return a[0]
        if k == "TypeVar": return typing.TypeVar("T")
        if k == "CTypeVar": return typing.TypeVar("T", *[s.T for s in a])
        if k == "Union": return typing.Union[tuple(s.T for s in a)]
        if k == "Optional": return typing.Optional[a[0].T]
        if k == "NewType": return typing.NewType("N", a[0].T)
        if k == "Tuple": return typing.Tuple[tuple(s.T for s in a)] if a else typing.Tuple[()]
        if k == "TupleHomo": return typing.Tuple[a[0].T, ...]
        if k == "TupleBare": return typing.Tuple
        if k == "Callable": return typing.Callable
        if k == "CallableArgs": return typing.Callable[[s.T for s in a[:-1]], a[-1].T]
        if k == "CallableEll": return typing.Callable[..., a[0].T]
        if k == "Text": return typing.Text
        if k == "AnyStr": return typing.AnyStr
        if k == "ByteString": return typing.ByteString
        if k in ("ItemsView", "KeysView", "ValuesView") or k in COLL or k in MAPS:
            return getattr(typing, k)[tuple(s.T for s in a)]
        if k in PROT: return getattr(typing, k)
        raise AssertionError(k)

    def ok(self, v):
        k, a = self.kind, self.args
        if k in ("Any", "TypeVar"): return True
        if k == "class": return isinstance(v, a[0])
        if k in ("CTypeVar", "Union"): return any(s.ok(v) for s in a)
        if k == "Optional": return v is None or a[0].ok(v)
        if k == "NewType": return a[0].ok(v)
        if k == "Tuple": return isinstance(v, tuple) and len(v) == len(a) and all(s.ok(x) for s, x in zip(a, v))
        if k == "TupleHomo": return isinstance(v, tuple) and len(v) > 0 and all(a[0].ok(x) for x in v)
        if k == "TupleBare": return isinstance(v, tuple)
        if k.startswith("Callable"): return callable(v)
        if k == "Text": return isinstance(v, str)
        if k == "AnyStr": return isinstance(v, (str, bytes))
        if k == "ByteString": return isinstance(v, (bytes, bytearray)) and len(v) > 0
        if k in COLL: return isinstance(v, COLL[k]) and len(v) > 0 and all(a[0].ok(x) for x in v)
        if k in MAPS: return isinstance(v, MAPS[k]) and len(v) > 0 and all(a[0].ok(x) and a[1].ok(y) for x, y in v.items())
        if k == "ItemsView": return isinstance(v, abc.ItemsView) and len(v) > 0 and all(a[0].ok(x) and a[1].ok(y) for x, y in v)
        if k == "KeysView": return isinstance(v, abc.KeysView) and len(v) > 0 and all(a[0].ok(x) for x in v)
        if k == "ValuesView": return isinstance(v, abc.ValuesView) and len(v) > 0 and all(a[0].ok(x) for x in v)
        if k in PROT: return PROT[k](v)
        raise AssertionError(k)


def spec(rng, depth=2, hashable=False):
    r = rng.random()
    if depth <= 0 or r < 0.3:
        k = rng.choice(["class", "class", "class", "Any", "TypeVar", "Text", "AnyStr", "ByteString", "Callable", "TupleBare"] + list(PROT))
        return Spec(k, rng.choice(CLASSES)) if k == "class" else Spec(k)
    sub = lambda: spec(rng, depth - 1)
    k = rng.choice(["CTypeVar", "Union", "Union", "Optional", "NewType", "Tuple", "Tuple", "TupleHomo", "CallableArgs", "CallableEll",
                    "ItemsView", "KeysView", "ValuesView"] + list(COLL) + list(MAPS))
    if k == "CTypeVar": return Spec(k, sub(), sub())
    if k == "Union": return Spec(k, *[sub() for _ in range(rng.randrange(2, 4))])
    if k == "Tuple": return Spec(k, *[sub() for _ in range(rng.randrange(0, 4))])
    if k in MAPS or k in ("ItemsView", "CallableArgs"): return Spec(k, sub(), sub())
    return Spec(k, sub())


def hashable(v):
    try:
        hash(v)
        return True
    except TypeError:
        return False


def anyvalue(rng, depth=2):
    if depth <= 0 or rng.random() < 0.5:
        return rng.choice(SCALARS)
    n = rng.choice([0, 1, 1, 2, 3])
    xs = [anyvalue(rng, depth - 1) for _ in range(n)]
    return container(rng, rng.choice(["list", "tuple", "set", "frozenset", "deque", "dict", "items", "keys", "values", "MyList", "NT", "ROSeq", "RO", "bytearray", "gen", "OrderedDict"]), xs)


def container(rng, kind, xs):
    hs = [x for x in xs if hashable(x)]
    if kind == "list": return list(xs)
    if kind == "tuple": return tuple(xs)
    if kind == "set": return set(hs)
    if kind == "frozenset": return frozenset(hs)
    if kind == "deque": return collections.deque(xs)
    if kind == "MyList": return MyList(xs)
    if kind == "NT": return NT(*(xs + [1, 2])[:2])
    if kind == "ROSeq": return ROSeq(xs)
    if kind == "bytearray": return bytearray(b"q" * len(xs))
    if kind == "gen": return iter(list(xs))
    d = dict(zip(hs, xs))
    if kind == "dict": return d
    if kind == "items": return d.items()
    if kind == "keys": return d.keys()
    if kind == "values": return d.values()
    if kind == "RO": return RO(d)
    if kind == "OrderedDict": return collections.OrderedDict(d)


class NoValue(Exception):
    pass


def value_of(rng, s, depth=3):
    """A value meant to belong to s (may fail with NoValue)."""
    k, a = s.kind, s.args
    if depth < 0: raise NoValue
    one = lambda t: value_of(rng, t, depth - 1)
    many = lambda t: [one(t) for _ in range(rng.choice([1, 1, 2, 3]))]
    if k in ("CTypeVar", "Union"): return one(rng.choice(a))
    if k == "Optional": return None if rng.random() < 0.3 else one(a[0])
    if k == "NewType": return one(a[0])
    if k == "Tuple": return tuple(one(t) for t in a)
    if k == "TupleHomo": return tuple(many(a[0]))
    if k in COLL:
        xs = many(a[0])
        kind = rng.choice({"List": ["list", "MyList"], "Set": ["set"], "FrozenSet": ["frozenset"], "Deque": ["deque"], "MutableSet": ["set"],
                           "AbstractSet": ["set", "frozenset", "keys"], "MutableSequence": ["list", "deque", "MyList"], "Sequence": ["list", "tuple", "ROSeq", "deque"]}[k])
        return container(rng, kind, xs)
    if k in MAPS or k == "ItemsView":
        ks = [x for x in many(a[0]) if hashable(x)]
        if not ks: raise NoValue
        d = {x: one(a[1]) for x in ks}
        if k == "ItemsView": return d.items()
        return rng.choice([d, RO(d), collections.OrderedDict(d)]) if k == "Mapping" else rng.choice([d, MyDict(d), collections.OrderedDict(d)])
    if k in ("KeysView", "ValuesView"):
        xs = many(a[0])
        if k == "KeysView":
            return {x: 1 for x in xs if hashable(x)}.keys()
        return dict(enumerate(xs)).values()
    for _ in range(30):
        v = anyvalue(rng, 1)
        if s.ok(v): return v
    raise NoValue


def case(rng, depth=2):
    s = spec(rng, depth)
    r = rng.random()
    v = None
    if r < 0.7:
        try:
            v = value_of(rng, s)
        except NoValue:
            v = anyvalue(rng)
        if r > 0.45:
            v = tweak(rng, v)
    else:
        v = anyvalue(rng)
    return s, v


def tweak(rng, v):
    """change one element of a container, empty it, or change its type"""
    r = rng.random()
    if isinstance(v, (list, tuple, collections.deque)) and not isinstance(v, NT):
        xs = list(v)
        if r < 0.2: xs = []
        elif xs and r < 0.8:
            i = rng.randrange(len(xs))
            xs[i] = tweak(rng, xs[i]) if rng.random() < 0.5 else anyvalue(rng, 1)
        elif r < 0.9:
            return rng.choice([tuple, list, collections.deque, ROSeq])(xs)
        else:
            xs.append(anyvalue(rng, 1))
        return type(v)(xs)
    if isinstance(v, (set, frozenset)):
        x = anyvalue(rng, 1)
        return type(v)(list(v) + [x]) if hashable(x) and r < 0.6 else (frozenset if isinstance(v, set) else set)(v)
    if isinstance(v, dict):
        d = dict(v)
        if r < 0.15: d = {}
        elif d and r < 0.6:
            k = rng.choice(list(d))
            d[k] = anyvalue(rng, 1)
        elif d and r < 0.8:
            x = anyvalue(rng, 1)
            if hashable(x): d[x] = d.pop(rng.choice(list(d)))
        else:
            return rng.choice([lambda: RO(d), lambda: d.items(), lambda: d.keys(), lambda: d.values()])()
        return d
    return anyvalue(rng, 1)
