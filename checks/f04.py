"""F04: run-time type checks. All type expressions up to a nesting depth x all values up to a size, vs. set semantics."""
from lib import mc
import collections, collections.abc as abc, copy, itertools, typing as t
from unpythonic import isoftype, frozendict, llist, cons

class Base: pass
class Derived(Base): pass
class Other: pass
class L(list): pass
class S(str): pass
class D(dict): pass
class CC:
    def __call__(self): return 1
P = collections.namedtuple("P", "x y")
class Seq(abc.Sequence):
    """user-defined sequence, not a subclass of a builtin"""
    def __init__(self, *xs): self.xs = xs
    def __len__(self): return len(self.xs)
    def __getitem__(self, i): return self.xs[i]
    def __repr__(self): return f"Seq{self.xs}"
class Meta(type): pass
class WithMeta(metaclass=Meta): pass
T_G = t.TypeVar("T_G")
class Gen(t.Generic[T_G]): pass

CLASSES = {"int": int, "str": str, "bool": bool, "float": float, "NoneType": type(None), "object": object, "list": list, "tuple": tuple, "dict": dict, "set": set, "bytes": bytes, "type": type,
           "Base": Base, "Derived": Derived, "L": L, "S": S, "D": D, "CC": CC, "P": P, "Seq": Seq, "WithMeta": WithMeta, "Meta": Meta, "Gen": Gen,
           "abcSequence": abc.Sequence, "abcMapping": abc.Mapping, "abcHashable": abc.Hashable, "abcCallable": abc.Callable, "frozendict": frozendict, "cons": cons, "deque": collections.deque, "OrderedDict": collections.OrderedDict}
COLL = {"List": (t.List, list), "Set": (t.Set, set), "FrozenSet": (t.FrozenSet, frozenset), "Deque": (t.Deque, collections.deque), "Sequence": (t.Sequence, abc.Sequence), "MutableSequence": (t.MutableSequence, abc.MutableSequence),
        "AbstractSet": (t.AbstractSet, abc.Set), "MutableSet": (t.MutableSet, abc.MutableSet), "KeysView": (t.KeysView, abc.KeysView), "ValuesView": (t.ValuesView, abc.ValuesView)}
MAPS = {"Dict": (t.Dict, dict), "Mapping": (t.Mapping, abc.Mapping), "MutableMapping": (t.MutableMapping, abc.MutableMapping)}
PROTO = {"Iterable": t.Iterable, "Iterator": t.Iterator, "Sized": t.Sized, "Hashable": t.Hashable, "Container": t.Container, "Collection": t.Collection}
UNARY = list(COLL)
BARE = {**{k: v for k, v in COLL.items()}, **MAPS}

def build(T):
    """type expression -> typing object"""
    if isinstance(T, str):
        if T in CLASSES: return CLASSES[T]
        if T == "Any": return t.Any
        if T == "TypeVar": return t.TypeVar("TV")
        if T == "AnyStr": return t.AnyStr
        if T == "Text": return t.Text
        if T == "bareTuple": return t.Tuple
        if T == "bareUnion": return t.Union
        if T == "Callable": return t.Callable
        if T == "bareItemsView": return t.ItemsView
        if T in PROTO: return PROTO[T]
        return BARE[T[4:]][0]
    h, *a = T
    if h == "Union": return t.Union[tuple(build(x) for x in a)]
    if h == "Optional": return t.Optional[build(a[0])]
    if h == "Tuple": return t.Tuple[tuple(build(x) for x in a)] if a else t.Tuple[()]
    if h == "TupleOf": return t.Tuple[build(a[0]), ...]
    if h in COLL: return COLL[h][0][build(a[0])]
    if h in MAPS: return MAPS[h][0][build(a[0]), build(a[1])]
    if h == "ItemsView": return t.ItemsView[build(a[0]), build(a[1])]
    if h == "NewType": return t.NewType("NT", build(a[0]))
    if h == "TypeVar": return t.TypeVar("TVC", *(build(x) for x in a))
    if h == "Callable": return t.Callable[[build(a[0])], build(a[1])]
    raise ValueError(T)

def mem(v, T):
    """set semantics -> True | False | None (not specified)"""
    if isinstance(T, str):
        if T in CLASSES: return isinstance(v, CLASSES[T])
        if T in ("Any", "TypeVar"): return True
        if T == "AnyStr": return isinstance(v, (str, bytes))
        if T == "Text": return isinstance(v, str)
        if T == "bareTuple": return isinstance(v, tuple)
        if T == "bareUnion": return False
        if T == "Callable": return callable(v)
        if T in PROTO: return isinstance(v, getattr(abc, T))
        r = abc.ItemsView if T == "bareItemsView" else BARE[T[4:]][1]
        if not isinstance(v, r): return False
        return True if len(v) else None         # bare `typing.List` etc. of an empty collection: left open
    h, *a = T
    if h in ("Union", "TypeVar"):
        rs = [mem(v, x) for x in a]
        return True if True in rs else (None if None in rs else False)
    if h == "Optional":
        return True if v is None else mem(v, a[0])
    if h == "NewType": return mem(v, a[0])
    if h == "Callable": return callable(v)
    def conj(it):
        rs = [mem(x, y) for x, y in it]
        return False if False in rs else (None if None in rs else True)
    if h == "Tuple":
        if not isinstance(v, tuple) or len(v) != len(a): return False
        return conj(zip(v, a))
    # a documented convention: an empty collection has no element type, so it belongs to no parametrized collection type
    if h == "TupleOf":
        return isinstance(v, tuple) and len(v) > 0 and conj((x, a[0]) for x in v)
    if h in COLL:
        return isinstance(v, COLL[h][1]) and len(v) > 0 and conj((x, a[0]) for x in v)
    if h in MAPS:
        return isinstance(v, MAPS[h][1]) and len(v) > 0 and conj(itertools.chain.from_iterable(((k, a[0]), (x, a[1])) for k, x in v.items()))
    if h == "ItemsView":
        return isinstance(v, abc.ItemsView) and len(v) > 0 and conj(itertools.chain.from_iterable(((k, a[0]), (x, a[1])) for k, x in v))
    raise ValueError(T)

def values():
    atoms = [1, True, 0, "a", "", None, 1.5, b"a", b"", Base(), Derived(), P(1, "a"), S("x"), L([1]), L(), D({1: "a"}), len, CC(), int, WithMeta(), WithMeta, Gen(), Seq(), Seq(1), Seq(1, "a"), range(2), llist((1, 2)),
             frozendict({1: "a"}), frozendict(), collections.OrderedDict({1: "a"}), bytearray(b"ab"), Ellipsis]
    out = list(atoms)
    small = [1, "a", None]
    lvl1 = []
    for n in (0, 1, 2, 3):
        for xs in itertools.product(small if n < 3 else small[:2], repeat=n):
            lvl1 += [list(xs), tuple(xs)]
            if n < 3:
                lvl1 += [set(xs), frozenset(xs), collections.deque(xs)]
            if n == 2:
                d = {xs[0]: xs[1]}
                lvl1 += [d, d.keys(), d.values(), d.items()]
                if xs[0] == 1:
                    for k2, v2 in itertools.product(["a", None], ["a", 1]):
                        e = {1: xs[1], k2: v2}
                        lvl1 += [e, e.keys(), e.values(), e.items()]
    d0 = {}
    lvl1 += [d0, d0.keys(), d0.values(), d0.items()]
    out += lvl1
    inner = [[1], ["a"], [1, "a"], [], (1,), ("a",), (1, "a"), (), {1: "a"}, {"a": 1}, {}, frozenset([1]), frozenset(), L([1]), P(1, "a")]
    for x in inner:
        out += [[x], (x,), [x, x], (1, x), {1: x}, collections.deque([x])]
        try:
            out += [{x: 1}, {x}, frozenset([x])]
        except TypeError:
            pass
    for x, y in itertools.permutations(inner[:9], 2):
        out += [[x, y], (x, y), {1: x, 2: y}]
    out += [[[[1]], [["a"]]], [[[1]], [[1]]], {1: {1: ["a", 1]}}, ([(1, "a")], [("a", 1)]), [[(1,), ()]]]
    return out
VALUES = values()
ITERS = lambda: [iter([1, 2]), (x for x in (1, 2)), map(str, [1, 2]), iter({1: 2}), iter(("a", 1))]
SNAP = [repr(v) for v in VALUES]

BASE = list(CLASSES) + ["Any", "TypeVar", "AnyStr", "Text", "bareTuple", "bareUnion", "Callable", "bareItemsView"] + ["bare" + k for k in BARE] + list(PROTO)

def grow(args):
    args = list(args)
    for a in args:
        for h in UNARY + ["TupleOf", "Optional", "NewType"]:
            yield [h, a]
        yield ["Tuple", a]
    for a, b in itertools.product(args, repeat=2):
        for h in list(MAPS) + ["ItemsView", "Tuple", "Callable"]:
            yield [h, a, b]
        if a != b:
            yield ["Union", a, b]
            yield ["TypeVar", a, b]

def valid(T):
    """Hashable-free parts; KeysView etc. fine. The bare Union is no legal argument."""
    return True

def ty_gen(tier):
    for T in BASE:
        yield [T]
    yield [["Tuple"]]
    args1 = ["int", "str", "Any", "TypeVar", "NoneType", "Base", "Callable", "list", "P", "bareTuple"]
    if tier != "quick":
        args1 += ["L", "object", "AnyStr", "Text", "bool", "CC", "tuple", "dict", "Hashable", "float"]
    for T in grow(args1):
        yield [T]
    for T in itertools.product(("int", "str", "Any"), repeat=3):
        yield [["Tuple", *T]]
        yield [["Union", *T]]
    args2 = list(grow(["int", "str"])) + [["Tuple"], "int", "Any", "P", "L"]
    if tier == "quick":
        keep = ("List", "Sequence", "TupleOf", "Tuple", "Dict", "Mapping", "Union", "Optional", "NewType", "FrozenSet", "TypeVar")
        args2 = [x for x in args2 if isinstance(x, str) or x[0] in keep]
    for T in grow(args2):
        yield [T]

def ty_run(case):
    (T,) = case
    TT = build(T)
    for v, snap in zip(VALUES, SNAP):
        want = mem(v, T)
        got = isoftype(v, TT)
        mc.step()
        if want is None:
            mc.check(got in (True, False), lambda: f"isoftype({v!r}, {TT}) -> {got!r}")
        else:
            mc.check(got is want, lambda: f"isoftype({v!r}, {TT}) -> {got!r}, expected {want}")
    mc.check([repr(v) for v in VALUES] == SNAP, lambda: f"checking against {TT} modified a value")
    for it, ref in zip(ITERS(), ITERS()):
        want = mem(it, T)
        got = isoftype(it, TT)
        mc.step()
        mc.check(want is None or got is want, lambda: f"isoftype({it!r}, {TT}) -> {got!r}, expected {want}")
        mc.check(list(it) == list(ref), lambda: f"checking an iterator against {TT} consumed it")
    mc.state((str(T)))

# three levels of nesting on a smaller alphabet
def deep_gen(tier):
    a = ["int", "str"]
    cons1 = ["List", "TupleOf", "Sequence", "Optional", "NewType"]
    cons2 = ["Dict", "Tuple", "Union"]
    def lv(args):
        for x in args:
            for h in cons1:
                yield [h, x]
        for x, y in itertools.product(args, repeat=2):
            for h in cons2:
                if h != "Union" or x != y:
                    yield [h, x, y]
    l1 = list(lv(a))
    l2 = list(lv(l1[:9] if tier == "quick" else l1))
    for x in l2:
        for h in cons1:
            yield [[h, x]]
        for y in a + l1[:4]:
            for h in cons2:
                yield [[h, x, y]]
                yield [[h, y, x]]

# long containers: the one element of another type sits at every position
LONG = (3, 12, 33)
def long_values(n, pos):
    """all containers of n ints where the element at pos (if any) is a str"""
    xs = [k + 1000 for k in range(n)]
    if pos is not None:
        xs[pos] = "odd"
    dk = {x: 1 for x in xs}
    dv = {k: x for k, x in enumerate(xs)}
    out = [xs, tuple(xs), set(xs), frozenset(xs), collections.deque(xs), L(xs), Seq(*xs), dk, dv, D(dk), D(dv), frozendict(dk), frozendict(dv), collections.OrderedDict(dk), collections.OrderedDict(dv)]
    for d in (dk, dv):
        out += [d.keys(), d.values(), d.items()]
    out += [[xs, xs], [[1], xs], {1: xs}, {tuple(xs): 1}, (xs, 1), [dv], llist(xs)]
    return out

def long_gen(tier):
    for n in LONG if tier == "quick" else LONG + (64, 130):
        for pos in [None] + list(range(n)):
            yield [n, pos]

LONGT = [[h, a] for h in UNARY + ["TupleOf"] for a in ("int", "str")] + [[h, a, b] for h in list(MAPS) + ["ItemsView"] for a in ("int", "str") for b in ("int", "str")]
LONGT += [["List", ["List", "int"]], ["Dict", "int", ["List", "int"]], ["Dict", ["TupleOf", "int"], "int"], ["Tuple", ["Sequence", "int"], "int"], ["List", ["Mapping", "int", "int"]],
          ["Sequence", ["Union", "int", "str"]], ["List", ["Optional", "int"]], ["List", ["Union", "str", "float"]], ["Set", ["Union", "int", "str"]], "Any", ["Union", ["List", "int"], ["List", "str"]], ["Optional", ["Dict", "int", "int"]]]
def long_run(case):
    n, pos = case
    for v in long_values(n, pos):
        for T in LONGT + [["Tuple"] + ["int"] * n, ["Tuple"] + ["int" if k != pos else "str" for k in range(n)], ["Tuple"] + ["int"] * (n + 1)]:
            TT = build(T)
            want = mem(v, T)
            got = isoftype(v, TT)
            mc.step()
            mc.check(want is None or got is want, lambda: f"isoftype({v!r}, {TT}) -> {got!r}, expected {want}")
    mc.state(case)

SPACES = [
    mc.Space("types", ty_gen, ty_run, "all base types, all constructors over 10 (20) base types, all constructors over all constructors over {int, str}; x about 550 values of nesting <=3 plus 5 iterators"),
    mc.Space("long", long_gen, long_run, "containers of 3, 12, 33 (thorough: 64, 130) elements x 25 kinds of container x the one odd element at every position x 50 types"),
    mc.Space("nested", deep_gen, ty_run, "three levels of 8 constructors over {int, str}; x the same values"),
]
