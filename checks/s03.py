"""S03: cons structures vs. their nested pair / tuple abstraction."""
from lib import mc
import copy, itertools, pickle
import unpythonic
from unpythonic import foldl, foldr
from unpythonic.llist import (cons, nil, car, cdr, ll, llist, lreverse, lappend, lzip, member, LinkedListIterator,
                              LinkedListOrCellIterator, TailIterator, BinaryTreeIterator, JackOfAllTradesIterator, ConsIterator)
import sys
M = sys.modules["unpythonic.llist"]

# ---- model: a tree is "n" (nil), an int/str atom, or ["c", a, d]
def trees(n, leaves):
    """All binary trees with exactly n cells."""
    if n == 0:
        yield from leaves
        return
    for k in range(n):
        for a in trees(k, leaves):
            for d in trees(n - 1 - k, leaves):
                yield ["c", a, d]

def isc(t):
    return isinstance(t, (list, tuple))
def build(t):
    if isc(t):
        return cons(build(t[1]), build(t[2]))
    return nil if t == "n" else t
def spine(t):
    """(cars, final cdr)"""
    out = []
    while isc(t):
        out.append(t[1])
        t = t[2]
    return out, t
def islist(t):
    return spine(t)[1] == "n"
def leaves(t):
    return leaves(t[1]) + leaves(t[2]) if isc(t) else [t]
def jack(t):
    if not isc(t):
        return [t]
    return jack(t[1]) + ([] if t[2] == "n" else jack(t[2]))
def pyrepr(t):
    if not isc(t):
        return "nil" if t == "n" else repr(t)
    xs, end = spine(t)
    if end == "n":
        return f"ll({', '.join(pyrepr(x) for x in xs)})"
    return f"cons({pyrepr(t[1])}, {pyrepr(t[2])})"
def lisprepr(t):
    if not isc(t):
        return "nil" if t == "n" else repr(t)
    xs, end = spine(t)
    if end == "n":
        return f"({' '.join(lisprepr(x) for x in xs)})"
    return f"({lisprepr(t[1])} . {lisprepr(t[2])})"
def unbuild(x):
    if type(x) is cons:
        return ["c", unbuild(x.car), unbuild(x.cdr)]
    return "n" if x is nil else x
def norm(t):
    return ["c", norm(t[1]), norm(t[2])] if isc(t) else t

def consume(it):
    """Items, then 'end' or the exception name."""
    out = []
    while True:
        try:
            out.append(unbuild(next(it)))
        except StopIteration:
            return out, "end"
        except Exception as e:
            return out, type(e).__name__

ACC = [(p, getattr(M, f"c{''.join(p)}r")) for n in (1, 2, 3, 4) for p in itertools.product("ad", repeat=n)]

def tr_gen(tier):
    for n in (1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5):
        for t in trees(n, ["n", 1, None, 0, ""] if n < 4 else ["n", 1, None] if n < 5 else ["n", None]):
            yield t

def tr_run(t):
    t = norm(t)
    c = build(t)
    mc.state(t)
    xs, end = spine(t)
    w = lambda: lisprepr(t)
    # iteration schemes
    want_l = (xs, "end") if end == "n" else (xs, "TypeError")
    mc.check(consume(LinkedListIterator(c)) == want_l, lambda: f"{w()}: LinkedListIterator {consume(LinkedListIterator(c))}")
    mc.check(consume(LinkedListIterator(c, _fullerror=False)) == want_l, lambda: f"{w()}: LinkedListIterator")
    if end == "n": want = (xs, "end")
    elif len(xs) == 1: want = (xs + [end], "end")
    else: want = (xs, "TypeError")
    for mk in (iter, LinkedListOrCellIterator):
        mc.check(consume(mk(c)) == want, lambda: f"{w()}: default iteration {consume(mk(c))}, expected {want}")
    tails, u = [], t
    while isc(u):
        tails.append(u)
        u = u[2]
    mc.check(consume(TailIterator(c)) == (tails, want_l[1]), lambda: f"{w()}: TailIterator {consume(TailIterator(c))}")
    mc.check(consume(BinaryTreeIterator(c)) == (leaves(t), "end"), lambda: f"{w()}: BinaryTreeIterator {consume(BinaryTreeIterator(c))}")
    mc.check(consume(JackOfAllTradesIterator(c)) == (jack(t), "end"), lambda: f"{w()}: JackOfAllTradesIterator {consume(JackOfAllTradesIterator(c))}")
    # tails are the cells themselves (structure is shared)
    if end == "n":
        for a, b in zip(TailIterator(c), TailIterator(c)):
            mc.check(a is b, lambda: f"{w()}: TailIterator copies")
    # reverse, sizes
    if end == "n" or len(xs) == 1:
        items = want[0]
        mc.check(consume(reversed(c)) == (items[::-1], "end"), lambda: f"{w()}: reversed {consume(reversed(c))}")
        mc.check(unbuild(lreverse(c)) == listtree(items[::-1]), lambda: f"{w()}: lreverse")
        mc.check(unbuild(llist(reversed(c))) == listtree(items[::-1]), lambda: f"{w()}: llist(reversed())")
        for k in range(len(items) + 1):
            it = reversed(c)
            for _ in range(k):
                next(it)
            got = unbuild(llist(it))
            mc.check(got == listtree(items[::-1][k:]), lambda: f"{w()}: llist of a reverse iterator advanced by {k} gives {got}")
        mc.check(unbuild(llist(c)) == listtree(items), lambda: f"{w()}: llist of cons")
    else:
        for f in (reversed, lreverse, llist, tuple, lambda x: lappend(x, ll(1)), lambda x: lzip(x, ll(1, 2, 3, 4, 5, 6)), lambda x: member("no", x)):
            mc.check(mc.outcome(f, c) == ("exc", "TypeError"), lambda: f"{w()}: a malformed list was accepted by {f}: {mc.outcome(f, c)}")
    if end != "n":
        mc.check(mc.outcome(member, "no", c) == ("exc", "TypeError"), lambda: f"{w()}: member accepts a malformed list")
    # accessors
    for path, f in ACC:
        u = t
        ok = True
        for ch in reversed(path):
            if not isc(u):
                ok = False
                break
            u = u[1] if ch == "a" else u[2]
        got = mc.outcome(lambda: unbuild(f(c)))
        want = ("ok", u) if ok else ("exc", "TypeError")
        mc.check(got == want, lambda: f"c{''.join(path)}r of {w()} gives {got}, expected {want}")
    mc.step(len(ACC) + 12)
    # representations
    mc.check(repr(c) == pyrepr(t), lambda: f"repr of {w()} is {c!r}")
    mc.check(eval(repr(c), {"cons": cons, "ll": ll, "nil": nil}) == c, lambda: f"eval of repr {c!r}")
    mc.check(c.lispyrepr() == lisprepr(t), lambda: f"lispyrepr of {pyrepr(t)} is {c.lispyrepr()}")
    # value semantics
    d = build(t)
    mc.check(c == d and not (c != d) and hash(c) == hash(d), lambda: f"{w()}: equal structures differ or hash differently")
    for bad in (None, 1, (1, 2), nil, "n", [1]):
        mc.check(not (c == bad) and c != bad and not (bad == c), lambda: f"{w()} == {bad!r}")
    for k in range(2, pickle.HIGHEST_PROTOCOL + 1):
        e = pickle.loads(pickle.dumps(c, protocol=k))
        mc.check(unbuild(e) == t and e == c and hash(e) == hash(c), lambda: f"{w()}: pickle round trip gives {e!r}")
        imm(e, w)
    for f in (copy.copy, copy.deepcopy):
        e = f(c)
        mc.check(unbuild(e) == t and e == c, lambda: f"{w()}: {f.__name__} gives {e!r}")
        imm(e, w)
    imm(c, w)
    mc.check(unbuild(c) == t, lambda: f"{w()}: changed by reading")

def imm(c, w):
    a, d = c.car, c.cdr
    def s1(): c.car = "x"
    def s2(): c.cdr = "x"
    def s3(): c.other = "x"
    def s4(): del c.car
    def s5(): del c.cdr
    def s6(): c.__init__("x", "y")
    for s in (s1, s2, s3, s4, s5, s6):
        mc.check(mc.outcome(s) == ("exc", "TypeError"), lambda: f"{w()}: a cell could be changed ({s.__name__})")
    mc.check(c.car is a and c.cdr is d, lambda: f"{w()}: a cell has changed")

def listtree(xs):
    t = "n"
    for x in reversed(xs):
        t = ["c", x, t]
    return t

# ---- equality and hashing over all pairs
def eq_gen(tier):
    lv = ["n", 1, None, 0] if tier == "quick" else ["n", 1, None, 0, "a", ""]
    for n in (1, 2, 3):
        for t in trees(n, lv):
            yield t
_all = {}
def eq_run(t):
    t = norm(t)
    if "x" not in _all:
        _all["x"] = [(norm(u), build(u)) for n in (1, 2, 3) for u in trees(n, ["n", 1, None, 0])]
    c = build(t)
    for u, d in _all["x"]:
        same = u == t
        mc.check((c == d) is same and (d == c) is same and (c != d) is (not same), lambda: f"{lisprepr(t)} == {lisprepr(u)} gives {c == d}")
        if same:
            mc.check(hash(c) == hash(d), "hash")
    mc.step(len(_all["x"]))
    mc.state(t)

# ---- list operations
ELT = {"0": 0, "1": 1, "N": None, "L": ["c", 1, "n"], "n": "n", "P": ["c", 1, 2]}
def elt(e):
    x = ELT[e]
    return build(x)
def tl(s):
    return tuple(elt(e) for e in s)

def ls_gen(tier):
    n = 4 if tier == "quick" else 5
    for s in mc.seqs("01NLnP", n):
        yield "".join(s)

class Gen:
    """An iterable that is not a sequence and can be iterated once."""
    def __init__(self, xs): self.it = iter(xs)
    def __iter__(self): return self.it

def aslist(c, what):
    out = []
    while c is not nil:
        mc.check(type(c) is cons, lambda: f"{what}: not a linked list")
        out.append(c.car)
        c = c.cdr
    return tuple(out)

def ls_run(s):
    t = tl(s)
    mc.state(s)
    same = lambda a, b: len(a) == len(b) and all(x is y or x == y for x, y in zip(a, b))
    def is_(c, want, what):
        got = aslist(c, what)
        mc.check(same(got, want), lambda: f"{what} of {t}: {got}, expected {want}")
    l = ll(*t)
    if not t:
        mc.check(l is nil and llist(()) is nil and lreverse(nil) is nil and lappend(nil, nil) is nil and lappend() is nil and llist(nil) is nil
                 and tuple(reversed(nil)) == () and bool(nil) is bool(nil) and llist(reversed(nil)) is nil, "empty list is nil")
        mc.check(tuple(nil) == () and list(nil) == [], "nil iterates as empty")
    is_(l, t, "ll")
    for k, mk in enumerate((list, tuple, iter, Gen, lambda x: (y for y in x), lambda x: ll(*x), lambda x: iter(ll(*x)), lambda x: map(lambda y: y, x), lambda x: reversed(x[::-1]))):
        is_(llist(mk(t)), t, f"llist #{k}")
        is_(lreverse(mk(t)), t[::-1], f"lreverse #{k}")
    mc.check(same(tuple(l), t) and same(tuple(iter(l)), t), "tuple(l)")
    mc.check(same(tuple(reversed(l)), t[::-1]), "reversed")
    is_(l, t, "original unchanged")
    is_(llist(map(lambda x: (x,), l)), tuple((x,) for x in t), "map")
    mc.check(foldl(lambda x, acc: acc + (x,), (), l) == foldl(lambda x, acc: acc + (x,), (), t), "foldl")
    mc.check(foldr(lambda x, acc: acc + (x,), (), l) == foldr(lambda x, acc: acc + (x,), (), t), "foldr")
    # unpacking
    if t:
        a, *rest = l
        mc.check(a == t[0] and same(tuple(rest), t[1:]), "unpacking")
    for e in ELT:
        x = elt(e)
        got = member(x, l)
        k = next((j for j, y in enumerate(t) if y == x), None)
        if k is None:
            mc.check(got is False, lambda: f"member({x!r}, {l!r}) gives {got!r}")
        else:
            is_(got, t[k:], f"member {x!r}")
        mc.check((x in l) == (x in t), lambda: f"{x!r} in {l!r}")
    mc.step(30)
    # append / zip over all splits
    for cuts in itertools.combinations_with_replacement(range(len(t) + 1), 2):
        parts = [t[:cuts[0]], t[cuts[0]:cuts[1]], t[cuts[1]:]]
        ls = [ll(*p) for p in parts]
        is_(lappend(*ls), t, f"lappend split {cuts}")
        is_(lappend(*ls[:2]), t[:cuts[1]], f"lappend split {cuts}")
        is_(lappend(ls[0]), t[:cuts[0]], "lappend one")
        for q, p in zip(ls, parts):
            is_(q, p, "lappend argument changed")
        for zs in (parts, parts[:2], [t, parts[0]], [parts[2], t]):
            z = lzip(*(ll(*p) for p in zs))
            want = list(zip(*zs))
            got = [aslist(q, "lzip element") for q in aslist(z, "lzip")]
            mc.check(len(got) == len(want) and all(same(a, b) for a, b in zip(got, want)), lambda: f"lzip of {zs} gives {got}")
        mc.step(8)
    # consing onto a list shares it
    c = cons("h", l)
    mc.check(c.cdr is l and cdr(c) is l and car(c) == "h", "cons shares its tail")
    is_(c, ("h",) + t, "cons")

# ---- deep structures, misuse
def deep_gen(tier):
    for shape in ("right", "left", "zigzag", "listleft"):
        yield [shape, 20000]
    yield ["misuse", 0]

def deep_run(case):
    shape, n = case
    if shape == "misuse":
        for it in (LinkedListIterator, LinkedListOrCellIterator, TailIterator, BinaryTreeIterator, JackOfAllTradesIterator):
            for bad in (1, "str", None, (1, 2), [1], object()):
                mc.check(mc.outcome(it, bad) == ("exc", "TypeError"), lambda: f"{it.__name__}({bad!r}) accepted")
        for path, f in ACC:
            for bad in (nil, 1, (1, 2), None):
                mc.check(mc.outcome(f, bad) == ("exc", "TypeError"), lambda: f"c{path}r({bad!r}) accepted")
        mc.check(mc.outcome(ConsIterator)[0] == "exc", "ConsIterator is abstract")
        mc.check(mc.outcome(type(nil))[0] == "exc" and unpythonic.nil is nil and copy.deepcopy(nil) is nil and pickle.loads(pickle.dumps(nil)) is nil, "nil is unique")
        mc.check(repr(nil) == "nil" and nil != () and nil == nil, "nil")
        return
    t = -1
    want = [-1]
    for k in range(n):
        if shape == "right": t = cons(k, t); want.append(k)
        elif shape == "left": t = cons(t, k); want.append(k)
        elif k % 2: t = cons(t, k)
        else: t = cons(k, t)
    if shape == "right": want = [want[0]] + want[1:]; want = want[:0:-1] + [-1]
    if shape in ("zigzag", "listleft"):
        lo = [k for k in range(n) if k % 2 == 0][::-1]
        hi = [k for k in range(n) if k % 2]
        want = lo + [-1] + hi
    got = list(BinaryTreeIterator(t))
    mc.check(got == want, lambda: f"deep {shape}: wrong leaves")
    mc.check(list(JackOfAllTradesIterator(t)) == want, lambda: f"deep {shape}: JackOfAllTrades")
    l = llist(range(n))
    mc.check(tuple(l) == tuple(range(n)) and l == llist(range(n)) and hash(l) == hash(llist(range(n))) and l != llist(range(n + 1)), "long list")
    mc.check(tuple(lappend(l, l)) == tuple(range(n)) * 2, "long lappend")
    mc.step(4 * n)
    # tear down iteratively, not by recursion in the deallocator
    mc.state(case)

SPACES = [
    mc.Space("trees", tr_gen, tr_run, "all cons structures of up to 4 (thorough: 5) cells over leaves {nil, 1, None, 0, empty string}; all iteration schemes, all 30 accessors, both representations, copy, pickle, immutability"),
    mc.Space("equality", eq_gen, eq_run, "all pairs of cons structures of up to 3 cells"),
    mc.Space("lists", ls_gen, ls_run, "all lists of length up to 4 (thorough: 5) over 6 kinds of elements (incl. nested lists, pairs, nil, None); construct, reverse, append, zip, member, fold, map over all splits"),
    mc.Space("deep", deep_gen, deep_run, "deep and long structures (20000 cells), misuse"),
]
