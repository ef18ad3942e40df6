"""S02: frozendict, boxes, Shim, mogrify: all small values and operation histories vs. plain models."""
from lib import mc
import collections, copy, itertools, pickle, queue, threading, types
from collections import namedtuple
from unpythonic import frozendict, box, ThreadLocalBox, Some, Shim, unbox, mogrify, cons, nil, ll, llist, view, roview, Values, fupdate
from unpythonic.collections import SequenceView

# ---- frozendict
class FD(frozendict): pass
MAPS = [{}, {"a": 1}, {"a": 2}, {"b": 1}, {"a": 1, "b": 2}, {"b": 2, "a": 1}, {1: "x"}, {True: "x"}, {1.0: "x", "a": True}, {"a": (1, 2)}, {None: None}]
BIND = [{}, {"a": 5}, {"b": 1, "c": 2}]
def fd_gen(tier):
    n = len(MAPS)
    for k in (0, 1, 2) if tier == "quick" else (0, 1, 2, 3):
        for ms in itertools.product(range(n), repeat=k):
            for b in range(len(BIND)):
                yield [ms, b]

def fd_run(case):
    ms, b = case
    for wrap in (dict, frozendict, lambda m: list(m.items()), types.MappingProxyType, collections.OrderedDict):
        src = [wrap(dict(MAPS[m])) for m in ms]
        for cls in (frozendict, FD):
            d = cls(*src, **BIND[b])
            want = {}
            for m in ms:
                want.update(MAPS[m])
            want.update(BIND[b])
            mc.check(type(d) is cls, lambda: f"{cls.__name__}{ms}: type {type(d)}")
            look(d, want, f"{cls.__name__} of {src} {BIND[b]}")
            # the sources change: no effect
            for s in src:
                if isinstance(s, (dict, list)):
                    s.clear()
            look(d, want, "after mutating the sources")
            def setit(): d["a"] = 1
            def delit(): del d["a"]
            for f in (setit, delit, lambda: d.update(a=1), lambda: d.pop("a"), lambda: d.clear(), lambda: d.setdefault("a", 1), lambda: d.popitem()):
                mc.check(mc.outcome(f)[0] == "exc", "frozendict was mutated")
            look(d, want, "after attempts to mutate")
            h = hash(d)
            e = fupdate(d, a="new", z=0)
            mc.check(type(e) is cls, "functional update changes the type")
            look(e, {**want, "a": "new", "z": 0}, "functional update")
            look(d, want, "after a functional update")
            look(cls(d, {"q": 1}), {**want, "q": 1}, "update by constructor")
            mc.check(hash(d) == h, "hash changed")
            for c in [copy.copy(d), copy.deepcopy(d)] + [pickle.loads(pickle.dumps(d, p)) for p in range(0, pickle.HIGHEST_PROTOCOL + 1)]:
                mc.check(type(c) is cls, "copy changes the type")
                look(c, want, "copy")
                mc.check(c == d and hash(c) == h, "copy: equality or hash")
            src = [wrap(dict(MAPS[m])) for m in ms]
    mc.check(frozendict() is frozendict() and pickle.loads(pickle.dumps(frozendict())) is frozendict() and copy.copy(frozendict()) is frozendict() and copy.deepcopy(frozendict()) is frozendict(), "empty frozendict is not unique")
    look(frozendict(), {}, "empty")
    look(FD(), {}, "empty, subclass")
    mc.check(type(frozendict()) is frozendict and type(FD()) is FD, "type of empty")
    # equality and hash agree with contents
    a = frozendict(*(MAPS[m] for m in ms), **BIND[b])
    for ms2 in itertools.product(range(len(MAPS)), repeat=1):
        for b2 in range(len(BIND)):
            c = frozendict(*(MAPS[m] for m in ms2), **BIND[b2])
            w1, w2 = {}, {}
            for m in ms: w1.update(MAPS[m])
            w1.update(BIND[b])
            for m in ms2: w2.update(MAPS[m])
            w2.update(BIND[b2])
            mc.check((a == c) is (w1 == w2) and (a != c) is (w1 != w2) and (a == w2) is (w1 == w2) and (w2 == a) is (w1 == w2), lambda: f"equality of {a} and {c}")
            mc.check(a != c or hash(a) == hash(c), lambda: f"hash of {a} and {c}")
            mc.step()
    mc.state(case)

def look(d, want, what):
    mc.step()
    mc.check(len(d) == len(want) and list(d) == list(want) and list(d.keys()) == list(want.keys()) and list(d.items()) == list(want.items()) and list(d.values()) == list(want.values()), lambda: f"{what}: {d}, expected {want}")
    for k in list(want) + ["nope", 17]:
        mc.check((k in d) is (k in want) and mc.outcome(lambda: d[k]) == mc.outcome(lambda: want[k]) and d.get(k) == want.get(k) and d.get(k, "dflt") == want.get(k, "dflt"), lambda: f"{what}: key {k!r}")
    mc.check(d == want and want == d and d != {**want, "other": 1} and d != 5, lambda: f"{what}: equality")

# ---- boxes: histories of operations, per thread
OPS = ["set1", "set2", "setNone", "lshift", "clear", "default", "get"]
def bx_gen(tier):
    n = 3 if tier == "quick" else 4
    for kind in ("box", "tlb"):
        ops = [o for o in OPS if kind == "tlb" or o not in ("clear", "default")]
        threads = [0, 1] if tier == "quick" or kind == "box" else [0, 1, 2]
        for h in itertools.product(itertools.product(threads, ops), repeat=n):
            yield [kind, h]
    for x in range(len(ITEMS)):
        yield ["some", [[0, x]]]

class Worker:
    """a thread that executes operations on request"""
    def __init__(self):
        self.q, self.r = queue.SimpleQueue(), queue.SimpleQueue()
        self.t = threading.Thread(target=self.loop, daemon=True)
        self.t.start()
    def loop(self):
        while True:
            f = self.q.get()
            if f is None:
                return
            try:
                self.r.put(("ok", f()))
            except BaseException as e:
                self.r.put(("exc", type(e).__name__))
    def do(self, f):
        self.q.put(f)
        return self.r.get()

ITEMS = [None, 0, 1, "a", (), [1], False, box(1), 1.0]
def look_box(b, want, what, cls):
    mc.check(b.get() is want and unbox(b) is want, lambda: f"{what}: {b}, expected {want!r}")
    mc.check([x is want for x in b] == [True] and len(b) == 1, lambda: f"{what}: iteration")
    for x in ITEMS:
        mc.check((x in b) is (x == want) and (b == x) is (x == want) and (b != x) is (not x == want), lambda: f"{what}: {b} compared with {x!r}")
    mc.check((b == box(want)) and (b == Some(want)) and b != box(("other", want)), lambda: f"{what}: {b} compared with a box of the same content")
    mc.check(repr(b) == f"{cls}({want!r})", lambda: f"{what}: repr {b!r}")
    mc.step()
    return True

_workers = []
def bx_run(case):
    kind, hist = case
    if kind == "some":
        x = ITEMS[hist[0][1]]
        s = Some(x)
        look_box(s, x, "Some", "Some")
        mc.check(not hasattr(s, "set") and mc.outcome(lambda: s << 5)[0] == "exc" and s.get() is x, "Some is immutable")
        mc.check(mc.outcome(lambda: unbox(x)) == (("ok", 1) if isinstance(x, box) else ("exc", "TypeError")), "unbox of something else")
        mc.state(case)
        return
    if not _workers:
        _workers.extend(Worker() for _ in range(4))
    W = _workers
    obj = {1: object(), 2: ["l"], "d": "dflt2", "init": ("init",)}
    b = (box if kind == "box" else ThreadLocalBox)(obj["init"])
    name = "box" if kind == "box" else "ThreadLocalBox"
    default, vals = obj["init"], {}
    what = f"{kind}"
    n = 0
    for t, op in hist:
        what += f" {t}:{op}"
        key = 0 if kind == "box" else t
        new = {"set1": obj[1], "set2": obj[2], "setNone": None, "lshift": ("v", n)}.get(op, "-")
        n += 1
        if op in ("set1", "set2", "setNone"):
            got = W[t].do(lambda: b.set(new))
            mc.check(got[0] == "ok" and got[1] is new, lambda: f"{what}: set returned {got}")
            vals[key] = new
        elif op == "lshift":
            got = W[t].do(lambda: b << new)
            mc.check(got[0] == "ok" and got[1] is new, lambda: f"{what}: << returned {got}")
            vals[key] = new
        elif op == "clear":
            W[t].do(b.clear)
            vals.pop(key, None)
        elif op == "default":
            W[t].do(lambda: b.setdefault(obj["d"]))
            default = obj["d"]
        for u in (0, 1, 2, 3):
            want = vals.get(0 if kind == "box" else u, default)
            got = W[u].do(lambda: b.get() is want and unbox(b) is want)
            mc.check(got == ("ok", True), lambda: f"{what}: thread {u} sees a wrong content, expected {want!r}")
        if kind == "tlb":
            mc.check(W[1].do(b.getdefault) == ("ok", default), lambda: f"{what}: default")
    for u in (0, 1):
        want = vals.get(0 if kind == "box" else u, default)
        def f():
            return look_box(b, want, what, name)
        got = W[u].do(f)
        mc.check(got == ("ok", True), lambda: f"{what}: thread {u}: box API wrong")
    mc.check(mc.outcome(lambda: hash(b)) == ("exc", "TypeError"), "a mutable box is hashable")
    mc.state((kind, str(sorted(vals.items(), key=str))))

# ---- Shim
class O:
    def __init__(self, **kw): self.__dict__.update(kw)
    def me(self): return self
class Falsy(O):
    def __bool__(self): return False
SOPS = ["putA", "putB", "putF", "setx", "sety", "setz", "fbput"]
def sh_gen(tier):
    for fb in ("none", "plain", "falsy", "box", "boxfalsy", "tlb", "shim", "list"):
        for bk in ("box", "tlb"):
            for h in mc.seqs(SOPS, 3 if tier == "quick" else 4):
                yield [fb, bk, h]

def sh_run(case):
    fb, bk, hist = case
    mkA = lambda: O(x="Ax")
    A, B, F = mkA(), O(x="Bx", y="By"), Falsy(w="Fw")
    fbo = {"none": None, "plain": O(x="fx", y="fy", q="fq"), "falsy": Falsy(x="fx", y="fy"), "box": O(x="fx", y="fy"), "boxfalsy": Falsy(y="fy"), "tlb": O(y="fy"), "shim": O(y="fy", q="fq"), "list": []}[fb]
    fbbox = box(fbo) if fb in ("box", "boxfalsy", "shim") else (ThreadLocalBox(fbo) if fb == "tlb" else None)
    fallback = None if fb == "none" else (Shim(fbbox) if fb == "shim" else (fbbox if fbbox is not None else fbo))
    b = (box if bk == "box" else ThreadLocalBox)(A)
    s = Shim(b, fallback)
    cur = A
    new = itertools.count()
    what = f"{fb} {bk}"
    for op in [None] + list(hist):
        what += f" {op}"
        if op in ("putA", "putB", "putF"):
            cur = {"putA": A, "putB": B, "putF": F}[op]
            b << cur
        elif op in ("setx", "sety", "setz"):
            v = ("set", next(new))
            before = dict(vars(fbo)) if hasattr(fbo, "__dict__") else None
            setattr(s, op[3], v)
            mc.check(getattr(cur, op[3]) == v, lambda: f"{what}: assignment did not reach the content of the box")
            mc.check(before is None or dict(vars(fbo)) == before, lambda: f"{what}: assignment reached the fallback")
        elif op == "fbput":
            if fbbox is None:
                continue
            fbo = O(z="Nz", x="Nx")
            fbbox << fbo
        for k in ("x", "y", "z", "q", "w", "append"):
            if hasattr(cur, k):
                want = ("ok", getattr(cur, k))
            elif fbo is not None and hasattr(fbo, k):
                want = ("ok", getattr(fbo, k))
            else:
                want = ("exc", "AttributeError")
            got = mc.outcome(lambda: getattr(s, k))
            mc.step()
            mc.check(got == want and hasattr(s, k) is (want[0] == "ok"), lambda: f"{what}: .{k} gives {got}, expected {want}")
        mc.check(s.me() is cur, lambda: f"{what}: method call")
    mc.check(mc.outcome(lambda: Shim(A)) == ("exc", "TypeError"), "Shim without a box")
    mc.state(case)

# ---- mogrify
P = namedtuple("P", "x y")
class LS(list): pass
class TS(tuple): pass
MUT = {
    "list": lambda a, b: [a, b], "LS": lambda a, b: LS([a, b]), "deque": lambda a, b: collections.deque([a, b]), "dict": lambda a, b: {"k": a, 2: b},
    "odict": lambda a, b: collections.OrderedDict([("k", a), ("l", b)]), "ddict": lambda a, b: collections.defaultdict(int, {"k": a, "l": b}), "box": lambda a, b: box(a), "tlb": lambda a, b: ThreadLocalBox(a),
}
IMM = {
    "tuple": lambda a, b: (a, b), "TS": lambda a, b: TS((a, b)), "P": lambda a, b: P(a, b), "frozendict": lambda a, b: frozendict({"k": a, 2: b}), "Some": lambda a, b: Some(a), "cons": lambda a, b: cons(a, b), "ll": lambda a, b: ll(a, b),
    "Values": lambda a, b: Values(a, z=b), "view": lambda a, b: view([a, b]), "roview": lambda a, b: roview((a, b)), "roviewl": lambda a, b: roview([a, b])[::-1], "empty": lambda a, b: (),
}
HASH = {"set": lambda a, b: {a, b}, "fset": lambda a, b: frozenset([a, b]), "keys": lambda a, b: {a: 1, b: 2}.keys()}
ALLC = {**MUT, **IMM, **HASH}
ATOMS = {"1": lambda: 1, "s": lambda: "ab", "range": lambda: range(3), "bytes": lambda: b"ab", "None": lambda: None}
HASHABLE = ("tuple", "TS", "P", "fset", "empty", "frozendict")

def mg_gen(tier):
    inner = ["1", "s"]
    leafs = list(ATOMS)
    lvl1 = [[c, a, b] for c in ALLC for a, b in (("1", "s"), ("s", "range"), ("None", "bytes"))]
    for x in leafs:
        yield [x]
    for x in lvl1:
        yield [x]
    sub = [[c, "1", "s"] for c in ALLC]
    for c in ALLC:
        for x in sub:
            for pos in (0, 1):
                a, b = (x, "1") if pos == 0 else ("s", x)
                if c in HASH and x[0] not in HASHABLE:
                    continue
                yield [[c, a, b]]
    lv2 = sub if tier != "quick" else [[c, "1", "s"] for c in ("list", "tuple", "P", "dict", "frozendict", "box", "Some", "ll", "view", "Values", "fset")]
    for c1, c2 in itertools.product(ALLC, repeat=2):
        for x in lv2:
            if c2 in HASH and x[0] not in HASHABLE:
                continue
            if c1 in HASH and (c2 not in HASHABLE or (c2 != "empty" and x[0] not in HASHABLE)):
                continue
            yield [[c1, [c2, x, "s"], [c2, "1", x]]]

def mk(x):
    if isinstance(x, str):
        return ATOMS[x]()
    return ALLC[x[0]](mk(x[1]), mk(x[2]))

def walk(x, f):
    """expected: (description of the result, identity preserved?)"""
    d = lambda y: walk(y, f)
    if isinstance(x, Values): return ("Values", tuple(map(d, x.rets)), tuple((k, d(v)) for k, v in x.kwrets.items()))
    if isinstance(x, view): return ("view", tuple(map(d, x)))
    if isinstance(x, SequenceView): return (type(x.seq).__name__, tuple(map(d, x)))
    if isinstance(x, (list, collections.deque, tuple)): return (type(x).__name__, tuple(map(d, x)))
    if isinstance(x, (dict, frozendict)): return (type(x).__name__, tuple((k, d(v)) for k, v in x.items()))
    if isinstance(x, (set, frozenset)): return (type(x).__name__, frozenset(map(d, x)))
    if isinstance(x, collections.abc.KeysView): return ("set", frozenset(map(d, x)))
    if isinstance(x, (box, Some)): return (type(x).__name__, d(x.get()))
    if x is nil: return "nil"
    if isinstance(x, cons): return ("cons", d(x.car), d(x.cdr))
    return f(x)

def mg_run(case):
    (spec,) = case
    fn = lambda a: ("atom", repr(a))
    src = mk(spec)
    seen = []
    walk(src, lambda a: (seen.append(repr(a)), fn(a))[1])
    want = walk(src, fn)
    frozen = walk(mk(spec), repr)
    visited = []
    class Atom:      # the result of mapping: opaque
        def __init__(self, a): self.r = repr(a)
        def __hash__(self): return hash(self.r)
        def __eq__(self, o): return isinstance(o, Atom) and o.r == self.r
        def __repr__(self): return self.r
    def f(a):
        visited.append(repr(a))
        return Atom(a)
    mutable = not isinstance(spec, str) and spec[0] in ("list", "LS", "deque", "dict", "odict", "ddict", "box", "tlb", "set", "view")
    out = mogrify(f, src)
    mc.step()
    got = walk(out, lambda a: ("atom", a.r) if isinstance(a, Atom) else ("unmapped", repr(a)))
    mc.check(got == want, lambda: f"mogrify over {mk(spec)!r}: {out!r}")
    mc.check(sorted(visited) == sorted(seen), lambda: f"mogrify over {mk(spec)!r} visits {visited}, expected {seen}")
    if not isinstance(spec, str):
        mc.check((out is src) is (mutable or spec[0] == "empty" and out is src), lambda: f"mogrify over {mk(spec)!r}: in place? {out is src}")
        # an immutable container around atoms only is untouched
        if not mutable and all(isinstance(q, str) for q in spec[1:]):
            mc.check(walk(src, repr) == frozen, lambda: f"mogrify changed an immutable container {src!r}")
        if spec[0] == "ddict":
            mc.check(out.default_factory is int, "default factory lost")
    mc.state(str(spec))

SPACES = [
    mc.Space("frozendict", fd_gen, fd_run, "all lists of <=2 (3) source mappings of 11 x 3 sets of named bindings x 5 source types x subclass; pairwise equality"),
    mc.Space("boxes", bx_gen, bx_run, "all histories of 3 (4) operations by 2 (3) threads, observed by 4 threads; 9 contents of Some", timeout=60),
    mc.Space("shim", sh_gen, sh_run, "8 fallbacks x 2 kinds of box x all histories of <=3 (4) of 7 operations"),
    mc.Space("mogrify", mg_gen, mg_run, "23 container kinds nested <=3 deep, 5 kinds of atoms"),
]
