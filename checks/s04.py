"""S04: folds, scans, maps, zips, unfolds vs. their recursive definitions (symbolic combining function, recorded calls and reads)."""
from lib import mc
import itertools
from unpythonic import (scanl, scanr, scanl1, scanr1, foldl, foldr, reducel, reducer, rscanl, rscanl1, rfoldl, rreducel,
                        unfold, unfold1, prod, running_minmax, minmax, Values,
                        map_longest, rmap, rzip, rmap_longest, rzip_longest, mapr, zipr, mapr_longest, zipr_longest, flatmap, rev, curry)
from unpythonic import map as umap

class Boom(Exception):
    pass

class Src:
    """Input that counts how many items have been read. kind: 'it' iterator, 'iterable' (no reverse), 'seq'."""
    def __init__(self, items, kind):
        self.items, self.kind, self.read = list(items), kind, 0
        self.iters = 0
    def make(self):
        if self.kind == "seq":
            return list(self.items)
        if self.kind == "tuple":
            return tuple(self.items)
        if self.kind == "it":
            return self._gen()
        class It:
            def __iter__(s):
                self.iters += 1
                return self._gen()
        return It()
    def _gen(self):
        for x in self.items:
            self.read += 1
            yield x

class Proc:
    """Uninterpreted function; raises at call number `boom`."""
    def __init__(self, boom=None):
        self.log, self.boom = [], boom
    def __call__(self, *args):
        self.log.append(args)
        if len(self.log) - 1 == self.boom:
            raise Boom()
        return ("f",) + args

# ---- definitions (recursive, on tuples)
def d_zip(ins, longest, fill):
    """Left-synced rows."""
    if not ins:
        return []
    n = (max if longest else min)(len(i) for i in ins)
    return [tuple(i[k] if k < len(i) else fill for i in ins) for k in range(n)]
def d_scanl(f, acc, rows):
    yield acc
    if rows:
        yield from d_scanl(f, f(*rows[0], acc), rows[1:])
def collect(gen):
    out = []
    try:
        for x in gen:
            out.append(x)
    except Boom:
        return out, "Boom"
    return out, "end"

BIG = [(40,), (40, 17), (17, 40), (40, 40), (0, 40), (40, 0), (12, 33, 21)]
LENS = lambda k, m: itertools.product(range(m + 1), repeat=k)
def data(lens, kind=None):
    """Distinct items, except that the items of some inputs are None and other false values."""
    if kind in ("it", "tuple"):
        return [tuple((None, 0, "", False, (), [])[(k + j) % 6] for k in range(n)) for j, n in enumerate(lens)]
    return [tuple(f"{'abc'[j]}{k}" for k in range(n)) for j, n in enumerate(lens)]

def sc_gen(tier):
    m = 3 if tier == "quick" else 5
    for k, lens in [(k, lens) for k in (1, 2, 3) for lens in LENS(k, m)] + [(2, l) for l in BIG]:
            for kind in ("seq", "it", "iterable", "tuple"):
                for longest in (False, True):
                    for init in ("I", None, 0):
                        yield [list(lens), kind, longest, init]

NOVAL = "<none>"
def sc_run(case):
    lens, kind, longest, init = case
    ins = data(lens, kind)
    mc.state((lens, longest))
    for boom in [None] + list(range(max(lens))):
        kwsets = [dict(longest=True, fillvalue="F"), dict(longest=True)] if longest else [{}, dict(longest=False)]
        for kw in kwsets:
            fill = kw.get("fillvalue")
            variants = {"scanl": (scanl, foldl, d_zip(ins, longest, fill)),
                        "scanr": (scanr, foldr, d_zip(ins, longest, fill)[::-1]),
                        "rscanl": (rscanl, rfoldl, d_zip([i[::-1] for i in ins], longest, fill))}
            for name, (scan, fold, rows) in variants.items():
                pf, p = Proc(boom), Proc(boom)
                want = collect(d_scanl(pf, init, rows))
                srcs = [Src(i, kind) for i in ins]
                g = scan(p, init, *[s.make() for s in srcs], **kw)
                got = collect(g)
                mc.check(got == want and p.log == pf.log, lambda: f"{name} over {ins} init={init!r} {kw} boom={boom}: {got}, calls {p.log}; expected {want}, calls {pf.log}")
                p = Proc(boom)
                srcs = [Src(i, kind) for i in ins]
                got = mc.outcome(lambda: fold(p, init, *[s.make() for s in srcs], **kw))
                w = ("ok", want[0][-1]) if want[1] == "end" else ("exc", "Boom")
                mc.check(got == w and p.log == pf.log, lambda: f"{fold.__name__} over {ins} init={init!r} {kw}: {got}, calls {p.log}, expected {w}")
                mc.step(len(rows) * 2 + 2)
            # single input, optional init
            if len(ins) == 1 and not kw:
                xs = ins[0]
                for name, scan, red, order in (("scanl1", scanl1, reducel, xs), ("scanr1", scanr1, reducer, xs[::-1]), ("rscanl1", rscanl1, rreducel, xs[::-1])):
                    for ini in (NOVAL, None, 0, "", False, "J"):
                        for byname in (False, True):
                            args = () if ini == NOVAL else ((ini,) if not byname else ())
                            kws = dict(init=ini) if byname and ini != NOVAL else {}
                            pf, p = Proc(boom), Proc(boom)
                            if ini == NOVAL or ini is None:
                                want = ([], "end") if not order else collect(d_scanl(pf, order[0], [(x,) for x in order[1:]]))
                            else:
                                want = collect(d_scanl(pf, ini, [(x,) for x in order]))
                            s = Src(xs, kind)
                            got = collect(scan(p, s.make(), *args, **kws))
                            mc.check(got == want and p.log == pf.log, lambda: f"{name} over {xs} init={ini!r}: {got}, expected {want}")
                            p = Proc(boom)
                            got = mc.outcome(lambda: red(p, Src(xs, kind).make(), *args, **kws))
                            w = ("ok", want[0][-1] if want[0] else None) if want[1] == "end" else ("exc", "Boom")
                            mc.check(got == w and p.log == pf.log, lambda: f"{red.__name__} over {xs} init={ini!r}: {got}, expected {w}")
                            mc.step(2)

# ---- laziness of the left scans, maps
def lz_gen(tier):
    m = 3 if tier == "quick" else 5
    for op in ("scanl", "scanl1", "map", "map_longest", "flatmap", "running_minmax", "curried"):
        for k in (1, 2, 3):
            if k > 1 and op in ("scanl1", "running_minmax", "curried"):
                continue
            for lens in LENS(k, m):
                for kind in ("it", "iterable"):
                    for longest in (False, True) if op == "scanl" else (False,):
                        yield [op, list(lens), kind, longest]

def lz_run(case):
    op, lens, kind, longest = case
    ins = data(lens, None if op == "running_minmax" else kind)
    srcs = [Src(i, kind) for i in ins]
    args = [s.make() for s in srcs]
    p = Proc()
    reads = lambda: [s.read for s in srcs]
    if op == "scanl":
        g = scanl(p, "I", *args, longest=longest, fillvalue="F")
        base = 1
    elif op == "curried":
        g = curry(scanl)(p)("I")(*args)
        base = 1
    elif op == "scanl1":
        g = scanl1(p, *args)
        base = 0
    elif op == "map":
        g = umap(p, *args)
        base = 0
    elif op == "map_longest":
        g = map_longest(p, *args, fillvalue="F")
        base = 0
    elif op == "flatmap":
        g = flatmap(lambda *xs: (p(*xs), "x"), *args)
        base = 0
    else:
        g = running_minmax(*args)
        base = 0
    eager1 = op in ("scanl1", "running_minmax")   # these peek at the first item when called
    mc.check(all(r <= (1 if eager1 else 0) for r in reads()), lambda: f"{op}: {reads()} items read before any result was requested")
    k = 0
    while True:
        rows = k + 1 - base if op != "flatmap" else k // 2 + 1
        try:
            next(g)
        except StopIteration:
            break
        k += 1
        mc.check(all(r <= max(rows, 0) for r in reads()), lambda: f"{op} over {ins}: {reads()} items read after {k} results")
        mc.check(op == "running_minmax" or len(p.log) <= max(rows, 0), lambda: f"{op} over {ins}: function called {len(p.log)} times after {k} results")
    n = (max if longest or op == "map_longest" else min)(lens)
    want = {"scanl": n + 1, "curried": n + 1, "scanl1": n, "map": n, "map_longest": n, "flatmap": 2 * n, "running_minmax": n}[op]
    mc.check(k == want, lambda: f"{op} over {ins}: {k} results, expected {want}")
    mc.check(all(s.iters <= 1 for s in srcs), lambda: f"{op}: input iterated several times")
    mc.step(k + 1)
    mc.state(case)

# ---- maps and zips
def mz_gen(tier):
    m = 3 if tier == "quick" else 5
    for k, lens in [(k, lens) for k in (1, 2, 3) for lens in LENS(k, m)] + [(2, l) for l in BIG]:
            for kind in ("seq", "it", "iterable", "tuple"):
                yield [list(lens), kind]

def mz_run(case):
    lens, kind = case
    ins = data(lens, kind)
    mk = lambda: [Src(i, kind).make() for i in ins]
    mc.state(lens)
    R = [i[::-1] for i in ins]
    short, long_, rshort, rlong = d_zip(ins, False, None), d_zip(ins, True, "F"), d_zip(R, False, None), d_zip(R, True, "F")
    longN, rlongN = d_zip(ins, True, None), d_zip(R, True, None)
    def chk(name, got, want):
        mc.check(got == want, lambda: f"{name} over {ins}: {got}, expected {want}")
        mc.step()
    chk("rzip", list(rzip(*mk())), rshort)
    chk("zipr", list(zipr(*mk())), short[::-1])
    chk("rzip_longest", list(rzip_longest(*mk(), fillvalue="F")), rlong)
    chk("zipr_longest", list(zipr_longest(*mk(), fillvalue="F")), long_[::-1])
    chk("rzip_longest", list(rzip_longest(*mk())), rlongN)
    chk("zipr_longest", list(zipr_longest(*mk())), longN[::-1])
    for name, f, rows, kw, ordered in (("map", umap, short, {}, True), ("map_longest", map_longest, long_, dict(fillvalue="F"), True), ("map_longest", map_longest, longN, {}, True),
                                       ("rmap", rmap, rshort, {}, True), ("rmap_longest", rmap_longest, rlong, dict(fillvalue="F"), True), ("rmap_longest", rmap_longest, rlongN, {}, True),
                                       ("mapr", mapr, short[::-1], {}, False), ("mapr_longest", mapr_longest, long_[::-1], dict(fillvalue="F"), False), ("mapr_longest", mapr_longest, longN[::-1], {}, False)):
        p = Proc()
        chk(name, list(f(p, *mk(), **kw)), [("f",) + r for r in rows])
        mc.check(p.log == rows if ordered else sorted(map(str, p.log)) == sorted(map(str, rows)), lambda: f"{name}: calls {p.log}")
    for width in (0, 1, 2):
        p = Proc()
        chk("flatmap", list(flatmap(lambda *xs: (p(*xs),) * width, *mk())), [("f",) + r for r in short for _ in range(width)])
    for i in ins:
        chk("rev", list(rev(Src(i, kind).make())), list(i)[::-1])

# ---- unfolds: all transition tables over 3 states
VALS = ("v", None, 0)
def uf_gen(tier):
    n = 3
    opts = [None] + [[v, s] for v in range(2 if tier == "quick" else 3) for s in range(n)]
    for table in itertools.product(opts, repeat=n):
        yield list(table)

def uf_run(table):
    mc.state(table)
    ST = [0, None, "s2"]     # states include falsy ones
    for start in range(3):
        want, s = [], start
        for _ in range(7):
            r = table[s]
            if r is None:
                want.append("END")
                break
            want.append(VALS[r[0]])
            s = r[1]
        def drive(g):
            out = []
            for _ in range(7):
                try:
                    out.append(next(g))
                except StopIteration:
                    out.append("END")
                    break
            return out
        calls = []
        def p1(s):
            calls.append(s)
            r = table[ST.index(s)]
            return None if r is None else (VALS[r[0]], ST[r[1]])
        g = unfold1(p1, ST[start])
        mc.check(calls == [], "unfold1 is lazy")
        got = drive(g)
        mc.check(got == want, lambda: f"unfold1 {table} from {start}: {got}, expected {want}")
        mc.check(len(calls) == len(want), lambda: f"unfold1 {table}: {len(calls)} calls for {len(want)} steps")
        def p2(s, t):
            mc.check(t == ("T", s), lambda: f"unfold: state parts mixed up: {s!r}, {t!r}")
            r = table[ST.index(s)]
            return None if r is None else Values(VALS[r[0]], ST[r[1]], ("T", ST[r[1]]))
        def p3(*, s, t):
            mc.check(t == ("T", s), "unfold kw")
            r = table[ST.index(s)]
            return None if r is None else Values(VALS[r[0]], s=ST[r[1]], t=("T", ST[r[1]]))
        def p4(s, *, t):
            mc.check(t == ("T", s), "unfold mixed")
            r = table[ST.index(s)]
            return None if r is None else Values(VALS[r[0]], ST[r[1]], t=("T", ST[r[1]]))
        # the set of names that hold the state changes from step to step
        def p5(*args, **kw):
            got = args + tuple(kw.items())
            s = ST.index(args[0]) if args else int(min(kw)[1])
            mc.check((args, kw) == shape(s), lambda: f"unfold {table}: state {s} is passed as {got}, expected {shape(s)}")
            r = table[s]
            if r is None: return None
            pa, pk = shape(r[1])
            return Values(VALS[r[0]], *pa, **pk)
        def shape(s):
            """state 0 is two positionals, 1 is one name, 2 is two other names"""
            return [((ST[0], "P"), {}), ((), {"s1": None}), ((), {"s2": 0, "t2": None})][s]
        pa, pk = shape(start)
        got = drive(unfold(p5, *pa, **pk))
        mc.check(got == want, lambda: f"unfold (names change) {table} from {start}: {got}, expected {want}")
        a, b = ST[start], ("T", ST[start])
        for name, g in (("positional", unfold(p2, a, b)), ("by name", unfold(p3, s=a, t=b)), ("mixed", unfold(p4, a, t=b))):
            got = drive(g)
            mc.check(got == want, lambda: f"unfold ({name}) {table} from {start}: {got}, expected {want}")
        mc.step(4 * len(want))

# ---- derived folds
class NC:
    """Free monoid element: non-commutative product."""
    def __init__(self, w): self.w = w
    def __mul__(self, o): return NC(self.w + (o.w if isinstance(o, NC) else str(o)))
    def __rmul__(self, o): return NC(str(o) + self.w)

class W:
    """Comparable by key only, distinguishable by identity."""
    def __init__(self, k, n): self.k, self.n = k, n
    def __lt__(self, o): return self.k < o.k
    def __gt__(self, o): return self.k > o.k
    def __repr__(self): return f"W{self.k}.{self.n}"

def dv_gen(tier):
    for xs in mc.seqs(range(3), 5 if tier == "quick" else 7):
        yield list(xs)

def dv_run(xs):
    mc.state(xs)
    for kind in ("it", "seq", "iterable"):
        ws = [W(k, n) for n, k in enumerate(xs)]
        got = list(running_minmax(Src(ws, kind).make()))
        want = [(min(ws[:n], key=lambda w: w.k), max(ws[:n], key=lambda w: w.k)) for n in range(1, len(ws) + 1)]
        mc.check(len(got) == len(want) and all(a[0].k == b[0].k and a[1].k == b[1].k for a, b in zip(got, want)), lambda: f"running_minmax of {ws}: {got}, expected {want}")
        mc.check(all(any(p is w for w in ws) for ab in got for p in ab), "running_minmax invents items")
        m = minmax(Src(ws, kind).make())
        mc.check(m == (want[-1] if want else (None, None)) or (want and m[0].k == want[-1][0].k and m[1].k == want[-1][1].k), lambda: f"minmax of {ws}: {m}")
        p = 1
        for x in xs:
            p *= x + 2
        mc.check(prod(Src([x + 2 for x in xs], kind).make()) == p, lambda: f"prod of {xs}")
        mc.check(prod(Src([x + 2 for x in xs], kind).make(), start=5) == 5 * p and prod(Src([x for x in xs], kind).make(), 0) == 0, lambda: f"prod of {xs} with start")
        if xs:
            w = "".join("abc"[x] for x in xs)
            q = prod(Src([NC("abc"[x]) for x in xs], kind).make())
            mc.check(q.w == "1" + w, lambda: f"prod of non-commuting {w}: {q.w}")
            q = prod(Src([NC("abc"[x]) for x in xs], kind).make(), start=NC("s"))
            mc.check(q.w == "s" + w, lambda: f"prod of non-commuting {w} with start: {q.w}")
        mc.step(6)

SPACES = [
    mc.Space("folds", sc_gen, sc_run, "all input lengths up to 3 (thorough: 5) for 1..3 inputs, and 7 longer ones up to 40, with distinct or false items, x input kind x shortest/longest x fill x initial value x every position where the function raises; all fold and scan variants"),
    mc.Space("lazy", lz_gen, lz_run, "reads and calls after each requested result, all input lengths"),
    mc.Space("mapzip", mz_gen, mz_run, "all input lengths up to 3 (5) for 1..3 inputs x input kind; all map and zip variants"),
    mc.Space("unfold", uf_gen, uf_run, "all transition tables over 3 states (incl. falsy states and values), every start, 7 steps; positional, by name, mixed, names changing from step to step"),
    mc.Space("derived", dv_gen, dv_run, "all sequences of length up to 5 (7) over 3 items; running/total minmax, products incl. non-commutative"),
]
