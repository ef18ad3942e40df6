"""M02 gmemoize / imemoize / fimemoize: one shared sequence for all consumers."""
from lib import mc, sched
sched.install()
import itertools
from unpythonic import gmemoize, imemoize, fimemoize
sched.start(('/gmemo.py',))

class Boom(Exception):
    pass

class BaseBoom(BaseException):
    pass

class Source:
    """Instrumented source: items 0..n-1 (tagged), optional raise at position p (then exhausted)."""
    def __init__(self, tag, n, p, stats):
        self.tag, self.n, self.p, self.stats = tag, n, p, stats
        self.j = 0
        self.dead = False
        self.busy = False
    def __iter__(self):
        return self
    def __next__(self):
        if self.busy:
            self.stats["overlap"] = True
        self.busy = True
        try:
            sched.point()
            if self.dead:
                raise StopIteration
            j = self.j
            self.j += 1
            self.stats["adv"][self.tag] = self.stats["adv"].get(self.tag, 0) + 1
            sched.point()
            if j == self.p:
                self.dead = True
                raise self.stats['exc'](self.tag, j)
            if j >= self.n:
                self.dead = True
                raise StopIteration
            return [self.tag, j]
        finally:
            self.busy = False

def build(kind, n, p, exc=Boom):
    """-> (factory of iterators taking 0 or 1 args, stats)"""
    stats = {"made": {}, "adv": {}, "overlap": False, "exc": exc}
    def made(tag):
        stats["made"][tag] = stats["made"].get(tag, 0) + 1
        sched.point()
        return Source(tag, n, p, stats)
    if kind == "gmemoize":
        @gmemoize
        def g(tag=0):
            for x in made(tag):
                yield x
        return g, stats
    if kind == "gmemoize_eager":           # regular function returning an iterator: creation is observable
        @gmemoize
        def g(tag=0):
            return made(tag)
        return g, stats
    if kind == "fimemoize":
        @fimemoize
        def g(tag=0):
            return made(tag)
        return g, stats
    if kind == "imemoize":
        g0 = imemoize(made(0))
        return (lambda tag=0: g0()), stats
    raise ValueError(kind)

def expected(tag, n, p, j):
    stop = n if p is None or p >= n else p
    if p is not None and p < n or (p is not None and p == n):
        stop = p
    if j < stop:
        return ("item", [tag, j])
    if p is not None and j == p and p <= n:
        return ("boom", (tag, j))
    return ("stop",)

def advance(it):
    try:
        return ("item", next(it))
    except StopIteration:
        return ("stop",)
    except (Boom, BaseBoom, KeyboardInterrupt, GeneratorExit) as e:
        return ("boom", e.args, e)

# ---------------------------------------------------------------- schedules
# scenario: kind, n, p, threads: list of programs; program: list of ops
#   "n<tag>" create own iterator with tag, "a" advance own iterator, "s" advance the shared iterator
SCEN = []
for kind in ("gmemoize", "gmemoize_eager", "fimemoize", "imemoize"):
    SCEN += [(kind, 3, None, [["n0", "a"], ["n0", "a"]]),
             (kind, 3, None, [["n0", "a", "a"], ["n0", "a", "a"]]),
             (kind, 1, None, [["n0", "a", "a"], ["n0", "a", "a"]]),
             (kind, 3, 1, [["n0", "a", "a"], ["n0", "a", "a"]]),
             (kind, 3, 0, [["n0", "a"], ["n0", "a"]]),
             (kind, 3, None, [["s", "s"], ["s", "s"]]),
             (kind, 3, None, [["s"], ["s"]]),
             (kind, 2, None, [["s", "n0", "a"], ["s", "n0", "a"]]),
             (kind, 3, None, [["n0", "a"], ["n0", "a"], ["n0", "a"]]),
             (kind, 3, None, [["s"], ["s"], ["s"]])]
    if kind != "imemoize":
        SCEN += [(kind, 2, None, [["n0", "a", "n1", "a"], ["n1", "a", "n0", "a"]]),
                 (kind, 2, None, [["n1"], ["n1"]])]

def scen_gen(tier):
    for i, (kind, n, p, threads) in enumerate(SCEN):
        nth = len(threads)
        short = sum(map(len, threads)) <= 4
        b = 2 if nth == 2 and (tier != 'quick' or short or kind in ('gmemoize', 'imemoize')) else 1
        if tier != "quick":
            b += 1
        for part in range(8):
            yield [i, b, part, 8]

def scen_run(case):
    i, bound, part, nparts = case
    kind, n, p, threads = SCEN[i]
    def make():
        g, stats = build(kind, n, p)
        uses_shared = any("s" in t for t in threads)
        shared = g() if uses_shared else None
        def thread(prog):
            def run():
                out = []
                it, tag = None, None
                for op in prog:
                    if op[0] == "n":
                        tag = int(op[1])
                        it = g(tag) if tag else g()
                        out.append(("new", tag))
                    elif op == "a":
                        out.append(("a", tag, advance(it)))
                    else:
                        out.append(("s", 0, advance(shared)))
                return out
            return run
        def judge(ex):
            mc.check(not stats["overlap"], "underlying source advanced re-entrantly")
            sharedgot = []
            excs = {}
            maxpos = {}
            vals = {}
            for r in ex.results:
                mc.check(r[0] == "ok", lambda: f"thread failed: {r}")
                pos = 0
                for op in r[1]:
                    if op[0] == "new":
                        pos = 0
                        continue
                    if op[0] == "a":
                        want = expected(op[1], n, p, pos)
                        mc.check(op[2][:2] == want, lambda: f"own iterator position {pos}: {op[2]}, expected {want}")
                        if want[0] != "stop":
                            ident = op[2][1] if want[0] == "item" else op[2][2]
                            mc.check(vals.setdefault((op[1], pos), ident) is ident, lambda: f"position {pos}: different objects")
                        maxpos[op[1]] = max(maxpos.get(op[1], 0), pos + 1)
                        pos += 1
                    else:
                        sharedgot.append(op[2][:2])
            if sharedgot:
                want = [expected(0, n, p, j) for j in range(len(sharedgot))]
                mc.check(sorted(map(repr, sharedgot)) == sorted(map(repr, want)),
                         lambda: f"shared iterator delivered {sharedgot}, expected each of {want} once")
                maxpos[0] = max(maxpos.get(0, 0), len(sharedgot))
            for tag, k in stats["made"].items():
                mc.check(k == 1, lambda: f"source for {tag} created {k} times")
            for tag, k in stats["adv"].items():
                mc.check(k <= maxpos.get(tag, 0), lambda: f"source {tag} advanced {k} times for {maxpos.get(tag)} positions")
        return [thread(t) for t in threads], judge
    sched.explore(make, bound, part, nparts)

# ---------------------------------------------------------------- histories
# ops: "N" new iterator, "0".."2" advance iterator k
def hist_gen(tier):
    L = 6 if tier == "quick" else 8
    params = [(0, None), (1, None), (2, None), (2, 0), (2, 1), (2, 2)] if tier == "quick" else \
             [(0, None), (1, None), (2, None), (3, None), (3, 0), (3, 1), (3, 2), (3, 3)]
    for kind in ("gmemoize", "gmemoize_eager", "fimemoize", "imemoize"):
        for n, p in params:
            def rec(pref, k):
                if len(pref) == L:
                    yield pref
                    return
                if k < 3:
                    yield from rec(pref + "N", k + 1)
                for j in range(k):
                    yield from rec(pref + str(j), k)
            for h in rec("", 0):
                if kind == "imemoize" or "1" in h or L <= 6:
                    yield [kind, n, p, h, "Boom"]
                    if p is not None:
                        for exc in ("BaseBoom", "KeyboardInterrupt"):
                            yield [kind, n, p, h, exc]

def hist_run(case):
    kind, n, p, h, exc = case
    g, stats = build(kind, n, p, {"Boom": Boom, "BaseBoom": BaseBoom, "KeyboardInterrupt": KeyboardInterrupt}[exc])
    its, pos = [], []
    vals = {}
    maxpos = 0
    for op in h:
        mc.step()
        if op == "N":
            its.append(g()); pos.append(0)
        else:
            k = int(op)
            got = advance(its[k])
            want = expected(0, n, p, pos[k])
            mc.check(got[:2] == want, lambda: f"history {h}: iterator {k} position {pos[k]}: {got}, expected {want}")
            if want[0] != "stop":
                ident = got[1] if want[0] == "item" else got[2]
                mc.check(vals.setdefault(pos[k], ident) is ident, lambda: f"position {pos[k]}: different objects")
            pos[k] += 1
            maxpos = max(maxpos, pos[k])
        adv = stats["adv"].get(0, 0)
        # on demand only, at most once per position (0..n-1, plus the end / the raise)
        last = n if p is None else min(n, p)
        mc.check(adv == min(maxpos, last + 1), lambda: f"history {h}: source advanced {adv} times for {maxpos} requested positions")
        mc.check(stats["made"].get(0, 0) <= 1, "source created twice")
        if its and kind != "imemoize":
            # already computed items are available by subscript, without advancing the source
            done = min(maxpos, last)
            for k in range(done):
                mc.check(its[-1][k] == [0, k], lambda: f"item [{k}] of computed part")
            if done:
                mc.check(its[0][0:done] == [[0, k] for k in range(done)], "slice of computed part")
            mc.check(stats["adv"].get(0, 0) == adv, "subscripting advanced the source")
        mc.state((kind, n, p, tuple(pos), adv))

# ---------------------------------------------------------------- argument keys and recursion
def keys_gen(tier):
    forms = [[[], {}], [[1], {}], [[], {"a": 1}], [[1, 2], {}], [[1], {"b": 2}], [[], {"a": 1, "b": 2}], [[2], {}], [[2, 1], {}], [[], {"b": 3}]]
    for kind in ("gmemoize", "fimemoize"):
        for h in itertools.product(range(len(forms)), repeat=2 if tier == "quick" else 3):
            yield [kind, [forms[i] for i in h]]

def keys_run(case):
    kind, calls = case
    made = []
    if kind == "gmemoize":
        @gmemoize
        def g(a=1, b=2):
            made.append((a, b))
            yield (a, b, 0)
            yield (a, b, 1)
    else:
        @fimemoize
        def g(a=1, b=2):
            made.append((a, b))
            return iter([(a, b, 0), (a, b, 1)])
    seen = set()
    for args, kw in calls + calls:
        a = args[0] if args else kw.get("a", 1)
        b = args[1] if len(args) > 1 else kw.get("b", 2)
        mc.eq(list(g(*args, **kw)), [(a, b, 0), (a, b, 1)], f"call {args} {kw}")
        seen.add((a, b))
        mc.step(3)
        mc.check(sorted(made) == sorted(seen), lambda: f"sources made {made}, expected one each of {seen}")
    mc.state(tuple(made))

# ---------------------------------------------------------------- long streams, many arguments, false items
def long_gen(tier):
    for kind in ("gmemoize", "fimemoize", "imemoize"):
        for n in (1, 10, 100, 1000) if tier == "quick" else (1, 10, 100, 1000, 20000):
            for items in ("int", "false"):
                yield [kind, n, items]
        yield [kind + "-args", 300 if tier == "quick" else 3000, "int"]

def long_run(case):
    kind, n, items = case
    adv = []
    def src(key=0):
        for k in range(n if "-" not in kind else 2):
            adv.append((key, k))
            yield (None, 0, "", (), False, [])[k % 6] if items == "false" else (key, k)
    if kind.startswith("gmemoize"): g = gmemoize(src)
    elif kind.startswith("fimemoize"): g = fimemoize(lambda key=0: src(key))
    else:
        g0 = imemoize(src())
        g = lambda key=0: g0()
    mc.state(case)
    if "-" in kind:
        if kind.startswith("imemoize"):
            return
        for rep in range(2):
            for key in (range(n) if rep == 0 else range(n - 1, -1, -1)):
                mc.check(list(g(key)) == [(key, 0), (key, 1)], lambda: f"{case}: wrong items for argument {key}")
                mc.step(2)
        mc.check(len(adv) == 2 * n, lambda: f"{case}: sources advanced {len(adv)} times for {2 * n} items")
        return
    a = g()
    first = list(itertools.islice(a, n // 2))
    b = list(g())
    rest = list(a)
    mc.check(len(b) == n and all(x is y for x, y in zip(b, first + rest)) and len(first + rest) == n, lambda: f"{case}: iterators see different items")
    want = [(None, 0, "", (), False)[k % 6] if k % 6 < 5 else [] for k in range(n)] if items == "false" else [(0, k) for k in range(n)]
    mc.check(b == want, lambda: f"{case}: {b}")
    its = [g() for _ in range(5)]
    for k in range(n):
        for i in its:
            mc.check(next(i) is b[k], lambda: f"{case}: item {k} differs")
        mc.step(5)
    for i in its + [a]:
        mc.check(next(i, "END") == "END" and next(i, "END") == "END", lambda: f"{case}: does not end")
    mc.check(len(adv) == n, lambda: f"{case}: the source was advanced {len(adv)} times for {n} items")

SPACES = [
    mc.Space("schedules", scen_gen, scen_run, "2 threads <=2 preemptions (long programs of two of the four kinds: 1), 3 threads <=1 (thorough: 3 / 2); create/advance own and shared iterators", timeout=400),
    mc.Space("histories", hist_gen, hist_run, "all sequences of 6 (thorough 8) create/advance operations on <=3 iterators, finite/raising sources (Exception, BaseException, KeyboardInterrupt), 4 kinds"),
    mc.Space("long", long_gen, long_run, "streams of 1 to 1000 (20000) items, true and false ones, read by 7 iterators; 300 (3000) different arguments"),
    mc.Space("keys", keys_gen, keys_run, "all pairs (triples) of call forms of a 2-parameter factory"),
]
