"""M01 memoize: at most one evaluation per binding, same object to every caller."""
from lib import mc, sched
sched.install()
import inspect, itertools
from unpythonic import memoize
sched.start(('/fun.py',))

class Boom(Exception):
    pass
class BaseBoom(BaseException):
    pass

# ---------------------------------------------------------------- schedules
# per scenario: list of threads, each a list of (args, kwargs); kind of body
SCEN = {
    "same": ("plain", [[((1,), {})], [((1,), {})]]),
    "same_named": ("plain", [[((1,), {})], [((), {"a": 1})]]),
    "same_raise": ("raise", [[((1,), {})], [((1,), {})]]),
    "same_baseexc": ("baseraise", [[((1,), {})], [((1,), {})]]),
    "none": ("none", [[((1,), {})], [((1,), {})]]),
    "cross": ("plain", [[((1,), {}), ((2,), {})], [((2,), {}), ((1,), {})]]),
    "cross_raise": ("raise2", [[((1,), {}), ((2,), {})], [((2,), {}), ((1,), {})]]),
    "twice": ("plain", [[((1,), {}), ((1,), {})], [((1,), {}), ((1,), {})]]),
    "rec": ("rec", [[((2,), {})], [((1,), {})]]),
    "rec_same": ("rec", [[((2,), {})], [((2,), {})]]),
    "mutual": ("mutual", [[((1,), {})], [((11,), {})]]),
    "three": ("plain", [[((1,), {})], [((1,), {})], [((1,), {})]]),
    "three_mixed": ("raise2", [[((1,), {})], [((2,), {})], [((2,), {}), ((1,), {})]]),
}

def scen_gen(tier):
    for name, (kind, threads) in SCEN.items():
        n = len(threads)
        if tier == "quick":
            bound = 2 if n == 2 else 1
        else:
            bound = 3 if n == 2 and kind != "rec" and len(threads[0]) == 1 else 2
        for part in range(8):
            yield [name, bound, part, 8]

def scen_run(case):
    name, bound, part, nparts = case
    kind, threads = SCEN[name]
    def make():
        evals = {}
        active = [0]
        def body(a):
            evals[a] = evals.get(a, 0) + 1
            sched.point()
            if kind == "mutual" and a not in (0, 10):   # f(1) -> g(0), g(11) -> f(10)
                return [a, (g if a < 10 else f)(0 if a < 10 else 10)]
            if kind == "rec" and a > 0:
                r = f(a - 1)
                return [a, r]
            if kind == "raise" or (kind == "raise2" and a == 2):
                raise Boom(a)
            if kind == "baseraise":
                raise BaseBoom(a)
            if kind == "none":
                return None
            sched.point()
            return [a]
        f = memoize(body)
        g = memoize(lambda a: body(a)) if kind == "mutual" else None
        def thread(calls):
            def run():
                out = []
                for args, kw in calls:
                    k = args[0] if args else kw["a"]
                    try:
                        out.append((k, "ok", (g if k > 10 and g else f)(*args, **kw)))
                    except sched.Abort:
                        raise
                    except (Boom, BaseBoom) as e:
                        out.append((k, "exc", e))
                return out
            return run
        def judge(ex):
            seen = {}
            for r in ex.results:
                mc.check(r[0] == "ok", lambda: f"thread failed: {r}")
                for k, how, v in r[1]:
                    if k in seen:
                        mc.check(seen[k][0] == how and seen[k][1] is v,
                                 lambda: f"callers of key {k} got different results {seen[k]} / {(how, v)}")
                    seen[k] = (how, v)
            for k, n in evals.items():
                mc.check(n == 1, lambda: f"key {k} evaluated {n} times")
            for k, (how, v) in seen.items():
                mc.check(evals.get(k) == 1, lambda: f"key {k} evaluated {evals.get(k)} times")
                want = "exc" if kind in ("raise", "baseraise") or (kind == "raise2" and k == 2) else "ok"
                mc.check(how == want, lambda: f"key {k}: {how} {v!r}")
                if how == "ok":
                    exp = None if kind == "none" else ([k] if kind != "rec" or k == 0 else None)
                    if kind == "mutual":
                        exp = [k, [0]] if k == 1 else [k, [10]]
                    if kind == "rec":
                        e = [0]
                        for j in range(1, k + 1):
                            e = [j, e]
                        exp = e
                    mc.check(v == exp, lambda: f"key {k}: value {v!r}, expected {exp!r}")
        return [thread(t) for t in threads], judge
    sched.explore(make, bound, part, nparts, deadlock_key="mutual-recursion-deadlock" if kind == "mutual" else None)

# ---------------------------------------------------------------- histories
def _mk(src):
    ns = {}
    exec(f"def f{src}:\n    d = dict(locals())\n    LOG.append(1)\n    return BODY(d)\n", ns)
    return ns
SIGS = ["(a)", "(a, b)", "(a, b=2)", "(a, *, b=2)", "(*args)", "(a, *args)", "(**kw)", "(a, **kw)",
        "(a, /, b)", "(*, a, b=3)", "(a=1, b=2)", "(a, /, b=1, *, c=2)", "()", "(a, *args, b=1)"]

def callforms(vals=(1, 2)):
    for npos in range(3):
        for pos in itertools.product(vals, repeat=npos):
            yield pos, {}
            for v in vals:
                yield pos, {"a": v}
                yield pos, {"b": v}
    for va in vals:
        for vb in vals:
            yield (), {"a": va, "b": vb}
            yield (), {"b": vb, "a": va}
FORMS = list(callforms())

def valid_forms(src):
    ns = _mk(src)
    s = inspect.signature(ns["f"])
    ok, bad = [], []
    has_varkw = "**" in src
    for i, (p, k) in enumerate(FORMS):
        try:
            s.bind(*p, **k)
            # the order of surplus named arguments is part of the binding; use one order only
            if has_varkw and list(k) == ["b", "a"]:
                continue
            ok.append(i)
        except TypeError:
            bad.append(i)
    return ok, bad

def refkey(sig, p, k):
    b = sig.bind(*p, **k)
    b.apply_defaults()
    return tuple((n, tuple(sorted(v.items())) if isinstance(v, dict) else v) for n, v in b.arguments.items())

def hist_gen(tier):
    for si, src in enumerate(SIGS):
        ok, bad = valid_forms(src)
        depth = 2 if tier == "quick" else 3
        for h in itertools.product(ok, repeat=depth):
            for mode in ("ok", "raise", "none"):
                yield [si, list(h), mode]
        for b in bad:
            for o in ok[:3]:
                yield [si, [o, b, o], "ok"]

def hist_run(case):
    si, hist, mode = case
    src = SIGS[si]
    ns = _mk(src)
    log = ns["LOG"] = []
    def body(d):
        if mode == "raise":
            raise Boom(d)
        return None if mode == "none" else [d]
    ns["BODY"] = body
    raw = ns["f"]
    sig = inspect.signature(raw)
    fs = [memoize(raw), memoize(raw)]
    memo = [{}, {}]
    for j, i in enumerate(hist + hist):       # interleave two independent memoized instances
        for w in (0, 1):
            p, k = FORMS[i]
            before = len(log)
            try:
                key = refkey(sig, p, k)
            except TypeError:
                key = None
            try:
                got = ("ok", fs[w](*p, **dict(k)))
            except Boom as e:
                got = ("exc", e)
            except TypeError as e:
                got = ("typeerror", None)
            ran = len(log) - before
            mc.step()
            if key is None:
                mc.check(got[0] == "typeerror" and ran == 0, lambda: f"invalid call {p} {k}: {got}, ran {ran}")
                continue
            if key in memo[w]:
                mc.check(ran == 0, lambda: f"call {p} {k} recomputed")
                mc.check(memo[w][key][0] == got[0] and memo[w][key][1] is got[1],
                         lambda: f"call {p} {k}: {got} but first was {memo[w][key]}")
            else:
                mc.check(ran == 1, lambda: f"first call {p} {k} ran the body {ran} times")
                b = sig.bind(*p, **k); b.apply_defaults()
                want = dict(b.arguments)
                if mode == "ok":
                    mc.check(got[0] == "ok" and got[1] == [want], lambda: f"call {p} {k}: {got}, expected {[want]}")
                elif mode == "none":
                    mc.check(got == ("ok", None), lambda: f"{got}")
                else:
                    mc.check(got[0] == "exc" and got[1].args == (want,), lambda: f"{got}")
                memo[w][key] = got
        mc.state((src, mode, tuple(sorted(map(repr, memo[0])))))

# ---------------------------------------------------------------- recursion, single thread
def rec_gen(tier):
    for n in range(0, 30 if tier == "quick" else 120):
        for raise_at in (None, 0, 1, n // 2):
            yield [n, raise_at]

def rec_run(case):
    n, raise_at = case
    evals = {}
    @memoize
    def fib(k):
        evals[k] = evals.get(k, 0) + 1
        if k == raise_at:
            raise Boom(k)
        return k if k < 2 else fib(k - 1) + fib(k - 2)
    def ref(k, cache={}):
        a = [0, 1]
        for j in range(2, k + 1):
            a.append(a[-1] + a[-2])
        return a[k]
    def call():
        try:
            return ("ok", fib(n))
        except Boom as e:
            return ("exc", e)
    r1, r2 = call(), call()
    mc.check(r1[0] == r2[0] and r1[1] is r2[1] or r1 == r2, lambda: f"{r1} {r2}")
    mc.check(all(v == 1 for v in evals.values()), lambda: f"evals {evals}")
    if r1[0] == "ok":
        mc.eq(r1[1], ref(n), f"fib({n})")
    mc.step(sum(evals.values()))
    mc.state((n, raise_at, r1[0]))

# ---------------------------------------------------------------- which calls are the same call
VALS = [None, 0, False, 1, True, 1.0, -1, -2, "", "1", "a", (), (1,), ("a", 1), (("a", 1),), frozenset(), frozenset([("a", 1)])]
NAMES = ["a", "x", "f", "func", "self", "args", "kwargs", "key", "memo", "lock", "k"]
KSIGS = ["(*args, **kw)", "(a, *rest)", "(**kw)", "(a, b=None)", "(a, b=(), *rest, x=None, **kw)", "(a, /, **kw)", "(*, x, a=0)"]
def kcalls(src):
    """call forms for a signature: <=2 positional values, or one value and <=1 named one, or two named ones"""
    sig = inspect.signature(_mk(src)["f"])
    out = [((), {})] + [((v,), {}) for v in VALS] + [((v, w), {}) for v in VALS[::2] for w in VALS[1::2]] + [((), {n: v}) for n in NAMES for v in VALS[::3]]
    out += [((v,), {n: w}) for v in VALS[::4] for n in NAMES for w in (1, None, ())] + [((), {n: 1, m: None}) for n, m in itertools.combinations(NAMES, 2)]
    ok = []
    for p, k in out:
        try:
            sig.bind(*p, **k)
        except TypeError:
            continue
        ok.append((p, k))
    return sig, ok
def key_gen(tier):
    for si in range(len(KSIGS)):
        for i in range(len(kcalls(KSIGS[si])[1])):
            yield [si, i]
_kc = {}
def key_run(case):
    si, i = case
    if si not in _kc:
        _kc[si] = kcalls(KSIGS[si])
    sig, calls = _kc[si]
    ns = _mk(KSIGS[si])
    log = ns["LOG"] = []
    ns["BODY"] = lambda d: [d]
    f = memoize(ns["f"])
    p, k = calls[i]
    def bound(p, k):
        b = sig.bind(*p, **k)
        b.apply_defaults()
        return dict(b.arguments)
    first, one = bound(p, k), f(*p, **k)
    mc.check(one == [first] and len(log) == 1, lambda: f"f{KSIGS[si]} called with {p} {k} gives {one}")
    seen = [(first, one)]
    for q, l in calls:
        b = bound(q, l)
        r = f(*q, **l)
        prev = next((x for c, x in seen if c == b), None)
        if prev is None:
            mc.check(r == [b] and repr(sorted(r[0].items())) == repr(sorted(b.items())), lambda: f"f{KSIGS[si]} called with {q} {l} gives {r}, the result of another call")
            seen.append((b, r))
        else:
            mc.check(r is prev, lambda: f"f{KSIGS[si]} called with {q} {l} again gives another result")
        mc.step()
    mc.check(len(log) == len(seen), lambda: f"f{KSIGS[si]}: {len(log)} evaluations of {len(seen)} calls")
    mc.check(f(*p, **k) is one, "first call")
    mc.state(case)

# ---------------------------------------------------------------- many different calls: nothing is ever forgotten
def many_gen(tier):
    for n in (1, 10, 100, 1000, 5000) if tier == "quick" else (1, 10, 100, 1000, 5000, 100000):
        for style in ("pos", "named", "raise", "method"):
            yield [n, style]
def many_run(case):
    n, style = case
    log = []
    class C:
        @memoize
        def m(self, a):
            log.append(a)
            return [a]
    @memoize
    def f(a, b=0):
        log.append(a)
        if style == "raise":
            raise Boom(a)
        return [a]
    objs = [C(), C()]
    def call(j):
        if style == "method":
            return ("ok", objs[j % 2].m(j // 2))
        try:
            return ("ok", f(a=j, b=0) if style == "named" else f(j))
        except Boom as e:
            return ("exc", e)
    first = [call(j) for j in range(n)]
    mc.check(len(log) == n, "one evaluation per call")
    for order in (range(n), range(n - 1, -1, -1), range(0, n, 7)):
        for j in order:
            k, v = call(j)
            mc.check(k == first[j][0] and v is first[j][1], lambda: f"call {j} of {n} different ones gives another result the second time")
            mc.step()
    mc.check(len(log) == n, lambda: f"{len(log)} evaluations of {n} calls")
    mc.state(case)

SPACES = [
    mc.Space("schedules", scen_gen, scen_run, "2 threads <= 2 (thorough 3) preemptions, 3 threads <= 1 (2); all bytecode-level points", timeout=240),
    mc.Space("histories", hist_gen, hist_run, "14 signatures x all call forms (<=2 positional, named a/b over {1,2}) x all histories of length 2 (thorough 3), repeated, on two instances"),
    mc.Space("keys", key_gen, key_run, "7 signatures x all pairs of 200 call forms over 17 values (equal ones, false ones, tuples that imitate other argument lists) and 11 names"),
    mc.Space("many", many_gen, many_run, "1 to 5000 (100000) different calls, each repeated in three orders"),
    mc.Space("recursion", rec_gen, rec_run, "recursive memoized function, n < 30 (120), raising at chosen depth"),
]
