"""T02: functional loops vs. imperative loops."""
from lib import mc
import itertools
from unpythonic import looped, looped_over, breakably_looped, breakably_looped_over

class X(Exception):
    pass

class Src:
    """iterable that records how far it was read"""
    def __init__(self, n, fail):
        self.n, self.fail, self.read, self.iters = n, fail, 0, 0
    def __iter__(self):
        self.iters += 1
        for i in range(self.n):
            self.read += 1
            if i == self.fail:
                raise X("source", i)
            yield f"x{i}"
        self.read += 1     # exhaustion observed

def outcome(thunk):
    try:
        return ("ok", thunk())
    except mc.CaseTimeout:
        raise
    except X as e:
        return ("exc",) + e.args

# ---- loops over iterables. One action per iteration.
ACT = ["loop(acc)", "loop()", "loop(acc,e)", "loop(acc,kw)", "loop(kw)", "loop(None)", "return", "raise"]
ACTB = ACT[:6] + ["cnt()", "cnt(e)", "cnt(kw)", "brk", "brkdeep", "return", "raise", "brkkw"]

def over_gen(tier):
    n = 4 if tier == "quick" else 5
    for k in range(0, n + 1):
        for acts in itertools.product(ACT, repeat=k):
            if any(a in ("return", "raise") for a in acts[:-1]):
                continue
            for acc in ("noacc", "tuple", "none"):
                for fail in (None,) if k == 0 else (None, k - 1, k):
                    yield [k, k + (1 if acts and acts[-1] in ("return", "raise") else 0), acts, acc, fail]

def mkbody(acts, log, breakable):
    def body(loop, x, acc, *more, **kw):
        if breakable:
            cnt, brk, *more = more
            more = tuple(more)
        else:
            cnt = brk = None
        i = len(log)
        log.append((x, acc, more, tuple(sorted(kw.items()))))
        a = acts[i]
        new = (acc, x)
        if a == "loop(acc)":
            return loop(new)
        if a == "loop()":
            return loop()
        if a == "loop(acc,e)":
            return loop(new, f"e{i}")
        if a == "loop(acc,kw)":
            return loop(new, f"e{i}", z=i)
        if a == "loop(kw)":
            return loop(z=i)
        if a == "loop(None)":
            return loop(None)
        if a == "cnt()":
            return cnt()
        if a == "cnt(e)":
            return cnt(f"e{i}")
        if a == "cnt(kw)":
            return cnt(z=i)
        if a == "brk":
            brk(("brk", x))
            assert False
        if a == "brkkw":
            return brk(value=("brk", x)) if False else brk(("brk", x))
        if a == "brk()":
            brk()
            assert False
        if a == "brkdeep":
            def deeper(k):
                try:
                    return brk(("deep", x)) if k == 0 else deeper(k - 1)
                finally:
                    log.append("cleanup")
            deeper(2)
            assert False
        if a == "return":
            return ("ret", x)
        raise X("body", i)
    return body

def model(k, acts, acc, fail, log):
    """the imperative loop"""
    src = Src(k, fail)
    more, kw = (), {}
    for x in src:
        i = len(log)
        log.append((x, acc, more, tuple(sorted(kw.items()))))
        a = acts[i]
        more, kw = (), {}
        if a in ("loop(acc)", "loop(acc,e)", "loop(acc,kw)"):
            acc = (acc, x)
        if a == "loop(None)":
            acc = None
        if a in ("loop(acc,e)", "loop(acc,kw)", "cnt(e)"):
            more = (f"e{i}",)
        if a in ("loop(acc,kw)", "loop(kw)", "cnt(kw)"):
            kw = {"z": i}
        if a in ("brk", "brkkw"):
            return ("brk", x), src
        if a == "brk()":
            return None, src
        if a == "brkdeep":
            log.extend(["cleanup"] * 3)
            return ("deep", x), src
        if a == "return":
            return ("ret", x), src
        if a == "raise":
            raise X("body", i)
    return acc, src

def run_over(case, breakable=False):
    k, n, acts, acckind, fail = case
    deco = breakably_looped_over if breakable else looped_over
    log, wlog = [], []
    acc = {"noacc": None, "tuple": (), "none": None}[acckind]
    kwargs = {} if acckind == "noacc" else {"acc": acc}
    src = Src(n, fail)
    got = outcome(lambda: deco(src, **kwargs)(mkbody(acts, log, breakable)))
    holder = []
    def m():
        r, s = model(n, acts, acc, fail, wlog)
        holder.append(s)
        return r
    want = outcome(m)
    mc.check(got == want and log == wlog, lambda: f"got {got} {log}, imperative loop gives {want} {wlog}")
    if holder:
        mc.eq(src.read, holder[0].read, "items read from the iterable")
    mc.eq(src.iters, 1, "iterations of the iterable")
    mc.step(len(log))
    mc.state((got, tuple(map(str, log))))

def overb_gen(tier):
    n = 3 if tier == "quick" else 4
    STOP = ("return", "raise", "brk", "brkdeep", "brkkw")
    for k in range(0, n + 2):
        for acts in itertools.product(ACTB, repeat=k):
            if any(a in STOP for a in acts[:-1]) or (k == n + 1 and acts[-1] not in STOP):
                continue
            for acc in ("noacc", "tuple"):
                for fail in (None,) if k == 0 else (None, k - 1, k):
                    yield [k, k + (1 if acts and acts[-1] in STOP else 0), acts, acc, fail]

# ---- plain loops
PACT = ["loop()", "loop(i)", "loop(i,acc)", "loop(kw)", "loop(i,kw)", "ret", "fall", "raise", "retfunc"]
PACTB = PACT + ["brk", "brkdeep", "brk2"]
def plain_gen(tier):
    n = 4 if tier == "quick" else 5
    for b, acts in (("looped", PACT), ("breakably", PACTB)):
        stop = [a for a in acts if not a.startswith("loop")]
        go = [a for a in acts if a.startswith("loop")]
        for k in range(0, n + 1):
            for seq in itertools.product(go, repeat=k):
                for s in stop:
                    yield [b, seq + (s,)]

def plain_run(case):
    b, acts = case
    log = []
    def common(loop, brk, i, acc, kw):
        k = len(log)
        log.append((i, acc, tuple(sorted(kw.items()))))
        a = acts[k]
        if a == "loop()":
            return loop()
        if a == "loop(i)":
            return loop(k)
        if a == "loop(i,acc)":
            return loop(k, (acc, k))
        if a == "loop(kw)":
            return loop(acc=(acc, k))
        if a == "loop(i,kw)":
            return loop(k, z=k)
        if a == "ret":
            return ("ret", k)
        if a == "retfunc":
            return len
        if a == "fall":
            return None
        if a == "raise":
            raise X("body", k)
        if a in ("brk", "brk2"):
            return brk(("brk", k)) if a == "brk" else (brk(("brk", k)), 1)
        if a == "brk()":
            brk()
        if a == "brkdeep":
            [brk(("brk", j)) for j in range(3)]
        assert False
    if b == "looped":
        def body(loop, i="i0", acc="a0", **kw):
            return common(loop, None, i, acc, kw)
        got = outcome(lambda: looped(body))
    else:
        def body(loop, brk, i="i0", acc="a0", **kw):
            return common(loop, brk, i, acc, kw)
        got = outcome(lambda: breakably_looped(body))
    # imperative
    wlog, want = [], None
    cur = {}
    for k, a in enumerate(acts):
        i, acc = cur.pop("i", "i0"), cur.pop("acc", "a0")
        wlog.append((i, acc, tuple(sorted(cur.items()))))
        cur = {}
        if a == "loop(i)":
            cur = {"i": k}
        elif a == "loop(i,acc)":
            cur = {"i": k, "acc": (acc, k)}
        elif a == "loop(kw)":
            cur = {"acc": (acc, k)}
        elif a == "loop(i,kw)":
            cur = {"i": k, "z": k}
        elif not a.startswith("loop"):
            want = {"ret": ("ok", ("ret", k)), "retfunc": ("ok", len), "fall": ("ok", None), "raise": ("exc", "body", k), "brk": ("ok", ("brk", k)), "brk2": ("ok", ("brk", k)), "brk()": ("ok", None), "brkdeep": ("ok", ("brk", 0))}[a]
            break
    mc.check(got == want and log == wlog, lambda: f"got {got} {log}, imperative loop gives {want} {wlog}")
    mc.step(len(log))
    mc.state((b, str(got), len(log)))

# ---- nested loops, loops used through each other, closures capture distinct variables, length
def nest_gen(tier):
    kinds = ("looped", "looped_over", "breakably_looped", "breakably_looped_over")
    for a in kinds:
        for b in kinds:
            for na in range(0, 4):
                for nb in range(0, 4):
                    for esc in ("none", "innerbrk", "outerbrk"):
                        if esc == "outerbrk" and not a.startswith("break"):
                            continue
                        if esc == "innerbrk" and not b.startswith("break"):
                            continue
                        for at in range(0, 3):
                            if esc == "none" and at:
                                continue
                            yield [a, b, na, nb, esc, at]

def runloop(kind, n, body):
    """body(i, brk) -> one iteration; returns list of results"""
    if kind == "looped":
        return looped(lambda loop, i=0, acc=(): acc if i == n else loop(i + 1, acc + (body(i, None),)))
    if kind == "breakably_looped":
        return breakably_looped(lambda loop, brk, i=0, acc=(): acc if i == n else loop(i + 1, acc + (body(i, brk),)))
    if kind == "looped_over":
        return looped_over(range(n), acc=())(lambda loop, i, acc: loop(acc + (body(i, None),)))
    return breakably_looped_over(range(n), acc=())(lambda loop, i, acc, cnt, brk: loop(acc + (body(i, brk),)))

def nest_run(case):
    a, b, na, nb, esc, at = case
    log = []
    def outer(i, brk1):
        def inner(j, brk2):
            log.append((i, j))
            if esc == "innerbrk" and j == at:
                brk2(("ib", i, j))
            if esc == "outerbrk" and i + j == at:
                brk1(("ob", i, j))
            return lambda: (i, j)
        r = runloop(b, nb, inner)
        return tuple(f() for f in r) if r and callable(r[0]) else r
    got = runloop(a, na, outer)
    wlog = []
    def imp():
        res = ()
        for i in range(na):
            r = ()
            for j in range(nb):
                wlog.append((i, j))
                if esc == "innerbrk" and j == at:
                    r = ("ib", i, j)
                    break
                if esc == "outerbrk" and i + j == at:
                    return ("ob", i, j)
                r = r + ((i, j),)
            res = res + (r,)
        return res
    want = imp()
    mc.check(got == want and log == wlog, lambda: f"{got} {log} != {want} {wlog}")
    mc.step(len(log))
    mc.state((str(got),))

def long_gen(tier):
    for kind in ("looped", "looped_over", "breakably_looped", "breakably_looped_over"):
        yield [kind, 3000 if tier == "quick" else 50000]

def long_run(case):
    kind, n = case
    cnt = []
    def body(i, brk):
        cnt.append(i)
    if kind == "looped":
        r = looped(lambda loop, i=0: ("end", i) if i == n else (body(i, None), loop(i + 1))[1])
    elif kind == "breakably_looped":
        r = breakably_looped(lambda loop, brk, i=0: brk(("end", i)) if i == n else (body(i, brk), loop(i + 1))[1])
    elif kind == "looped_over":
        r = looped_over(range(n), acc=0)(lambda loop, i, acc: (body(i, None), loop(acc + 1))[1])
        r = ("end", r)
    else:
        r = breakably_looped_over(range(n + 5), acc=0)(lambda loop, i, acc, c, brk: brk(("end", acc)) if i == n else ((body(i, brk), c())[1] if i % 2 else (body(i, brk), loop(acc + 2))[1]))
    mc.eq(r, ("end", n), "result")
    mc.check(cnt == list(range(n)), "body calls")
    mc.step(n)
    mc.state(case)

# ---- malformed bodies are refused before anything runs
BODIES = {"0": "lambda: 1", "1": "lambda a: 'r'", "2": "lambda a, b: 'r'", "3": "lambda a, b, c: 'r'", "4": "lambda a, b, c, d: 'r'", "5": "lambda a, b, c, d, e: 'r'", "6": "lambda a, b, c, d, e, f: 'r'",
          "2d": "lambda a, b, c=0: 'r'", "1d": "lambda a, b=0: 'r'", "v": "lambda *a: 'r'", "3d": "lambda a, b, c, d=0, *, k=1: 'r'", "5d": "lambda a, b, c, d, e, f=0: 'r'"}
RANGE = {"0": (0, 0), "1": (1, 1), "2": (2, 2), "3": (3, 3), "4": (4, 4), "5": (5, 5), "6": (6, 6), "2d": (2, 3), "1d": (1, 2), "v": (0, 99), "3d": (3, 4), "5d": (5, 6)}
def mal_gen(tier):
    for k, need in (("looped", 1), ("breakably_looped", 2), ("looped_over", 3), ("breakably_looped_over", 5)):
        for b in BODIES:
            yield [k, need, b]

def mal_run(case):
    k, need, b = case
    f = eval(BODIES[b])
    src = Src(2, None)
    thunk = {"looped": lambda: looped(f), "breakably_looped": lambda: breakably_looped(f), "looped_over": lambda: looped_over(src, acc=1)(f), "breakably_looped_over": lambda: breakably_looped_over(src, acc=1)(f)}[k]
    lo, hi = RANGE[b]
    want = ("ok", "r") if lo <= need <= hi else ("exc", "ValueError")
    mc.eq(mc.outcome(thunk), want, f"{k} with body {BODIES[b]}")
    if want[0] == "exc":
        mc.eq(src.read, 0, "items read for a refused body")
    mc.step()
    mc.state(case)

SPACES = [
    mc.Space("over", over_gen, run_over, "looped_over: all action sequences of length <= 4 (5) over 8 actions, 3 accumulators, source failing at each of the last positions"),
    mc.Space("over-breakable", overb_gen, lambda c: run_over(c, True), "breakably_looped_over: all action sequences of length <= 3 (4) plus a final exit, over 14 actions"),
    mc.Space("plain", plain_gen, plain_run, "looped / breakably_looped: all sequences of <= 4 (5) loop calls in 5 argument styles ended by every kind of exit"),
    mc.Space("nested", nest_gen, nest_run, "all pairs of loop kinds nested, 0..3 x 0..3 iterations, break of inner/outer at every point; closures capture per-iteration variables"),
    mc.Space("long", long_gen, long_run, "3000 (50000) iterations under recursion limit 1000"),
    mc.Space("malformed", mal_gen, mal_run, "12 body signatures x 4 loop kinds"),
]
