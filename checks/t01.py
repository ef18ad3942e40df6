"""T01: programs of mutually tail-calling functions, trampolined vs. written with ordinary calls."""
from lib import mc
import functools, itertools, sys
from unpythonic import trampolined, jump, curry, memoize, withself, gtco, gtrampolined, dyn, call_ec
import unpythonic.lazyutil  # noqa: F401

class X(Exception):
    pass

def depth():
    f, n = sys._getframe(), 0
    while f is not None:
        n += 1
        f = f.f_back
    return n

STYLES = ("pos", "named", "mixed", "star")

def send(how, target, style, n, acc):
    """how: jump or plain call"""
    if style == "pos":
        return how(target, n, acc)
    if style == "named":
        return how(target, acc=acc, n=n)
    if style == "mixed":
        return how(target, n, acc=acc)
    return how(target, *[n, acc], **{})

def call(f, *args, **kwargs):
    return f(*args, **kwargs)

def build(prog, decos, log, real, depths=None):
    """prog: list of ops, one per node. -> list of entry callables"""
    fs = [None] * len(prog)
    def mk(i):
        op = prog[i]
        def body(selfref, n, acc):
            log.append((i, n, acc))
            if depths is not None:
                depths.append(depth())
            if n == 0:
                return ("end", i, acc)
            k = op[0]
            nacc = acc + (i,) if len(acc) < 6 else acc
            if k == "raise":
                raise X(i, n, acc)
            if k == "noncallable":
                return jump(42, n) if real else (_ for _ in ()).throw(RuntimeError("x"))
            t = fs[op[1]] if not (selfref is not None and op[1] == i) else selfref
            if k == "jump":
                return send(jump if real else call, t, op[2], n - 1, nacc)
            if k == "call":
                return t(n - 1, nacc)
            if k == "wrap":
                return ("w", i, fs[op[1]](n - 1, nacc))
            if k == "seq":     # non-tail call, then jump
                r = fs[op[1]](n - 1, nacc + ("s",) if len(nacc) < 6 else nacc)
                log.append(("got", i, r))
                return send(jump if real else call, fs[op[2]], "pos", n - 1, nacc)
            assert False
        d = decos[i]
        def f(n, acc=()):
            return body(None, n, acc)
        f.__name__ = f"f{i}"
        if not real:
            if d in ("W",):
                return withself(lambda self, n, acc=(): body(self, n, acc))
            return f
        if d == "P":
            return f
        if d == "T":
            return trampolined(f)
        if d == "TT":
            return trampolined(trampolined(f))
        if d == "CT":
            return curry(trampolined(f))
        if d == "CP":
            return curry(f)
        if d == "MT":
            return memoize(trampolined(f))
        if d == "TM":
            return trampolined(memoize(f))
        if d == "MP":
            return memoize(f)
        if d == "W":
            return trampolined(withself(lambda self, n, acc=(): body(self, n, acc)))
        if d in ("B", "BP", "K", "KP", "SM"):
            class Obj:
                def meth(self, n, acc=()):
                    assert isinstance(self, Obj)
                    return body(None, n, acc)
                def cmeth(cls, n, acc=()):
                    assert cls is Obj
                    return body(None, n, acc)
            Obj.tmeth = trampolined(Obj.meth)
            Obj.smeth = staticmethod(trampolined(f))
            Obj.tcm = classmethod(trampolined(Obj.cmeth))
            Obj.pcm = classmethod(Obj.cmeth)
            o = Obj()
            return {"B": o.tmeth, "BP": o.meth, "K": o.tcm, "KP": Obj.pcm, "SM": o.smeth}[d]
        if d == "F":
            return functools.partial(trampolined(f))
        if d == "O":
            class Callable:
                def __call__(self, n, acc=()):
                    return body(None, n, acc)
            return Callable()
        if d == "OT":
            class Callable:
                @trampolined
                def __call__(self, n, acc=()):
                    return body(None, n, acc)
            return Callable()
        if d == "LT":
            with dyn.let(_build_lazy_trampoline=True):
                return trampolined(f)
        assert False, d
    for i in range(len(prog)):
        fs[i] = mk(i)
    return fs

# decorations whose plain call fully runs the program (returns no jump object)
RUNS = {"T", "TT", "CT", "MT", "TM", "W", "B", "K", "SM", "F", "OT", "LT"}

def returns_jump(prog, decos, i, seen=()):
    """may a plain call of node i return an unresolved jump?"""
    if decos[i] in RUNS:
        return False
    op = prog[i]
    if op[0] in ("jump", "seq", "noncallable"):
        return True
    if op[0] == "call" and op[1] not in seen:
        return returns_jump(prog, decos, op[1], seen + (i,))
    return False

def valid(prog, decos):
    if decos[0] not in RUNS:
        return False
    for op in prog:
        if op[0] in ("wrap", "seq") and returns_jump(prog, decos, op[1]):
            return False
    return True

def run_prog(case):
    prog, decos, ns = case
    for n in ns:
        log = []
        got = outcome(lambda: build(prog, decos, log, True)[0](n, ()), log)
        log = []
        want = outcome(lambda: build(prog, decos, log, False)[0](n, ()), log)
        mc.check(got == want, lambda: f"n={n}: trampolined {got}, direct {want}")
        mc.step(len(log))
        mc.trace()
        mc.state((got[0], len(log), str(prog)))

def outcome(thunk, log):
    try:
        r = ("ok", thunk())
    except mc.CaseTimeout:
        raise
    except X as e:
        r = ("exc", "X", e.args)
    except Exception as e:
        r = ("exc", type(e).__name__)
    return r, list(log)

D2 = ["T", "P", "TT", "CT", "CP", "MT", "TM", "MP", "W", "B", "BP", "K", "KP", "SM", "F", "O", "OT", "LT"]
def gen2(tier):
    """two nodes, all decorations, all argument styles"""
    ops = [("jump", t, s) for t in (0, 1) for s in STYLES] + [("call", t) for t in (0, 1)] + [("wrap", t) for t in (0, 1)] + [("raise",), ("noncallable",)]
    ops += [("seq", a, b) for a in (0, 1) for b in (0, 1)]
    for p in itertools.product(ops, repeat=2):
        for d in itertools.product(D2, repeat=2):
            if valid(p, d):
                yield [p, d, [0, 1, 3] if tier == "quick" else [0, 1, 2, 3, 5]]

def gen3(tier):
    """three nodes"""
    ops = [("jump", t, s) for t in (0, 1, 2) for s in (("pos",) if tier == "quick" else ("pos", "mixed"))] + [("call", t) for t in (0, 1, 2)] + [("wrap", t) for t in (0, 1, 2)] + [("raise",)]
    ds = ["T", "P", "B"] if tier == "quick" else ["T", "P", "B", "CT", "MP", "W"]
    for p in itertools.product(ops, repeat=3):
        for d in itertools.product(ds, repeat=3):
            if valid(p, d):
                yield [p, d, [4]]

def gen_deep(tier):
    """chains using only tail transfers by jump: stack depth must not depend on the length"""
    ops = [("jump", t, s) for t in (0, 1) for s in ("pos", "mixed")]
    for p in itertools.product(ops, repeat=2):
        for d in itertools.product(D2, repeat=2):
            if d[0] in RUNS:
                # partial and callable-object wrappers around a trampoline, and plain-callable results of
                # memoize over a trampoline, hide the entrypoint; they bring their own trampoline frames.
                if "F" in d or "OT" in d or "TT" in d:
                    continue
                yield [p, d, 1500 if tier == "quick" else 6000]

def run_deep(case):
    prog, decos, n = case
    log, depths = [], []
    base = depth()
    r = build(prog, decos, log, True, depths)[0](n, ())
    mc.eq(len(log), n + 1, "body runs")
    mc.eq(r[0], "end", "result")
    # bounded: no deeper late in the chain than early in it, and small
    early, late = max(depths[:8]), max(depths[8:])
    mc.check(late <= early, lambda: f"stack depth grows along a chain of jumps: {early - base} early, {late - base} late")
    mc.check(early - base < 40, lambda: f"stack depth {early - base}")
    mc.step(n)
    mc.state((decos, late - base))

# ---- generators
TAILS = ["tail0", "tail1", "from0", "from1", "list", "range", "str", "value", "none", "raise", "badit"]
def gbuild(prog, decos, log, real):
    gs = [None, None]
    class Bad:
        """an iterable whose iterator raises TypeError midway"""
        def __iter__(self):
            yield "b1"
            raise TypeError("inside iteration")
    def mk(i):
        pre, tail = prog[i]
        def g(n):
            log.append(("enter", i, n))
            try:
                for k in range(pre):
                    got = yield (i, n, k)
                    if got is not None:
                        log.append(("sent", i, n, k, got))
            except X as e:
                log.append(("caught", i, n))
                yield ("recovered", i, n)
            finally:
                log.append(("exit", i, n))
            if n == 0:
                return None
            if tail.startswith("tail"):
                t = gs[int(tail[4])]
                return t(n - 1) if real else (yield from t(n - 1))
            if tail.startswith("from"):
                r = yield from gs[int(tail[4])](n - 1)
                log.append(("from", i, r))
                return None
            if tail == "value":
                return ("yield42" and 42)
            x = {"list": [7, 8], "range": range(3), "str": "ab", "none": None, "badit": None}.get(tail)
            if tail == "badit":
                x = Bad()
            if tail == "raise":
                raise X(i, n)
            if real or x is None:
                return x
            yield from x
            return None
        return gtrampolined(g) if (real and decos[i] == "T") else g
    gs[0], gs[1] = mk(0), mk(1)
    return gs

def gtail_ok(prog, decos):
    # "yield from" of an undecorated generator that tail-chains would not run the chain
    for pre, tail in prog:
        if tail.startswith("from"):
            t = int(tail[4])
            if decos[t] != "T" and not (prog[t][1].startswith("from") or prog[t][1] in ("value", "none", "raise")):
                return False
            if decos[t] != "T" and prog[t][1] in ("value",):
                return False
    return True

def gdrive(make, script):
    out = []
    it = make()
    for s in script:
        try:
            if s == "next":
                out.append(("y", next(it)))
            elif s == "send":
                out.append(("y", it.send("v") if out else next(it)))
            elif s == "throw":
                out.append(("y", it.throw(X("thrown"))))
            elif s == "close":
                out.append(("c", it.close()))
        except StopIteration as e:
            out.append(("stop", e.value))
            break
        except (X, TypeError, AttributeError) as e:
            out.append(("exc", type(e).__name__))
            break
    it.close()
    return out

def ggen(tier):
    node = [(pre, t) for pre in (0, 1, 2) for t in TAILS]
    scripts = [("next",) * 12, ("next", "send", "next", "send", "next"), ("next", "throw", "next", "next"), ("next", "next", "throw", "next", "next"), ("next", "next", "close"), ("next", "next", "next", "close")]
    for p in itertools.product(node, repeat=2):
        if p[0][1] in ("list", "range", "str", "value", "none", "raise", "badit") and p[1] != node[0]:
            continue
        for d in ("T", "P"), ("T", "T"), ("P", "T"), ("P", "P"):
            if gtail_ok(p, d):
                yield [p, d, scripts if tier == "quick" else scripts + list(itertools.product(("next", "send", "throw", "close"), repeat=4))]

def grun(case):
    prog, decos, scripts = case
    for sc in scripts:
        for n in (0, 1, 3):
            log = []
            def start():
                x = gbuild(prog, decos, log, True)[0](n)
                return iter(x) if decos[0] == "T" else gtco(x)
            got = gdrive(start, sc)
            glog = log
            log = []
            want = gdrive(lambda: gbuild(prog, decos, log, False)[0](n), sc)
            if sc[-1] == "close" or "throw" in sc or True:
                mc.check(got == want and glog == log, lambda: f"n={n} script={sc}: {got} {glog} != {want} {log}")
            mc.step(len(got))
            mc.trace()
    mc.state(str(want))

def gdeep_gen(tier):
    for p in itertools.product([(pre, t) for pre in (0, 1) for t in ("tail0", "tail1")], repeat=2):
        for d in ("T", "P"), ("T", "T"), ("P", "T"), ("P", "P"):
            yield [p, d, 2000 if tier == "quick" else 20000]

def gdeep_run(case):
    prog, decos, n = case
    log = []
    x = gbuild(prog, decos, log, True)[0](n)
    items = list(x if decos[0] == "T" else gtco(x))
    mc.eq(len(log), 2 * (n + 1), "generators entered and left")
    mc.state((len(items),))
    mc.step(n)

# ---- trampolined() over inert data; results that are callables or jumps inside data
def misc_gen(tier):
    for v in ("int", "none", "tuple", "func", "jumpvalue"):
        for stack in ("T", "TE", "TEjump"):
            yield [v, stack]

def misc_run(case):
    v, stack = case
    def marker(*a):
        return ("called", a)
    val = {"int": 5, "none": None, "tuple": (1, 2), "func": marker, "jumpvalue": [1]}[v]
    if stack == "T":
        if v == "func":
            mc.eq(trampolined(val)(1), ("called", (1,)))
            @trampolined
            def f():
                return val
            mc.check(f() is val, "a callable result is returned, not called")
        else:
            mc.check(trampolined(val) is val, "inert data")
    elif stack == "TE":
        @trampolined
        def f(n):
            @call_ec
            def res(ec):
                if n == 0:
                    ec(val)
                return jump(f, n - 1)
            return res
        mc.check(f(0) is val and f(3) is val, "jump out of call_ec")
    else:
        if v == "func":
            return
        @trampolined
        @call_ec
        def res(ec):
            ec(jump(lambda a, b=2: (a, b, val), 1, b=3))
        mc.eq(res, (1, 3, val))
    mc.step()
    mc.state(case)

# ---- every way of passing arguments through a jump
SIGS = {"a": lambda a: ("a", a), "ab": lambda a, b=5: ("ab", a, b), "star": lambda *args: ("star", args), "kw": lambda **kw: ("kw", tuple(sorted(kw.items()))),
        "all": lambda a, b=5, *args, k=3, **kw: ("all", a, b, args, k, tuple(sorted(kw.items()))), "none": lambda: ("none",),
        "po": eval("lambda a, b=1, /, c=2: ('po', a, b, c)"), "ko": lambda *, k, f=1: ("ko", k, f)}
NAMES = ("a", "b", "c", "k", "f", "args", "kwargs", "function", "self")
def args_gen(tier):
    for s in SIGS:
        for npos in range(0, 5):
            for r in range(0, 3 if tier == "quick" else 4):
                for names in itertools.combinations(NAMES, r):
                    for tgt in ("plain", "tramp", "method", "lazytramp"):
                        yield [s, npos, names, tgt]

def args_run(case):
    s, npos, names, tgt = case
    f = SIGS[s]
    pos = tuple(f"p{i}" for i in range(npos))
    kw = {n: "v" + n for n in names}
    want = mc.outcome(lambda: f(*pos, **kw))
    if tgt == "plain":
        t = f
    elif tgt == "tramp":
        t = trampolined(f)
    elif tgt == "lazytramp":
        with dyn.let(_build_lazy_trampoline=True):
            t = trampolined(f)
    else:
        class O:
            pass
        if "self" in names:
            return
        O.m = trampolined(lambda self, *a, **k: f(*a, **k))
        t = O().m
    outer = trampolined(lambda: jump(t, *pos, **kw))
    mc.eq(mc.outcome(outer), want, f"jump to {tgt} {s}")
    mc.eq(mc.outcome(lambda: trampolined(f)(*pos, **kw)), want, f"call {s}")
    mc.step(2)
    mc.state(str(want))

SPACES = [
    mc.Space("programs2", gen2, run_prog, "2 functions, 18 decorations each, 18 tail operations each, 4 argument styles, recursion depth 0..3 (5 thorough)"),
    mc.Space("programs3", gen3, run_prog, "3 functions, 10 operations, 3 decorations (6 thorough), depth 4"),
    mc.Space("deep", gen_deep, run_deep, "2 functions x 15 decorations, chains of 1500 (6000) jumps under recursion limit 1000; stack depth measured at every entry"),
    mc.Space("generators", ggen, grun, "2 generators x 33 bodies, 4 decorations, chain depth 0..3, 6 driver scripts (next/send/throw/close)"),
    mc.Space("gdeep", gdeep_gen, gdeep_run, "chains of 2000 (20000) generators"),
    mc.Space("args", args_gen, args_run, "8 signatures x 0..4 positional x 0..2 (3) named arguments x 4 targets"),
    mc.Space("misc", misc_gen, misc_run, "inert data, call_ec inside trampolines"),
]
