"""F02: compositions, pipes and argument utilities vs. nested calls written by hand."""
from lib import mc
import itertools
from unpythonic import (composer, composel, composeri, composeli, composer1, composel1, composer1i, composel1i, composerc, composelc, composerci, composelci,
                        pipe, piped, lazy_piped, pipe1, piped1, lazy_piped1, pipec, exitpipe, flip, rotate, apply, identity, const, notf, andf, orf,
                        tokth, to1st, to2nd, tolast, to, withself, call, callwith, Values, valuify, curry, dyn)
from unpythonic.fun import iscurried
from checks.f01 import Spec, apply_model, ModelTypeError, Pending

class X(Exception):
    pass

LOG = []
def desc(x):
    if isinstance(x, Values):
        return ("Values", tuple(map(desc, x.rets)), tuple(sorted((k, desc(v)) for k, v in x.kwrets.items())))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(map(desc, x)))
    return x
def sz(x):
    """keep intermediate values small but order-sensitive"""
    return x
KINDS = ["id", "tag", "spread", "spreadkw", "kwonly", "empty", "none", "list", "tuple", "raise", "swap", "one", "builtin"]
def mk(i, kind):
    def f(*args, **kw):
        LOG.append((i, desc(args), desc(tuple(sorted(kw.items())))))
        d = (i, desc(args), tuple(sorted((k, desc(v)) for k, v in kw.items())))
        if kind == "id":
            return args[0] if len(args) == 1 and not kw else Values(*args, **kw)
        if kind in ("tag", "one"):
            return d
        if kind == "spread":
            return Values(d, i)
        if kind == "spreadkw":
            return Values(d, z=i)
        if kind == "kwonly":
            return Values(z=d)
        if kind == "empty":
            return Values()
        if kind == "none":
            return None
        if kind == "list":
            return [d, i]
        if kind == "tuple":
            return (d, i)
        if kind == "raise":
            raise X(i)
        if kind == "swap":
            return Values(*reversed(args), **kw)
    if kind == "one":
        return lambda x: f(x)
    if kind == "builtin":
        return repr
    return f

def outcome(thunk):
    del LOG[:]
    try:
        r = ("ok", desc(thunk()))
    except mc.CaseTimeout:
        raise
    except X as e:
        r = ("exc", "X", e.args)
    except Exception as e:
        r = ("exc", type(e).__name__)
    return r, tuple(LOG)

def by_hand(fs, args, kw):
    """fs in application order"""
    v = fs[0](*args, **kw)
    for f in fs[1:]:
        v = f(*v.rets, **v.kwrets) if isinstance(v, Values) else f(v)
    return v

CALLS = [((1,), {}), ((1, 2), {}), ((), {}), ((1,), {"z": 3}), ((), {"z": 3}), ((None,), {})]
def comp_gen(tier):
    n = 3 if tier == "quick" else 4
    for kinds in mc.seqs(KINDS, n, 1):
        yield [kinds]

def comp_run(case):
    (kinds,) = case
    fs = [mk(i, k) for i, k in enumerate(kinds)]
    forms = {"composel": lambda: composel(*fs), "composeli": lambda: composeli(f for f in fs), "composer": lambda: composer(*reversed(fs)), "composeri": lambda: composeri(reversed(fs)),
             "nested": lambda: composel(composel(*fs[:1]), *fs[1:]), "nested2": lambda: composer(composel(*fs[1:]), fs[0]) if len(fs) > 1 else composer(fs[0])}
    for args, kw in CALLS:
        want = outcome(lambda: by_hand(fs, args, kw))
        for name, form in forms.items():
            got = outcome(lambda: form()(*args, **kw))
            mc.check(got == want, lambda: f"{name} of {kinds} on {args} {kw}: {got}, by hand {want}")
        c = composel(*fs)
        mc.check(outcome(lambda: c(*args, **kw)) == want and outcome(lambda: c(*args, **kw)) == want, "a composed function can be called repeatedly")
        mc.step(len(forms) * len(kinds))
    # one-argument versions: values are passed as they are
    for x in (1, Values(1, 2), None):
        def hand1():
            v = x
            for f in fs:
                v = f(v)
            return v
        want = outcome(hand1)
        for name, form in {"composel1": lambda: composel1(*fs), "composel1i": lambda: composel1i(iter(fs)), "composer1": lambda: composer1(*reversed(fs)), "composer1i": lambda: composer1i(reversed(fs))}.items():
            got = outcome(lambda: form()(x))
            mc.check(got == want, lambda: f"{name} of {kinds} on {x}: {got}, by hand {want}")
        want = outcome(hand1)
        for name, form in {"pipe1": lambda: pipe1(x, *fs), "piped1": lambda: pipeobj(piped1(x), fs), "lazy_piped1": lambda: pipeobj(lazy_piped1(x), fs)}.items():
            got = outcome(form)
            mc.check(got == want, lambda: f"{name} of {kinds} on {x}: {got}, by hand {want}")
    mc.state((kinds, want[0]))

def pipeobj(p, fs):
    for f in fs:
        p = p | f
    return p | exitpipe

INIT = [Values(1), Values(1, 2), Values(1, z=2), Values(z=2), Values(), Values(None)]
def unwrap(v):
    if isinstance(v, Values) and not v.kwrets and len(v.rets) == 1:
        return v.rets[0]
    return v

def pipe_gen(tier):
    n = 3 if tier == "quick" else 4
    for kinds in mc.seqs(KINDS, n, 0):
        yield [kinds]

def pipe_run(case):
    (kinds,) = case
    fs = [mk(i, k) for i, k in enumerate(kinds)]
    for v0 in INIT:
        def hand():
            v = v0
            for f in fs:
                v = f(*v.rets, **v.kwrets) if isinstance(v, Values) else f(v)
            return unwrap(v)
        want = outcome(hand)
        for name, form in {"pipe": lambda: pipe(v0, *fs), "piped": lambda: pipeobj(piped(*v0.rets, **v0.kwrets), fs), "lazy_piped": lambda: pipeobj(lazy_piped(*v0.rets, **v0.kwrets), fs),
                           "pipec": lambda: pipec(v0, *fs)}.items():
            if name == "pipec" and ("builtin" in kinds or "one" in kinds):
                continue
            got = outcome(form)
            mc.check(got == want, lambda: f"{name} from {v0} through {kinds}: {got}, by hand {want}")
            mc.step(len(kinds))
    if True:
        x = [1, 2]
        want = outcome(lambda: by_hand(fs, (x,), {}) if fs else x)
        mc.check(outcome(lambda: pipe(x, *fs))[1] == want[1], "pipe from a plain (non-Values) value")
    mc.state((kinds, want[0]))

# ---- pipe objects: all histories of extending and running a growing family of pipes
def tree_gen(tier):
    n = 4 if tier == "quick" else 5
    for cls in ("piped", "lazy_piped", "piped1", "lazy_piped1"):
        def rec(pref, nodes):
            if pref:
                yield pref
            if len(pref) == n:
                return
            for k in range(nodes):
                for f in ("tag", "spread", "raise") if cls.endswith("piped") and cls != "piped1" else ("tag", "list", "raise"):
                    yield from rec(pref + [["ext", k, f]], nodes + 1)
                yield from rec(pref + [["run", k, ""]], nodes)
        for h in rec([], 1):
            yield [cls, h]

def tree_run(case):
    cls, hist = case
    C = {"piped": piped, "lazy_piped": lazy_piped, "piped1": piped1, "lazy_piped1": lazy_piped1}[cls]
    lazy = cls.startswith("lazy")
    multi = cls in ("piped", "lazy_piped")
    # model node: (list of functions, current value or 'broken')
    del LOG[:]
    wlog = []
    real = [C("x")]
    nodes = [([], "x")]
    fn = []
    def app(f, v):
        # run the library function outside the log of the implementation
        save = LOG[:]
        del LOG[:]
        try:
            r = f(*v.rets, **v.kwrets) if multi and isinstance(v, Values) else f(v)
        finally:
            wlog.extend(LOG)
            LOG[:] = save
        return r
    for op, k, kind in hist:
        if nodes[k] is None:
            if op == "ext":
                nodes.append(None)
                real.append(None)
            continue
        if op == "ext":
            f = mk(len(fn), kind)
            fn.append(f)
            if lazy:
                real.append(real[k] | f)
                nodes.append((nodes[k][0] + [f], nodes[k][1]))
            else:
                try:
                    v = app(f, nodes[k][1])
                    nodes.append(([], v))
                except X:
                    nodes.append(None)
                try:
                    real.append(real[k] | f)
                    mc.check(nodes[-1] is not None, "exception lost in pipe")
                except X:
                    real.append(None)
                    mc.check(nodes[-1] is None, "unexpected exception in pipe")
        else:
            def hand():
                v = nodes[k][1]
                for f in nodes[k][0]:
                    v = app(f, v)
                return unwrap(v) if multi else v
            try:
                want = ("ok", desc(hand()))
            except X as e:
                want = ("exc", e.args)
            try:
                got = ("ok", desc(real[k] | exitpipe))
            except X as e:
                got = ("exc", e.args)
            mc.check(got == want, lambda: f"{cls} {hist}: {got} != {want}")
        mc.step()
        mc.check(LOG == wlog, lambda: f"{cls} {hist}: calls {LOG}, expected {wlog}")
    mc.state((cls, str(LOG)))

# ---- curried composition: surplus passes through to the next function
CSIG = ["a", "a, b", "", "a, b='db'", "a, *, z='dz'", "*args"]
CRET = {"plain": lambda d: ("r", d), "two": lambda d: Values(("r", d), "second"), "kw": lambda d: Values(("r", d), z="nz")}
_sp = {}
def cspec(i, s, r):
    if (i, s, r) not in _sp:
        _sp[(i, s, r)] = Spec(s, (lambda d: CRET[r]((i, d))), (i, s, r))
    return _sp[(i, s, r)]

def cc_gen(tier):
    one = [(s, r) for s in CSIG for r in CRET]
    for a in one:
        for b in one:
            yield [[a, b]]
    three = [(s, r) for s in CSIG[:4] for r in ("plain", "two")] if tier == "quick" else one
    for t in itertools.product(three, repeat=3):
        yield [t]

def cc_run(case):
    (specs,) = case
    sp = [cspec(i, s, r) for i, (s, r) in enumerate(specs)]
    for nargs in range(0, 5):
        for kw in ({}, {"z": "kz"}):
            args = tuple(f"v{i}" for i in range(nargs))
            def hand():
                v = Values(*args, **kw)
                for i, s in enumerate(sp):
                    a, k = (v.rets, dict(v.kwrets)) if isinstance(v, Values) else ((v,), {})
                    v = apply_model(s, tuple(a), k, i < len(sp) - 1)
                    if isinstance(v, Pending):
                        return v
                return v
            try:
                want = hand()
            except ModelTypeError:
                want = "TypeError"
            if isinstance(want, Pending):
                # a function short of arguments in mid-chain becomes the value that is passed on: not covered here;
                # at the end of the chain it is the (curried) result
                if want.spec is not sp[-1]:
                    continue
            fs = [s.f for s in sp]
            for name, form in {"composelc": lambda: composelc(*fs)(*args, **kw), "composerc": lambda: composerc(*reversed(fs))(*args, **kw), "composelci": lambda: composelci(iter(fs))(*args, **kw),
                               "composerci": lambda: composerci(reversed(fs))(*args, **kw), "pipec": lambda: pipec(Values(*args, **kw), *fs)}.items():
                got = mc.outcome(form)
                mc.step()
                if isinstance(want, Pending):
                    mc.check(got[0] == "ok" and iscurried(got[1]), lambda: f"{name} {specs} on {args} {kw}: {got}, expected a pending function")
                elif want == "TypeError":
                    mc.eq(got, ("exc", "TypeError"), f"{name} {specs} on {args} {kw}")
                else:
                    w = unwrap(want) if name == "pipec" else want
                    mc.check(got[0] == "ok" and desc(got[1]) == desc(w), lambda: f"{name} {specs} on {args} {kw}: {got}, expected {w}")
            mc.trace()
    mc.state(case)

# ---- defining equations
def eq_gen(tier):
    for n in range(0, 6):
        for kw in ({}, {"k": 1}, {"k": 1, "m": 2}):
            for what in ("flip", "rotate", "tokth", "to", "apply", "ident", "bool", "call", "valuify", "withself"):
                yield [what, n, kw]

def eq_run(case):
    what, n, kw = case
    args = tuple(range(10, 10 + n))
    rec = lambda *a, **k: (a, tuple(sorted(k.items())))
    K = tuple(sorted(kw.items()))
    tag = lambda x: ("t", x)
    if what == "flip":
        mc.eq(flip(rec)(*args, **kw), (args[::-1], K), "flip")
        mc.eq(flip(flip(rec))(*args, **kw), (args, K), "flip twice")
    elif what == "rotate":
        for k in range(-6, 7):
            got = mc.outcome(lambda: rotate(k)(rec)(*args, **kw))
            if n == 0:
                mc.eq(got, ("exc", "TypeError"), "rotate, no arguments")
            elif not -n < k < n:
                mc.eq(got, ("exc", "IndexError"), "rotate out of range")
            else:
                mc.eq(got, ("ok", (tuple(args[(i + k) % n] for i in range(n)), K)), f"rotate {k}")
                mc.eq(rotate(-k)(rotate(k)(rec))(*args, **kw), (args, K), "rotate back")
            mc.step()
    elif what == "tokth":
        for k in range(-6, 7):
            got = mc.outcome(lambda: tokth(k, tag)(*args, **kw))
            if n == 0:
                mc.eq(got, ("exc", "TypeError"), "tokth, no arguments")
            elif not -n < k < n:
                mc.eq(got, ("exc", "IndexError"), "tokth out of range")
            else:
                mc.check(got[0] == "ok" and isinstance(got[1], Values), lambda: f"tokth {got}")
                w = list(args)
                w[k] = tag(w[k])
                mc.eq((got[1].rets, dict(got[1].kwrets)), (tuple(w), kw), f"tokth {k}")
            mc.step()
        for g, k in ((to1st, 0), (to2nd, 1), (tolast, -1)):
            a, b = mc.outcome(lambda: g(tag)(*args, **kw)), mc.outcome(lambda: tokth(k, tag)(*args, **kw))
            mc.check(a == b, f"{g.__name__}: {a} {b}")
    elif what == "to":
        for ks in itertools.product(range(-2, 3), repeat=3):
            fs = [(k, (lambda j: lambda x: (j, x))(i)) for i, k in enumerate(ks)]
            got = mc.outcome(lambda: to(*fs)(*args, **kw))
            w = list(args)
            bad = None
            for k, f in fs:
                if n == 0:
                    bad = "TypeError"
                    break
                if not -n < k < n:
                    bad = "IndexError"
                    break
                w[k] = f(w[k])
            if bad:
                mc.eq(got, ("exc", bad), f"to {ks}")
            else:
                mc.eq((got[1].rets, dict(got[1].kwrets)), (tuple(w), kw), f"to {ks}")
            mc.step()
    elif what == "apply":
        for cut in range(n + 1):
            for seq in (list, tuple, iter):
                mc.eq(apply(rec, *args[:cut], seq(args[cut:]), **kw), (args, K), "apply")
                mc.step()
    elif what == "ident":
        got = identity(*args, **kw)
        gotc = const(*args, **kw)
        for g in (got, gotc("ignored", x=1), gotc()):
            if n == 0 and not kw:
                mc.check(g is None, "identity of nothing")
            elif n == 1 and not kw:
                mc.check(g is args[0], "identity of one")
            else:
                mc.check(isinstance(g, Values) and g.rets == args and dict(g.kwrets) == kw, lambda: f"identity {g}")
            mc.step()
        mc.check(gotc() is gotc(1), "const returns the same object")
    elif what == "bool":
        vals = [0, "", None, 1, "t", [2]]
        for vs in itertools.product(vals, repeat=n if n <= 3 else 2):
            log = []
            def p(i, v):
                def f(*a, **k):
                    log.append((i, a, tuple(sorted(k.items()))))
                    return v
                return f
            fs = [p(i, v) for i, v in enumerate(vs)]
            upto = next((i for i, v in enumerate(vs) if not v), len(vs) - 1)
            got = andf(*fs)("x", y=1)
            w = vs[-1] if vs and all(vs) else (True if not vs else False)
            mc.check(got is w or got == w, lambda: f"andf{vs} -> {got!r}")
            mc.check(log == [(i, ("x",), (("y", 1),)) for i in range(upto + 1)], lambda: f"andf{vs} calls {log}")
            log.clear()
            upto = next((i for i, v in enumerate(vs) if v), len(vs) - 1)
            got = orf(*fs)("x", y=1)
            w = vs[upto] if any(vs) else False
            mc.check(got is w or got == w, lambda: f"orf{vs} -> {got!r}")
            mc.check(log == [(i, ("x",), (("y", 1),)) for i in range(upto + 1)], lambda: f"orf{vs} calls {log}")
            mc.step(2)
        for v in vals:
            mc.check(notf(lambda *a, **k: v)(*args, **kw) is (not v), "notf")
        mc.eq(notf(lambda *a, **k: (a, k) != (args, kw))(*args, **kw), True, "notf passes arguments")
    elif what == "call":
        mc.eq(call(rec, *args, **kw), (args, K), "call")
        mc.eq(callwith(*args, **kw)(rec), (args, K), "callwith")
        mc.eq([callwith(*args, **kw)(f) for f in (rec, rec)], [(args, K)] * 2, "callwith reuse")
        v = Values(*args, **kw)
        mc.eq((v.rets, dict(v.kwrets), list(v.keys()), [v[i] for i in range(n)], [v[k] for k in kw]), (args, kw, list(kw), list(args), list(kw.values())), "Values")
        if not kw:
            mc.eq(tuple(v), args, "unpack Values")
        else:
            mc.eq(mc.outcome(lambda: tuple(v)), ("exc", "ValueError"), "unpack Values with names")
        mc.check(v == Values(*args, **kw) and v != Values(*args, zz=1, **kw) and v != args, "Values equality")
        mc.check(v != Values(*args, "more", **kw) and not (v != Values(*args, **kw)), "Values equality")
    elif what == "valuify":
        for r in (args, list(args), None, 5, Values(*args)):
            g = valuify(lambda *a, **k: (LOG.append((a, k)), r)[1])(*args, **kw)
            w = Values(*r) if type(r) is tuple else r
            mc.check(desc(g) == desc(w), lambda: f"valuify {g}")
            mc.step()
    else:
        f = withself(lambda self, *a, **k: (self, a, k))
        mc.eq(f(*args, **kw), (f, args, kw), "withself")
    mc.step()
    mc.state(case)

SPACES = [
    mc.Space("compose", comp_gen, comp_run, "all sequences of 1..3 (4) of 13 function kinds x 6 argument lists x 6 composition forms, one-argument forms and pipes"),
    mc.Space("pipe", pipe_gen, pipe_run, "all sequences of 0..3 (4) functions x 6 initial values x 4 pipe forms"),
    mc.Space("pipe-histories", tree_gen, tree_run, "all histories of <=4 (5) extend/run operations on families of pipe objects, 4 classes"),
    mc.Space("curried", cc_gen, cc_run, "2-chains over 6 signatures x 3 results, 3-chains over 4 x 2 (thorough: all), <=4 positional and a named argument, 5 forms"),
    mc.Space("equations", eq_gen, eq_run, "arity 0..5, all rotations/indices in -6..6, all truth vectors"),
]
