"""F01: curry. All signature shapes x all argument lists x all splits into steps, vs. Python's own binding rules."""
from lib import mc
import functools, inspect, itertools
from unpythonic import curry, Values, dyn, arities, arity_includes, required_kwargs, optional_kwargs, UnknownArity
from unpythonic.fun import iscurried

class Spec:
    """a function known to both sides: parameter list text, and what it returns (a value description)"""
    def __init__(self, sig, ret, tag):
        self.sig, self.ret, self.tag = sig, ret, tag
        names = [p.name for p in inspect.signature(eval(f"lambda {sig}: 0")).parameters.values()]
        ns = {"RET": ret, "_norm": norm}
        exec(f"def f({sig}):\n    return RET(_norm({', '.join(f'{n}={n}' for n in names)}))\n", ns)
        self.f = ns["f"]
        self.f.spec = self
        self.s = inspect.signature(self.f)
    # -- model --
    def bind(self, args, kwargs):
        """-> 'TypeError' | (missing?, extra args, extra kwargs, bound args, bound kwargs)"""
        P = list(self.s.parameters.values())
        pos = [p for p in P if p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD)]
        star = any(p.kind == p.VAR_POSITIONAL for p in P)
        kwonly = [p for p in P if p.kind == p.KEYWORD_ONLY]
        starkw = any(p.kind == p.VAR_KEYWORD for p in P)
        taken = pos[:len(args)]
        for p in taken:
            if p.kind == p.POSITIONAL_OR_KEYWORD and p.name in kwargs:
                return "TypeError"
        extra = () if star else args[len(pos):]
        nowargs = args if star else args[:len(pos)]
        missing = False
        for p in pos[len(args):]:
            if p.kind == p.POSITIONAL_ONLY:
                if p.name in kwargs and not starkw:
                    return "TypeError"
                if p.default is p.empty:
                    missing = True
            elif p.name not in kwargs and p.default is p.empty:
                missing = True
        for p in kwonly:
            if p.name not in kwargs and p.default is p.empty:
                missing = True
        if starkw:
            exkw = {}
        else:
            known = {p.name for p in pos if p.kind == p.POSITIONAL_OR_KEYWORD} | {p.name for p in kwonly}
            exkw = {k: v for k, v in kwargs.items() if k not in known}
        return missing, extra, exkw, nowargs, {k: v for k, v in kwargs.items() if k not in exkw}

def norm(**kw):
    return tuple((k, tuple(sorted(v.items())) if isinstance(v, dict) else v) for k, v in kw.items())

class Pending:
    """a function waiting for more arguments"""
    def __init__(self, spec, args, kwargs):
        self.spec, self.args, self.kwargs = spec, args, kwargs

class ModelTypeError(Exception):
    pass

def apply_model(spec, args, kwargs, ctx):
    """one application of curry(spec.f) to all collected arguments, -> value | Pending"""
    b = spec.bind(args, kwargs)
    if b == "TypeError":
        raise ModelTypeError
    missing, extra, exkw, a, k = b
    if missing:
        return Pending(spec, args, kwargs)
    r = spec.f(*a, **k)
    if not extra and not exkw:
        return r
    later, laterkw = tuple(extra), dict(exkw)
    if isinstance(r, Values):
        rets = r.rets
        laterkw.update(r.kwrets)
        if rets and callable(rets[0]):
            return through(rets[0], tuple(rets[1:]) + later, laterkw, ctx)
        later = tuple(rets) + later
    elif callable(r):
        return through(r, later, laterkw, ctx)
    else:
        later = (r,) + later
    if not ctx:
        raise ModelTypeError
    return Values(*later, **laterkw)

def through(g, args, kwargs, ctx):
    r = apply_model(g.spec, args, kwargs, ctx)
    return r

G1 = Spec("x", lambda d: ("g1", d), "g1")
G2 = Spec("x, y", lambda d: ("g2", d), "g2")
G0 = Spec("", lambda d: ("g0", d), "g0")
GK = Spec("*xs, z=0", lambda d: ("gk", d), "gk")
GG = Spec("x", lambda d: G1.f, "gg")          # returns another function
GC = Spec("x, y", lambda d: ("gc", d), "gc")
GC.curried = curry(GC.f)
GC.curried.spec = GC
RETS = {
    "plain": lambda d: ("f", d),
    "none": lambda d: None,
    "g1": lambda d: G1.f, "g2": lambda d: G2.f, "g0": lambda d: G0.f, "gk": lambda d: GK.f, "gg": lambda d: GG.f, "gc": lambda d: GC.curried,
    "vals": lambda d: Values(("f", d), "second"),
    "valsfn": lambda d: Values(G2.f, "second"),
    "valskw": lambda d: Values(("f", d), z="zz"),
    "valskwonly": lambda d: Values(z="zz"),
    "valsfnkw": lambda d: Values(GK.f, z="zz"),
    "list": lambda d: ["f", d],
}
_specs = {}
def spec(sig, ret):
    key = (sig, ret)
    if key not in _specs:
        _specs[key] = Spec(sig, RETS[ret], key)
    return _specs[key]

def describe(r):
    if isinstance(r, Values):
        return ("Values", tuple(map(describe, r.rets)), tuple((k, describe(v)) for k, v in sorted(r.kwrets.items())))
    if callable(r):
        return ("callable", r.spec.tag if hasattr(r, "spec") and not isinstance(r, functools.partial) else "?")
    return ("value", repr(r))

def sigs(tier):
    """all signature shapes"""
    out = []
    for po in (0, 1) if tier == "quick" else (0, 1, 2):
        for pk in (0, 1, 2):
            names = ["p", "q"][:po] + ["a", "b"][:pk]
            for d in range(0, po + pk + 1):
                if d > 2:
                    continue
                ps = [n + (f"='d{n}'" if i >= po + pk - d else "") for i, n in enumerate(names)]
                if po:
                    ps.insert(po, "/")
                for star in (0, 1):
                    for kreq in (0, 1):
                        for kopt in (0, 1):
                            for skw in (0, 1):
                                l = list(ps)
                                if star:
                                    l.append("*args")
                                elif kreq or kopt:
                                    l.append("*")
                                if kreq:
                                    l.append("k")
                                if kopt:
                                    l.append("m='dm'")
                                if skw:
                                    l.append("**kw")
                                out.append(", ".join(l))
    return out

def splits(npos, kws, nsteps):
    """all ways to distribute npos positional (in order) and the named arguments over nsteps steps"""
    for cuts in itertools.combinations_with_replacement(range(npos + 1), nsteps - 1):
        bounds = (0,) + cuts + (npos,)
        for where in itertools.product(range(nsteps), repeat=len(kws)):
            yield [[list(range(bounds[i], bounds[i + 1])), [k for k, w in zip(kws, where) if w == i]] for i in range(nsteps)]

def gen(tier):
    names = ["p", "a", "b", "k", "m", "z"]
    for sig in sigs(tier):
        kmax = 2 if tier == "quick" else 3
        for npos in range(0, 4 if tier == "quick" else 5):
            for r in range(kmax + 1):
                for kws in itertools.combinations(names, r):
                    yield [sig, npos, kws, 2 if tier == "quick" or len(kws) > 2 else 3]

def real_steps(f, steps, first):
    """apply the steps; stop when the result is no longer a pending curried function"""
    c = None
    for i, (pos, kws) in enumerate(steps):
        args = tuple(f"v{j}" for j in pos)
        kw = {k: "n" + k for k in kws}
        if i == 0:
            if first == "direct" and (args or kw):
                c = curry(f, *args, **kw)
            else:
                c = curry(f)(*args, **kw)
        else:
            c = c(*args, **kw)
        yield c

def compare(sp, steps, ctx, first):
    state = Pending(sp, (), {})
    it = real_steps(sp.f, steps, first)
    for n, (pos, kws) in enumerate(steps):
        try:
            want = apply_model(state.spec, state.args + tuple(f"v{j}" for j in pos), {**state.kwargs, **{k: "n" + k for k in kws}}, ctx)
        except ModelTypeError:
            want = "TypeError"
        try:
            got = next(it)
        except TypeError as e:
            mc.check(want == "TypeError", lambda: f"({sp.sig}) steps {steps[:n + 1]}: TypeError {e}; expected {want}")
            mc.step()
            return "TypeError"
        mc.step()
        if want == "TypeError":
            raise mc.Violation(f"({sp.sig}) returning {sp.tag[1]}, steps {steps[:n + 1]}: got {got!r}, expected TypeError")
        if isinstance(want, Pending):
            state = want
            mc.check(iscurried(got) and not hasattr(got, "spec_done"), lambda: f"({sp.sig}) steps {steps[:n + 1]}: got {got!r}, expected to wait for more arguments")
            continue
        if callable(want) and not isinstance(want, Values):
            mc.check(describe(got) == describe(want), lambda: f"({sp.sig}) steps {steps}: {got!r} != {want!r}")
            return "callable"
        mc.check(not callable(got) or isinstance(got, Values), lambda: f"({sp.sig}) steps {steps[:n + 1]}: still waiting, expected {want!r}")
        mc.check(describe(got) == describe(want), lambda: f"({sp.sig}) returning {sp.tag[1]} steps {steps[:n + 1]} ctx={ctx}: {describe(got)} != {describe(want)}")
        return repr(describe(got))
    return "incomplete"

def run(case):
    sig, npos, kws, nsteps = case
    for ns in range(1, nsteps + 1):
        for steps in splits(npos, kws, ns):
            sp = spec(sig, "plain")
            for first in ("method", "direct"):
                mc.state((sig, compare(sp, steps, False, first)))
                mc.trace()

def ret_gen(tier):
    """surplus arguments and all kinds of results, at top level and inside another curry context"""
    ss = ["a", "a, b", "", "a, b='db'", "a, *, k", "a, *, k, m='dm'", "a, /, b", "*, k", "a='da'", "a, **kw", "a, *args"]
    if tier != "quick":
        ss = sigs("quick")
    for sig in ss:
        for ret in RETS:
            for npos in range(0, 6):
                for r in range(0, 3):
                    for kws in itertools.combinations(["k", "z", "y"] if tier == "quick" else ["k", "z", "y", "m", "b"], r):
                        yield [sig, ret, npos, kws]

def ret_run(case):
    sig, ret, npos, kws = case
    sp = spec(sig, ret)
    for ctx in (False, True):
        for ns in (1, 2, 3):
            for steps in splits(npos, kws, ns):
                if ctx:
                    with dyn.let(curry_context=["outer"]):
                        r = compare(sp, steps, True, "method")
                else:
                    r = compare(sp, steps, False, "direct")
                mc.state((ret, r))
                mc.trace()

# ---- other callables: bound methods, class methods, classes, partials, callable objects, lambdas, builtins
def kinds_gen(tier):
    for kind in ("method", "classmethod", "staticmethod", "class", "partial", "partialkw", "callable", "curried", "curried-partial", "unbound"):
        for npos in range(0, 4):
            for r in range(0, 3):
                for kws in itertools.combinations(["a", "b", "k"], r):
                    yield [kind, npos, kws]

def kinds_run(case):
    kind, npos, kws = case
    class C:
        def __init__(self, a, b, *, k="dk"):
            self.v = (a, b, k)
        def m(self, a, b, *, k="dk"):
            return (a, b, k)
        @classmethod
        def cm(cls, a, b, *, k="dk"):
            return (a, b, k)
        @staticmethod
        def sm(a, b, *, k="dk"):
            return (a, b, k)
    class O:
        def __call__(self, a, b, *, k="dk"):
            return (a, b, k)
    def f(a, b, *, k="dk"):
        return (a, b, k)
    f4 = lambda x, a, b, *, k="dk": (a, b, k)
    f5 = lambda a, b, *, y, k="dk": (a, b, k)
    o = C(1, 2)
    target = {"method": o.m, "classmethod": C.cm, "staticmethod": o.sm, "class": C, "partial": functools.partial(f4, "X"), "partialkw": functools.partial(f5, y=1), "callable": O(),
              "curried": curry(f), "curried-partial": curry(f4, "X"), "unbound": functools.partial(C.m, o)}[kind]
    sp = Spec("a, b, *, k='dk'", lambda d: tuple(v for _, v in d), ("kinds", kind))
    for ns in (1, 2, 3):
        for steps in splits(npos, kws, ns):
            allargs, allkw = (), {}
            it = real_steps(target, steps, "method" if kind != "curried" else "direct")
            for n, (pos, ks) in enumerate(steps):
                allargs += tuple(f"v{j}" for j in pos)
                allkw.update({k: "n" + k for k in ks})
                try:
                    want = apply_model(sp, allargs, allkw, False)
                except ModelTypeError:
                    want = "TypeError"
                got = mc.outcome(lambda: next(it))
                mc.step()
                if want == "TypeError":
                    mc.eq(got, ("exc", "TypeError"), f"{kind} {steps}")
                    break
                mc.check(got[0] == "ok", lambda: f"{kind} {steps}: {got}, expected {want}")
                got = got[1]
                if isinstance(want, Pending):
                    mc.check(iscurried(got), lambda: f"{kind} {steps}: {got!r}, expected to wait")
                    continue
                mc.check(not iscurried(got), lambda: f"{kind} {steps}: still waiting, expected {want}")
                mc.eq(got.v if kind == "class" else got, want, f"{kind} {steps}")
                break
            mc.trace()
    mc.state(case)

# ---- annotated functions: pending steps are type-checked, complete calls are not affected
TSIGS = ["a: int, b: str, c: int", "a: int, b: str, c: int, d: str, e: int", "a: int, b, c: int", "a, *, b: str, c: int", "a: object, b: object, c: object, d: object", "a: int, b: str = 'db', *, c: int"]
TYPES = {"int": int, "str": str, "object": object}
def typed_gen(tier):
    for sig in TSIGS:
        P = list(inspect.signature(eval("lambda " + __import__("re").sub(r": \w+", "", sig) + ": 0")).parameters.values())
        npos = sum(p.kind == p.POSITIONAL_OR_KEYWORD for p in P)
        ko = [p.name for p in P if p.kind == p.KEYWORD_ONLY]
        for named in range(0, npos + 1):
            kws = [p.name for p in P[npos - named:npos]] + ko
            for bad in [None] + [p.name for p in P]:
                for ns in ((1, 2, 3) if len(P) < 5 or tier != "quick" else (1, 2)):
                    yield [sig, npos - named, kws, bad, ns]

def typed_run(case):
    sig, npos, kws, bad, ns = case
    log = []
    d = {}
    exec(f"def f({sig}):\n    return tuple(sorted(locals().items()))\n", d)
    f = d["f"]
    P = list(inspect.signature(f).parameters.values())
    ann = {p.name: p.annotation for p in P if p.annotation is not p.empty}
    def val(name):
        t = ann.get(name, int)
        v = f"s{name}" if t is str else 100 + ord(name)
        return (("w" + name) if not isinstance(v, str) else 55) if name == bad else v
    for steps in splits(npos, kws, ns):
        given = {}
        c = curry(f)
        for n, (pos, ks) in enumerate(steps):
            names = [P[j].name for j in pos] + list(ks)
            for k in names:
                given[k] = val(k)
            complete = all(p.name in given or p.default is not p.empty for p in P)
            wrong = any(not isinstance(v, ann.get(k, object)) for k, v in given.items())
            got = mc.outcome(lambda: c(*[val(P[j].name) for j in pos], **{k: val(k) for k in ks}))
            mc.step()
            if complete:
                mc.eq(got, ("ok", f(**given)), f"({sig}) {steps} bad={bad}")
                break
            if wrong:
                mc.eq(got, ("exc", "TypeError"), f"({sig}) {steps} bad={bad}: step {n}")
                break
            mc.check(got[0] == "ok" and iscurried(got[1]), lambda: f"({sig}) {steps[:n + 1]} bad={bad}: {got}, expected to wait")
            c = got[1]
        mc.trace()
    mc.state(case)

# ---- independence: pending partial applications do not influence one another
def share_gen(tier):
    ops = ["f1", "f2", "g1", "g2", "h1", "h2"]
    for h in itertools.permutations(ops, 4 if tier == "quick" else 6):
        yield [h]

def share_run(case):
    (h,) = case
    log = []
    @curry
    def f(a, b, c):
        log.append((a, b, c))
        return (a, b, c)
    p1, p2 = f(1), f(2)
    q = p1("x")
    for op in h:
        fn = {"f": p1, "g": p2, "h": q}[op[0]]
        x = op + "!"
        if op[0] == "h":
            mc.eq(fn(x), (1, "x", x), "shared partial")
        elif op[1] == "1":
            mc.eq(fn(x, 0), (1 if op[0] == "f" else 2, x, 0), "shared partial")
        else:
            mc.eq(fn(c=x)(5), (1 if op[0] == "f" else 2, 5, x), "shared partial")
        mc.step()
    mc.eq(len(log), len(h), "calls of the function")
    mc.state(h)

# ---- arity inspection
def ar_gen(tier):
    for s in sigs("thorough"):
        for kind in ("function", "method", "classmethod", "lambda"):
            yield [s, kind]

def ar_run(case):
    s, kind = case
    sp = spec(s, "plain")
    P = list(sp.s.parameters.values())
    pos = [p for p in P if p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD)]
    lo = sum(p.default is p.empty for p in pos)
    hi = float("inf") if any(p.kind == p.VAR_POSITIONAL for p in P) else len(pos)
    f = sp.f
    if kind in ("method", "classmethod"):
        ns = {}
        exec(f"class C:\n    def m(self_, {s}): pass\n    @classmethod\n    def c(cls_, {s}): pass\n" if not s.startswith("*, ") or True else "", ns) if True else None
        f = ns["C"]().m if kind == "method" else ns["C"].c
    elif kind == "lambda":
        f = eval(f"lambda {s}: 0")
    mc.eq(arities(f), (lo, hi), f"arities of {kind} ({s})")
    for n in range(0, 6):
        mc.eq(arity_includes(f, n), lo <= n <= hi, "arity_includes")
    ko = [p for p in P if p.kind == p.KEYWORD_ONLY]
    mc.eq(set(required_kwargs(f)), {p.name for p in ko if p.default is p.empty}, "required_kwargs")
    mc.eq(set(optional_kwargs(f)), {p.name for p in ko if p.default is not p.empty}, "optional_kwargs")
    mc.step()
    mc.state(case)

SPACES = [
    mc.Space("splits", gen, run, "all signature shapes of <=1 (2) positional-only + <=2 positional parameters, <=2 defaults, *args, required/optional keyword-only, **kw; <=3 (4) positional and <=2 (3) named arguments out of 6 names; every split into <=2 (3) steps; curry(f)(..) and curry(f, ..)"),
    mc.Space("results", ret_gen, ret_run, "11 signatures (thorough: all) x 14 kinds of result (values, functions, curried functions, multiple values) x <=5 positional, <=2 named, every split into <=3 steps, top-level and nested context"),
    mc.Space("kinds", kinds_gen, kinds_run, "10 kinds of callables, every split into <=3 steps"),
    mc.Space("typed", typed_gen, typed_run, "6 annotated signatures, every split into <=3 steps, every single mismatching argument"),
    mc.Space("sharing", share_gen, share_run, "all orders of 4 (6) uses of shared pending partials"),
    mc.Space("arity", ar_gen, ar_run, "arities/required/optional keyword inspection of all signature shapes x 4 kinds"),
]
