"""F03: multiple dispatch. All registration histories x all argument lists, vs. a reference dispatcher."""
from lib import mc
import inspect, itertools, types, typing as t
from unpythonic import generic, augment, typed, isgeneric, curry
from unpythonic.dispatch import list_methods
from unpythonic.fun import iscurried
from checks.f04 import mem, build, Base, Derived
from checks.f01 import Spec

# annotations usable in parameter lists: name -> type expression of f04
TY = {"int": "int", "str": "str", "float": "float", "bool": "bool", "obj": "object", "Any": "Any", "Base": "Base", "Derived": "Derived",
      "IS": ["Union", "int", "str"], "LI": ["List", "int"], "VI": ["TupleOf", "int"], "VS": ["TupleOf", "str"], "VIS": ["Tuple", "int", "str"], "KI": ["Dict", "str", "int"], "KA": ["Dict", "str", "Any"], "list": "list"}
NS = {k: build(v) for k, v in TY.items()}
SIGS = ["x: int", "x: str", "x: Any", "x: Base", "x: Derived", "x: IS, /", "x: bool", "", "x: int, y: int", "x: str, y: int = 3", "y: int, x: str", "*args: VI", "*args: VIS", "x: int, *args: VS", "**kw: KI", "x: int, *, k: str",
        "x: IS, *, k: str = 'd'", "x: Any, y: Any", "x: LI", "x: list"]
CORE = ["x: int", "x: IS", "x: Any", "x: Base", "x: int, y: int = 3", "y: int, x: str", "*args: VI", "x: int, *, k: str = 'd'"]
MORE = ["a: int, b: str = 'q', *args: VI", "x: int, **kw: KA", "x: float", "x: int, /, y: str", "*, x: int"]

_n = itertools.count()
def define(name, sig, tag, module):
    ns = dict(NS)
    ns["__name__"] = module
    names = [p.name for p in inspect.signature(eval(f"lambda {unann(sig)}: 0", dict(NS))).parameters.values()]
    exec(f"def {name}({sig}):\n    return ({tag!r}, {{{', '.join(f'{n!r}: {n}' for n in names)}}})\n", ns)
    return ns[name]

_ua = {}
def unann(sig):
    if sig not in _ua:
        ns = dict(NS)
        exec(f"def f({sig}): pass", ns)
        s = inspect.signature(ns["f"])
        s = s.replace(parameters=[p.replace(annotation=p.empty) for p in s.parameters.values()])
        _ua[sig] = str(s)[1:-1]
    return _ua[sig]

_sig = {}
def sigof(sig):
    if sig not in _sig:
        ns = {}
        exec(f"def f({unann(sig)}): pass", ns)
        ann = {}
        ns2 = {k: k for k in TY}
        exec(f"def f({sig}): pass", ns2)
        for k, v in ns2["f"].__annotations__.items():
            ann[k] = TY[v]
        _sig[sig] = (inspect.signature(ns["f"]), ann)
    return _sig[sig]

def accepts(sig, args, kwargs):
    """-> None | the bound arguments"""
    s, ann = sigof(sig)
    try:
        b = s.bind(*args, **kwargs)
    except TypeError:
        return None
    b.apply_defaults()
    for n, v in b.arguments.items():
        if n in ann and not mem(v, ann[n]):
            return None
    return dict(b.arguments)

def reference(methods, args, kwargs):
    """methods: most recent last -> (tag, bindings) | None"""
    for tag, sig in reversed(methods):
        b = accepts(sig, args, kwargs)
        if b is not None:
            return (tag, b)
    return None

d = Derived()
def arglists(small=False):
    V = [1, "a", 1.5, d, True]
    pos = [()] + [(v,) for v in V + [[1], []]] + list(itertools.product(V, repeat=2)) + list(itertools.product((1, "a"), repeat=3))
    if small:
        pos = [(), (1,), ("a",), (d,), (True,), (1, 1), (1, "a"), ("a", 1), (1, 1, 1)]
    kws = [{}, {"x": 1}, {"x": "a"}, {"y": 1}, {"k": "a"}, {"k": 1}, {"z": 1}, {"x": "a", "y": 1}, {"y": 1, "k": "s"}, {"x": 1, "k": "s"}]
    for p in pos:
        for k in kws:
            if len(p) + len(k) <= 3:
                yield p, k
ARGS, SARGS = list(arglists()), list(arglists(True))

def call(f, args, kwargs):
    try:
        return ("ok", f(*args, **kwargs))
    except TypeError as e:
        return ("exc", "TypeError")

def compare(f, methods, args, kwargs, what):
    want = reference(methods, args, kwargs)
    want = ("exc", "TypeError") if want is None else ("ok", want)
    got = call(f, args, kwargs)
    mc.step()
    mc.check(got == want, lambda: f"{what}, multimethods {methods}, call {args} {kwargs}: {got}, expected {want}")

def fn_gen(tier):
    al = SIGS if tier == "quick" else SIGS + MORE
    for a in al:
        yield [[a], ["g"]]
        for b in al:
            for form in "ga":
                yield [[a, b], ["g", form]]
    for h in itertools.product(CORE if tier == "quick" else CORE + SIGS[7:8] + SIGS[14:16], repeat=3):
        for forms in (["g", "g", "a"], ["g", "a", "g"]):
            yield [h, forms]
    if tier != "quick":
        for h in itertools.product(CORE, repeat=4):
            yield [h, ["g", "a", "g", "a"]]

def fn_run(case):
    sigs, forms = case
    u = next(_n)
    mod = f"mcmod{u}"
    methods = []
    # another generic function of the same name in another module must stay untouched
    other = generic(define("f", "x: str, y: str", "other", mod + "x"))
    f = None
    fns = []
    for i, (s, form) in enumerate(zip(sigs, forms)):
        if form == "g":
            fn = define("f", s, i, mod)
            r = generic(fn)
        else:
            fn = define(f"aug{i}", s, i, mod + "y")
            r = augment(f)(fn)
        mc.check(f is None or r is f, "registering a multimethod does not give the same generic function")
        f = r
        fns.append(fn)
        methods.append((i, s))
        mc.check(isgeneric(f) == "generic", "isgeneric")
        for args, kwargs in (ARGS if i == len(sigs) - 1 else SARGS):
            compare(f, methods, args, kwargs, f"{form}")
        mc.check([m for m, _ in list_methods(f)] == fns[::-1], "list_methods: order")
    compare(other, [("other", "x: str, y: str")], ("a", "b"), {}, "other")
    compare(other, [("other", "x: str, y: str")], (1,), {}, "other")
    mc.state((str(sigs), str(forms)))

# ---- typed
def ty_gen(tier):
    for s in SIGS + MORE + CORE:
        yield [s]

def ty_run(case):
    (s,) = case
    u = next(_n)
    f = typed(define("f", s, "m", f"mcmod{u}"))
    mc.check(isgeneric(f) == "typed", "isgeneric of typed")
    for args, kwargs in ARGS:
        compare(f, [("m", s)], args, kwargs, "typed")
    mc.eq(call(lambda: augment(f)(define("g", "q: int", "no", f"mcmod{u}")), (), {}), ("exc", "TypeError"), "augmenting a typed function")
    mc.eq(call(lambda: augment(len)(define("g", "q: int", "no", f"mcmod{u}")), (), {}), ("exc", "TypeError"), "augmenting a regular function")
    for args, kwargs in SARGS:
        compare(f, [("m", s)], args, kwargs, "typed after failed augment")
    mc.eq(call(lambda: generic(define("h", unann(s) or "q", "no", f"mcmod{u}")), (), {}), ("exc", "TypeError"), "missing annotation")
    mc.state(s)

# ---- methods of classes
SHAPES = {
    "chain": [("A", ""), ("B", "A"), ("C", "B"), ("D", "C")],
    "diamond": [("A", ""), ("B", "A"), ("C", "A"), ("D", "B, C")],
    "siblings": [("A", ""), ("B", ""), ("C", "A, B"), ("D", "C, A")],
}
DEFS = [(), ("int",), ("str",), ("Any",), ("str", "int"), ("Any", "int"), ("int", "Any")]
def oo_gen(tier):
    per = {"quick": DEFS[:4], "thorough": DEFS}[tier]
    for shape in SHAPES:
        for defs in itertools.product(per, repeat=4):
            if not any(defs):
                continue
            for kind in ("inst", "cls", "falsy", "static"):
                for sup in (False, True):
                    if kind == "static" and sup:
                        continue
                    yield [shape, defs, kind, sup]
        if tier == "quick":
            # several multimethods in one class
            for k in range(4):
                for dd in DEFS[4:]:
                    for rest in itertools.product(DEFS[:4], repeat=2):
                        defs = [(), (), (), ()]
                        defs[k] = dd
                        others = [j for j in range(4) if j != k][-2:]
                        for j, r in zip(others, rest):
                            defs[j] = r
                        yield [shape, defs, "inst", False]

def oo_run(case):
    shape, defs, kind, sup = case
    u = next(_n)
    ns = {"generic": generic, "Any": t.Any, "__name__": f"mcmod{u}"}
    src = ""
    own = {}
    for (c, bases), ds in zip(SHAPES[shape], defs):
        src += f"class {c}({bases}):\n    pass\n"
        if kind == "falsy" and not bases:
            src += "    def __bool__(self): return False\n"
        own[c] = []
        for i, ty in enumerate(ds):
            own[c].append((ty, (c, i)))
            me = {"cls": "cls, ", "static": ""}.get(kind, "self, ")
            deco = {"cls": "@classmethod", "static": "@staticmethod"}.get(kind)
            if deco:
                src += f"    {deco}\n"
            src += f"    @generic\n    def f({me}x: {ty}):\n"
            if sup:
                # the next definition in the resolution order
                src += f"        try:\n            rest = super({c}, {me[:-2]}).f(x)\n        except (TypeError, AttributeError):\n            rest = ()\n"
                src += f"        return ({(c, i)!r},) + rest\n"
            else:
                src += f"        return ({(c, i)!r},)\n"
    exec(src, ns)
    for c, _ in SHAPES[shape]:
        cls = ns[c]
        mro = [k.__name__ for k in cls.__mro__[:-1]]
        def look(start, v):
            for j in range(start, len(mro)):
                for ty, tag in reversed(own[mro[j]]):
                    if ty == "Any" or isinstance(v, {"int": int, "str": str}[ty]):
                        return (tag,) + (look(j + 1, v) or () if sup else ())
                if kind == "static" and own[mro[j]]:
                    return None     # no lookup beyond the first class that defines it
            return None
        for v in (1, "a", 1.5, None):
            want = look(0, v)
            objs = [cls] if kind in ("cls", "static") else []
            objs.append(cls())
            for o in objs:
                if not hasattr(o, "f"):
                    mc.check(not any(own[k] for k in mro), "method lost")
                    continue
                try:
                    got = o.f(v)
                except TypeError:
                    got = None
                except RecursionError:
                    got = "RecursionError"
                mc.step()
                mc.check(got == want, lambda: f"{shape} {defs} {kind} super={sup}: {c} called with {v!r}: {got}, expected {want}")
                if not sup and kind != "static":
                    # the same through curry
                    try:
                        got = curry(o.f)(v)
                    except TypeError:
                        got = None
                    mc.step()
                    mc.check(got == want, lambda: f"{shape} {defs} {kind}: curried {c} called with {v!r}: {got}, expected {want}")
    mc.state(case)

# ---- curried generics
CSIGS = ["x: int", "x: str, y: int", "x: int, y: str", "x: Any, y: int, z: str", "x: IS, y: IS", "y: int, x: str", "", "x: int, *, k: str", "a: int, b: int"]
def cu_gen(tier):
    for a in CSIGS:
        yield [[a]]
        for b in CSIGS:
            yield [[a, b]]
    for h in itertools.product(CSIGS if tier != "quick" else CSIGS[:6], repeat=3):
        yield [h]

class _S:
    pass
def analyze(sig, args, kwargs):
    """-> 'no' | 'exact' | 'extra' | 'partial'"""
    s, ann = sigof(sig)
    o = _S()
    o.s = s
    b = Spec.bind(o, args, kwargs)
    if b == "TypeError":
        return "no"
    missing, extra, exkw, a, k = b
    bound = s.bind_partial(*a, **k)
    if any(n in ann and not mem(v, ann[n]) for n, v in bound.arguments.items()):
        return "no"
    if missing:
        return "partial-extra" if extra or exkw else "partial"
    return "extra" if extra or exkw else "exact"

STEPS = []
for pos in [(), (1,), ("a",), (1, 1), (1, "a"), ("a", 1), ("a", "a"), (1, 1, "a"), ("a", 1, "a"), (1.5, 1, "a"), (1, "a", 1), (1.5,)]:
    for comp in mc.compositions(len(pos)) if pos else [(0,)]:
        it = iter(pos)
        steps = [tuple(next(it) for _ in range(n)) for n in comp]
        for kw in ({}, {"y": 1}, {"y": "a"}, {"k": "s"}, {"x": "a"}, {"b": 1}):
            for at in range(len(steps)) if kw else [0]:
                STEPS.append([(s, kw if i == at else {}) for i, s in enumerate(steps)])

def cu_run(case):
    (sigs,) = case
    u = next(_n)
    methods = []
    for i, s in enumerate(sigs):
        f = generic(define("f", s, i, f"mcmod{u}"))
        methods.append((i, s))
    for steps in STEPS:
        cur, args, kwargs = curry(f), (), {}
        for a, k in steps:
            args, kwargs = args + a, {**kwargs, **k}
            res = [analyze(s, args, kwargs) for _, s in reversed(methods)]
            what = f"curried generic {methods} in steps {steps}, up to {args} {kwargs}"
            if "exact" not in res and "extra" in res:
                break                   # surplus arguments: see F01
            got = call(cur, a, k)
            mc.step()
            if "exact" in res:
                want = reference(methods, args, kwargs)
                mc.check(got == ("ok", want), lambda: f"{what}: {got}, expected {want}")
                break
            if "partial" in res:
                mc.check(got[0] == "ok" and iscurried(got[1]), lambda: f"{what}: {got}, expected to wait for more arguments")
                cur = got[1]
            elif "partial-extra" in res:
                break                   # surplus arguments in a pending step: not claimed
            else:
                mc.check(got == ("exc", "TypeError"), lambda: f"{what}: {got}, expected a TypeError")
                break
    mc.trace(len(STEPS))
    mc.state(case)

SPACES = [
    mc.Space("functions", fn_gen, fn_run, "all histories of <=2 registrations over 20 (25) signatures, of 3 over 8 (11), thorough: of 4 over 8; by name or by augment; x about 300 argument lists"),
    mc.Space("typed", ty_gen, ty_run, "33 signatures x about 300 argument lists"),
    mc.Space("methods", oo_gen, oo_run, "3 hierarchy shapes of 4 classes x all placements of 4 (7) sets of multimethods x instance/class/static/falsy x with and without super(); 4 argument values"),
    mc.Space("curried", cu_gen, cu_run, "all histories of <=3 registrations over 6 to 9 signatures x 12 argument lists x all splits into steps x 6 named arguments"),
]
