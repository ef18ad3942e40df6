"""L01: lazified programs vs. a reference call-by-need interpreter; explicit promises; force over containers."""
from lib import mc, macros
import itertools, collections
from unpythonic import Values, box, ThreadLocalBox, Some, cons, ll, nil, frozendict
from unpythonic.lazyutil import Lazy, force, force1, passthrough_lazy_args, maybe_force_args
from unpythonic.env import env

# ================================================================ reference interpreter
# expr: ["c", v] ["v", name] ["L", k, e] ["boom"] ["+", e, e] ["if", c, t, f] ["and", a, b] ["or", a, b] ["not", e]
#       ["H", e, e] ["Hkw", e, e] (keywords, reversed order) ["Hstar", e, e] ["lam", e_arg, name, body] ["let", name, e, body] ["letrec", name, e, body]
#       ["tup", *e] ["list", *e] ["dict", e] ["idx", e, i] ["fn", name, body] ["app", f, e]
CONT = ("tup", "list", "dict")

def src(e):
    t = e[0]
    S = src
    if t == "c": return repr(e[1])
    if t == "v": return e[1]
    if t == "L": return f"L({e[1]}, {S(e[2])})"
    if t == "boom": return "boom()"
    if t == "+": return f"({S(e[1])} + {S(e[2])})"
    if t == "if": return f"({S(e[2])} if {S(e[1])} else {S(e[3])})"
    if t in ("and", "or"): return f"({S(e[1])} {t} {S(e[2])})"
    if t == "not": return f"(not {S(e[1])})"
    if t == "H": return f"H({S(e[1])}, {S(e[2])})"
    if t == "Hkw": return f"H(q={S(e[2])}, p={S(e[1])})"
    if t == "Hstar": return f"H(*({S(e[1])}, {S(e[2])}))"
    if t == "Hdstar": return f"H(**{{'p': {S(e[1])}, 'q': {S(e[2])}}})"
    if t == "lam": return f"(lambda {e[2]}: {S(e[3])})({S(e[1])})"
    if t == "let": return f"let[[{e[1]} << {S(e[2])}] in {S(e[3])}]"
    if t == "letrec": return f"letrec[[{e[1]} << {S(e[2])}] in {S(e[3])}]"
    if t == "tup": return "(" + "".join(S(x) + ", " for x in e[1:]) + ")"
    if t == "list": return "[" + ", ".join(S(x) for x in e[1:]) + "]"
    if t == "dict": return f"{{'k': {S(e[1])}}}"
    if t == "idx": return f"{S(e[1])}[{e[2]!r}]"
    if t == "fn": return f"(lambda {e[1]}: {S(e[2])})"
    if t == "app": return f"{S(e[1])}({S(e[2])})"
    raise RuntimeError(e)

class Thunk:
    def __init__(self, f): self.f, self.done = f, None
    def get(self):
        if self.done is None:
            try: self.done = (True, self.f())
            except Exception as ex: self.done = (False, ex)
        if self.done[0]: return self.done[1]
        raise self.done[1]
def f1(x):
    return x.get() if isinstance(x, Thunk) else x
def full(x):
    if isinstance(x, Thunk): return x.get()
    if isinstance(x, tuple): return tuple(full(y) for y in x)
    if isinstance(x, list):
        x[:] = [full(y) for y in x]
        return x
    if isinstance(x, dict):
        y = {k: full(v) for k, v in x.items()}
        x.update(y)
        return x
    return x

class Boom(Exception): pass

class Ref:
    """Call-by-need reference. H: how the helper treats its two arguments."""
    def __init__(self, log, H): self.log, self.H = log, H
    def arg(self, e, en):
        t = e[0]
        if t == "v": return en[e[1]]
        if t == "idx": return self.ev(e[1], en, flat=True)[e[2]]    # a reference is resolved, but not forced
        if t == "tup": return tuple(self.arg1(x, en) for x in e[1:])
        if t == "list": return [self.arg1(x, en) for x in e[1:]]
        if t == "dict": return {"k": self.arg1(e[1], en)}
        return Thunk(lambda: self.ev(e, en))
    def arg1(self, e, en):   # inside a container literal: a name becomes a promise, too
        return Thunk(lambda: self.ev(e, en)) if e[0] not in CONT else self.arg(e, en)
    def call(self, f, *args):
        return f(*args)
    def ev(self, e, en, flat=False):
        t = e[0]
        if t == "c": return e[1]
        if t == "v": return (f1 if flat else full)(en[e[1]])
        if t == "L":
            v = full(self.arg(e[2], en))
            self.log.append(e[1])
            return v
        if t == "boom":
            self.log.append("boom")
            raise Boom
        if t == "+": return self.ev(e[1], en) + self.ev(e[2], en)
        if t == "if": return self.ev(e[2], en) if self.ev(e[1], en) else self.ev(e[3], en)
        if t == "and": return self.ev(e[1], en) and self.ev(e[2], en)
        if t == "or": return self.ev(e[1], en) or self.ev(e[2], en)
        if t == "not": return not self.ev(e[1], en)
        if t in ("H", "Hstar", "Hdstar"): return self.H(self.log, self.arg(e[1], en) if t == "H" else self.arg1(e[1], en), self.arg(e[2], en) if t == "H" else self.arg1(e[2], en), False)
        if t == "Hkw":
            q = self.arg(e[2], en)      # evaluated in source order
            return self.H(self.log, self.arg(e[1], en), q, True)
        if t == "lam": return self.ev(e[3], {**en, e[2]: self.arg(e[1], en)})
        if t in ("let", "letrec"): return self.ev(e[3], {**en, e[1]: self.arg(e[2], en)})
        if t == "tup": return tuple(self.ev(x, en) for x in e[1:])
        if t == "list": return [self.ev(x, en) for x in e[1:]]
        if t == "dict": return {"k": self.ev(e[1], en)}
        if t == "idx":
            v = self.ev(e[1], en, flat=True)[e[2]]
            return f1(v) if flat else full(v)
        if t == "fn": return lambda x: self.ev(e[2], {**en, e[1]: x})
        if t == "app": return self.ev(e[1], en)(self.arg(e[2], en))
        raise RuntimeError(e)

# helper variants: real (strict ones, or compiled inside lazify) and model
HSRC = {
    "first": "def first(p, q):\n    return p",
    "second": "def second(p, q):\n    return q",
    "twice": "def twice(p, q):\n    return (q, q, p)",
    "none": "def none(p, q):\n    return 11",
    "swap": "def swap(p, q):\n    return inner(q, p)\n  def inner(p, q):\n    return p if q == 0 else q".replace("\n  def", "\n  def"),
}
HMODEL = {
    "first": lambda log, p, q, kw: full(p),
    "second": lambda log, p, q, kw: full(q),
    "twice": lambda log, p, q, kw: (full(q), full(q), full(p)),
    "none": lambda log, p, q, kw: 11,
    "strict": None,
}
def h_swap(log, p, q, kw):
    return full(q) if full(p) == 0 else full(p)     # inner(q, p): parameter p is q, q is p
HMODEL["swap"] = h_swap
def h_strict(log, p, q, kw):
    # all arguments are forced before the call, positional and keyword ones in the order written
    a, b = (full(q), full(p))[::-1] if kw else (full(p), full(q))
    log.append("strict")
    mc.check(True, "")
    return (a, b)
HMODEL["strict"] = h_strict

HEADER = """from unpythonic.syntax import macros, lazify, lazy, lazyrec, let, letrec, do, local
from unpythonic import curry, call, callwith, apply
"""
def given(log):
    def L(k, v):
        assert not contains_lazy(v), "strict function received a promise"
        log.append(k)
        return v
    def boom():
        log.append("boom")
        raise Boom
    def strict(p, q):
        assert not contains_lazy(p) and not contains_lazy(q), "strict function received a promise"
        log.append("strict")
        return (p, q)
    return dict(L=L, boom=boom, strict=strict, Boom=Boom, H=None)

def contains_lazy(v):
    if isinstance(v, Lazy): return True
    if isinstance(v, (tuple, list, set)): return any(map(contains_lazy, v))
    if isinstance(v, dict): return any(map(contains_lazy, v.values()))
    return False

def clean(v):
    if contains_lazy(v): return ("PROMISE", repr(type(v)))
    if callable(v): return "fn"
    if isinstance(v, (tuple, list)): return type(v)(map(clean, v))
    return v

# ---------------------------------------------------------------- grammar of bodies over parameters a, b
A, B, SEVEN = ["v", "a"], ["v", "b"], ["c", 7]
Y = ["v", "y"]
def e1():
    E0 = [A, B, SEVEN]
    out = list(E0)
    out += [["L", 1, x] for x in E0]
    out += [["+", A, B], ["+", B, A], ["+", A, A]]
    out += [["if", A, B, SEVEN], ["if", B, SEVEN, A], ["if", SEVEN, A, B], ["if", A, A, B]]
    out += [["and", A, B], ["or", B, A], ["not", A]]
    out += [["H", A, B], ["H", B, A], ["Hkw", A, B], ["Hstar", A, B], ["Hdstar", A, B], ["H", A, A]]
    out += [["lam", A, "y", Y], ["lam", A, "y", SEVEN], ["lam", B, "y", ["+", Y, Y]], ["lam", B, "a", A]]
    out += [["let", "y", A, Y], ["let", "y", A, B], ["letrec", "y", B, Y], ["let", "y", B, ["tup", Y, Y]]]
    out += [["tup", A, B], ["list", B], ["dict", A], ["idx", A, 0], ["idx", B, 1], ["idx", B, "k"], ["boom"]]
    return out

def e2(quick):
    """One more level on top of e1."""
    X = e1()
    for x in X:
        yield ["L", 2, x]
        yield ["+", x, A]
        yield ["if", x, A, B]
        yield ["if", B, x, A]
        for h in ("H", "Hkw", "Hstar"):
            yield [h, x, B]
            yield [h, A, x]
        yield ["lam", x, "y", Y]
        yield ["lam", x, "y", ["+", Y, Y]]
        yield ["lam", x, "y", A]
        yield ["let", "y", x, ["if", A, Y, ["+", Y, Y]]]
        yield ["let", "y", x, B]
        yield ["letrec", "y", x, ["tup", Y, Y]]
        yield ["let", "a", x, ["tup", A, B]]
        yield ["tup", x, x]
        yield ["lam", ["tup", x, B], "y", ["idx", Y, 0]]
        yield ["lam", ["tup", B, x], "y", ["idx", Y, 0]]
        yield ["lam", ["list", x, A], "y", ["tup", ["idx", Y, 1], Y]]
        yield ["lam", ["dict", x], "y", ["idx", Y, "k"]]
        yield ["app", ["fn", "y", x], B]
        yield ["app", ["fn", "y", ["H", Y, x]], A]
        yield ["lam", ["fn", "y", x], "z", ["app", ["v", "z"], A]]
        yield ["lam", ["fn", "y", ["+", Y, x]], "z", ["+", ["app", ["v", "z"], B], ["app", ["v", "z"], A]]]
        if not quick:
            for y in X:
                yield ["H", x, y]
                yield ["Hkw", x, y]
                yield ["if", x, y, A]
                yield ["let", "y", x, ["if", Y, y, Y]]
                yield ["lam", ["tup", x, y], "y", ["+", ["idx", Y, 0], ["idx", Y, 1]]]
                yield ["tup", x, y]

ARGS = [["c", 3], ["L", 10, ["c", 4]], ["boom"], ["v", "g"], ["+", ["v", "g"], ["L", 12, ["c", 1]]],
        ["tup", ["L", 13, ["c", 0]], ["boom"]], ["tup", ["L", 14, ["c", 0]], ["L", 15, ["c", 5]]], ["list", ["L", 16, ["c", 8]], ["L", 17, ["c", 9]]],
        ["dict", ["L", 18, ["c", 6]]], ["L", 19, ["c", 0]], ["H", ["L", 20, ["c", 2]], ["boom"]], ["c", 0]]
FORMS = ["F({a}, {b})", "F(b={b}, a={a})", "F(*({a}, {b}))", "F({a}, *({b},))", "curry(F)({a}, {b})", "curry(F, {a})({b})", "call(F, {a}, {b})", "callwith({a}, {b})(F)", "F({a}, **{{'b': {b}}})"]
STARRED = (2, 3, 8)   # forms with container literals: a bare name becomes a promise (no difference in behaviour)

def chunks(it, n):
    it = iter(it)
    while True:
        c = list(itertools.islice(it, n))
        if not c: return
        yield c

def prog_gen(tier):
    quick = tier == "quick"
    for c in chunks(itertools.chain(e1(), e2(quick)), 12):
        yield c

def indent(s, n):
    return "\n".join(" " * n + l for l in s.splitlines())

HELPERS = """with lazify:
  def first(p, q):
    return p
  def second(p, q):
    return q
  def twice(p, q):
    return (q, q, p)
  def none(p, q):
    return 11
  def inner(p, q):
    return p if q == 0 else q
  def swap(p, q):
    return inner(q, p)
"""
_callers = {}
def callers():
    """Compile all argument pairs x call forms once per process."""
    if not _callers:
        log = []
        G = given(log)
        lines = [HEADER, HELPERS, "g = 5", "with lazify:", "  pass"]
        idx = []
        for fi, form in enumerate(FORMS):
            for i, a in enumerate(ARGS):
                for j, b in enumerate(ARGS):
                    if fi and not (i in (1, 2, 6, 10) and j in (1, 2, 7, 8, 9)):   # all pairs for the plain call, a core of them for the other forms
                        continue
                    n = f"c_{fi}_{i}_{j}"
                    lines.append(f"  def {n}(F):\n    return {form.format(a=src(a), b=src(b))}")
                    idx.append((n, fi, i, j))
        ns = macros.module("\n".join(lines), **G)
        _callers.update(ns=ns, log=log, idx=idx)
    return _callers

def prog_run(case):
    C = callers()
    ns, log = C["ns"], C["log"]
    G = {k: ns[k] for k in ("L", "boom", "first", "second", "twice", "none", "swap", "strict", "Boom")}
    lines = [HEADER, "H = None", "with lazify:"]
    for n, body in enumerate(case):
        lines.append(f"  def f{n}(a, b):\n    return {src(body)}")
    try:
        mod = macros.module("\n".join(lines), **G)
    except macros.ExpansionError as e:
        raise mc.Violation(f"does not expand: {e}")
    for n, body in enumerate(case):
        F = mod[f"f{n}"]
        usesH = "H" in repr(body)
        for (name, fi, i, j) in C["idx"]:
            argH = ARGS[i][0] == "H" or ARGS[j][0] == "H"
            for h in (("first", "second", "twice", "none", "swap", "strict") if (usesH and not fi) else ("strict", "swap") if usesH else ("first", "strict") if argH else ("first",)):
                mod["H"] = ns["H"] = ns[h] if h != "strict" else ns["strict"]
                rlog = []
                R = Ref(rlog, HMODEL[h])
                en = {"g": 5}
                def model():
                    mk = R.arg1 if fi in (2,) else R.arg
                    a = mk(ARGS[i], en)
                    b = R.arg1(ARGS[j], en) if fi in STARRED else R.arg(ARGS[j], en)
                    return R.ev(body, {"a": a, "b": b, "g": 5})
                want = mc.outcome(model)
                del log[:]
                got = mc.outcome(ns[name], F)
                if got[0] == "ok": got = ("ok", clean(got[1]))
                if want[0] == "ok": want = ("ok", clean(want[1]))
                mc.step(len(log) + 1)
                mc.trace()
                mc.check(got == want and log == rlog, lambda: f"f(a, b) = {src(body)}; {FORMS[fi].format(a=src(ARGS[i]), b=src(ARGS[j]))} with H={h}: {got} effects {log}, expected {want} effects {rlog}")
                mc.state((want, tuple(rlog)))

# ================================================================ statement bodies, decorators, recursion: hand-modelled
STM = '''
with lazify:
    def s_if(a, b):
        if a:
            return b
        return 0
    def s_try(a, b):
        try:
            a
        except Boom:
            pass
        try:
            return a
        except Boom:
            return b
    def s_assign(a, b):
        x = a
        y = (x, x)
        return y
    def s_unused(a, b):
        def inner(c):
            return b
        return inner(a)
    def s_loop(a, b):
        out = []
        for i in range(3):
            out.append(a)
        return out
    def s_rec(a, b):
        def go(n, acc):
            return acc if n == 0 else go(n - 1, acc)
        return go(3, b)
    def s_recacc(a, b):
        def go(n, acc):
            return acc if n == 0 else go(n - 1, acc + a)
        return go(2, b)
    def s_gen(a, b):
        return list(x for x in (1, 2))
    def s_comp(a, b):
        return [b for _ in range(2)]
    def s_closure(a, b):
        def get():
            return a
        return (get(), get())
    def s_do(a, b):
        return do[local[x << b], (x, x)]
    def s_let2(a, b):
        return let[[x << a, y << b] in y]
    def s_letb(a, b):
        return let[[x << (L(30, a)), y << (L(31, b))] in [y, x, y]]
    def s_letrec2(a, b):
        return letrec[[x << L(30, y), y << L(31, b)] in x]
    def s_lazyexp(a, b):
        x = lazy[L(32, b)]
        return (x, x)
    def s_lazyunused(a, b):
        x = lazy[boom()]
        return a
    def s_lazyrec(a, b):
        t = lazyrec[(L(33, a), boom())]
        return t[0]
    def s_default(a, b, c=5):
        return (b, c)
    def s_varargs(a, b):
        def va(*args):
            return args[1]
        return va(a, b)
    def s_kwargs(a, b):
        def va(**kws):
            return kws["q"]
        return va(p=a, q=b)
    def s_passcont(a, b):
        def first(t):
            x, y = t
            return y
        return first((a, b))
    def s_attr(a, b):
        return (box(b)).x
    def s_notused(a, b):
        return None
    def s_assert(a, b):
        assert b or True
        return 1
    def s_while(a, b):
        n = 0
        while n < 2:
            n = n + 1
        return n
    def s_nestedcall(a, b):
        return second(first(a, boom()), second(boom(), b))
    def s_aug(a, b):
        x = 1
        x += 1
        return (x, b)
'''
def T2(f):
    return lambda R, a, b: f(R, a, b)
def try2(R, a, b):
    try: return full(a)
    except Boom: return full(b)
def twice_forced(x): return (full(x), full(x))
def lg(R, k, x):
    v = full(x)
    R.log.append(k)
    return v
def letb(R, a, b):
    tx, ty = Thunk(lambda: lg(R, 30, a)), Thunk(lambda: lg(R, 31, b))
    return [f1(ty), f1(tx), f1(ty)][-1]
def letrec2(R, a, b):
    d = {}
    d["y"] = Thunk(lambda: lg(R, 31, b))
    return lg(R, 30, d["y"])
def lazyexp(R, a, b):
    t = Thunk(lambda: lg(R, 32, b))
    return (f1(t), f1(t))
def assign_(R, a, b):
    return (full(a),) * 2
STMMODEL = {
    "s_if": lambda R, a, b: full(b) if full(a) else 0,
    "s_try": try2,
    "s_assign": assign_,
    "s_unused": lambda R, a, b: full(b),
    "s_loop": lambda R, a, b: [full(a) for _ in range(3)],
    "s_rec": lambda R, a, b: full(b),
    "s_recacc": lambda R, a, b: full(b) + full(a) + full(a),
    "s_gen": lambda R, a, b: [1, 2],
    "s_comp": lambda R, a, b: [full(b), full(b)],
    "s_closure": lambda R, a, b: twice_forced(a),
    "s_do": lambda R, a, b: twice_forced(b),
    "s_let2": lambda R, a, b: full(b),
    "s_letb": letb,
    "s_letrec2": letrec2,
    "s_lazyexp": lazyexp,
    "s_lazyunused": lambda R, a, b: full(a),
    "s_lazyrec": lambda R, a, b: lg(R, 33, a),
    "s_default": lambda R, a, b: (full(b), 5),
    "s_varargs": lambda R, a, b: full(b),
    "s_kwargs": lambda R, a, b: full(b),
    "s_passcont": lambda R, a, b: (full(a), full(b))[1],
    "s_attr": lambda R, a, b: full(b),
    "s_notused": lambda R, a, b: None,
    "s_assert": lambda R, a, b: (full(b) and None, 1)[1],
    "s_while": lambda R, a, b: 2,
    "s_nestedcall": lambda R, a, b: full(b),
    "s_aug": lambda R, a, b: (2, full(b)),
}
_stm = {}
def stm_gen(tier):
    for s in STMMODEL:
        yield s
def stm_run(s):
    C = callers()
    ns, log = C["ns"], C["log"]
    if not _stm:
        G = {k: ns[k] for k in ("L", "boom", "first", "second", "Boom")}
        _stm.update(macros.module(HEADER + "from unpythonic import box\n" + STM, **G))
    for (name, fi, i, j) in C["idx"]:
        for h in ("first", "strict"):
            ns["H"] = ns[h]
            rlog = []
            R = Ref(rlog, HMODEL[h])
            en = {"g": 5}
            def model():
                mk = R.arg1 if fi in (2,) else R.arg
                a = mk(ARGS[i], en)
                b = R.arg1(ARGS[j], en) if fi in STARRED else R.arg(ARGS[j], en)
                return STMMODEL[s](R, a, b)
            want = mc.outcome(model)
            del log[:]
            if s == "s_default" and fi in (4, 5): continue    # currying a function with a default argument
            got = mc.outcome(ns[name], _stm[s])
            if got[0] == "ok": got = ("ok", clean(got[1]))
            if want[0] == "ok": want = ("ok", clean(want[1]))
            mc.step(len(log) + 1)
            mc.trace()
            mc.check(got == want and log == rlog, lambda: f"{s}: {FORMS[fi].format(a=src(ARGS[i]), b=src(ARGS[j]))} with H={h}: {got} effects {log}, expected {want} effects {rlog}")
            mc.state((s, want, tuple(rlog)))

# ================================================================ promises and force at run time
def rt_gen(tier):
    for kind in ("value", "none", "exc", "lazyval", "base"):
        for seq in itertools.product(("force", "force1", "m", "cont", "repr"), repeat=4 if tier == "quick" else 6):
            yield ["promise", kind, list(seq)]
    for depth in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        for kinds in itertools.product(CTORS, repeat=depth):
            yield ["cont", list(kinds)]
    yield ["misc"]

NT = collections.namedtuple("NT", "u v")
CTORS = ["list", "tuple", "dict", "set", "frozenset", "frozendict", "box", "tlbox", "some", "cons", "ll", "values", "deque", "nt", "odict"]
def mk(kind, x, y):
    """container of the given kind holding x and (where it can) y; returns (container, mutable in place?)"""
    if kind == "list": return [x, y]
    if kind == "tuple": return (x, y)
    if kind == "dict": return {"p": x, "q": y}
    if kind == "odict": return collections.OrderedDict(p=x, q=y)
    if kind == "set": return {x, y}
    if kind == "frozenset": return frozenset({x, y})
    if kind == "frozendict": return frozendict({"p": x, "q": y})
    if kind == "box": return box(x)
    if kind == "tlbox": return ThreadLocalBox(x)
    if kind == "some": return Some(x)
    if kind == "cons": return cons(x, y)
    if kind == "ll": return ll(x, y)
    if kind == "values": return Values(x, q=y)
    if kind == "deque": return collections.deque([x, y])
    if kind == "nt": return NT(x, y)
MUTABLE = ("list", "dict", "set", "box", "tlbox", "deque", "odict")
UNHASHABLE = ("list", "dict", "set", "box", "tlbox", "deque", "odict", "values", "frozendict")

def rt_run(case):
    if case[0] == "promise":
        _, kind, seq = case
        n = [0]
        inner = Lazy(lambda: 5)
        def thunk():
            n[0] += 1
            if kind == "exc": raise ZeroDivisionError("first")
            if kind == "base": raise KeyboardInterrupt
            return {"value": 42, "none": None, "lazyval": inner}[kind]
        p = Lazy(thunk)
        mc.check(n[0] == 0, "promise evaluated at creation")
        forced = 0
        excs = []
        for s in seq:
            if s == "repr":
                repr(p)
                mc.check(n[0] == min(forced, 1) or kind == "base", "repr forces")
                continue
            f = {"force": lambda: force(p), "force1": lambda: force1(p), "m": lambda: p.force(), "cont": lambda: force((p,))[0]}[s]
            forced += 1
            try:
                got = f()
                mc.check(kind not in ("exc", "base"), "exception lost")
                want = {"value": 42, "none": None, "lazyval": inner}[kind]
                mc.check(got is want or got == want, lambda: f"{kind} {seq}: {s} gives {got!r}")
            except (ZeroDivisionError, KeyboardInterrupt) as e:
                mc.check(kind in ("exc", "base"), "unexpected exception")
                excs.append(e)
            if kind != "base":
                mc.check(n[0] == 1, lambda: f"{kind} {seq}: evaluated {n[0]} times")
            mc.step()
        if kind == "exc":
            mc.check(all(e is excs[0] for e in excs), "another exception instance")
        mc.state((kind, forced, n[0]))
        return
    if case[0] == "misc":
        for x in (1, None, "ab", b"ab", range(3), 2.5, print, object(), int, nil, env(x=Lazy(lambda: 1))):
            mc.check(force(x) is x and force1(x) is x, lambda: f"force({x!r}) is not the same object")
        for bad in (1, None, "s"):
            mc.check(mc.outcome(Lazy, bad) == ("exc", "TypeError"), "Lazy of a non-callable")
        mc.check(force({Lazy: 1}) == {Lazy: 1} and force({}) == {} and force(()) == () and force([]) == [], "empty containers")
        d = {"a": Lazy(lambda: 1)}
        for view, want in ((d.items(), {("a", 1)}), (d.values(), {1}), (d.keys(), {"a"})):
            mc.eq(force(view), want, "mapping view")
        # maybe_force_args: strict functions get values, lazy ones promises
        p = Lazy(lambda: 7)
        mc.check(maybe_force_args(lambda x, y: (x, y), p, y=[p]) == (7, [7]), "maybe_force_args, strict")
        q = Lazy(lambda: 8)
        mc.check(maybe_force_args(passthrough_lazy_args(lambda x: x), q) is q, "maybe_force_args, lazy")
        mc.state("misc")
        return
    kinds = case[1]
    # nest containers; in each, one promise beside the nested one
    log = []
    def P(k):
        def run():
            log.append(k)
            return k
        return Lazy(run)
    def build(i, prom):
        x = build(i + 1, prom) if i + 1 < len(kinds) else (P(100) if prom else 100)
        return mk(kinds[i], x, P(i) if prom else i)
    try:
        want = build(0, False)
    except TypeError:
        return      # not hashable
    c = build(0, True)
    got = force(c)
    mc.check(type(got) is type(want), lambda: f"{kinds}: type {type(got).__name__}")
    def same(g, w):
        if isinstance(w, (box, ThreadLocalBox, Some)): return type(g) is type(w) and same(g.get(), w.get())
        if isinstance(w, Values): return type(g) is Values and same(g.rets, w.rets) and same(g.kwrets, w.kwrets)
        if isinstance(w, cons): return isinstance(g, cons) and same(g.car, w.car) and same(g.cdr, w.cdr)
        if isinstance(w, (list, tuple, collections.deque)): return type(g) is type(w) and len(g) == len(w) and all(map(same, g, w))
        if isinstance(w, (dict, frozendict)): return type(g) is type(w) and list(g) == list(w) and all(same(g[k], w[k]) for k in w)
        return type(g) is type(w) and g == w
    mc.check(same(got, want), lambda: f"{kinds}: force gives {got!r}, expected {want!r}")
    if kinds[0] in MUTABLE:
        mc.check(got is c, lambda: f"{kinds}: a mutable container is not updated in place")
    mc.check(len(log) == len(set(log)), lambda: f"{kinds}: forced more than once {log}")
    n = len(log)
    force(c)
    mc.check(len(log) == n, lambda: f"{kinds}: forced again")
    mc.step(n)
    mc.state((kinds, tuple(log)))

SPACES = [
    mc.Space("programs", prog_gen, prog_run, "all bodies of the two-level expression grammar (38 level-1 terms; ~1000 two-level bodies, thorough ~9500) x 144 argument pairs x 9 call forms x up to 6 helpers, against a call-by-need interpreter; result, exception, effect order", timeout=600),
    mc.Space("statements", stm_gen, stm_run, "27 statement-level bodies x the same callers", timeout=600),
    mc.Space("promises", rt_gen, rt_run, "all forcing histories of length 4 (thorough: 6) of a promise; all container nestings of depth up to 3 (thorough: 4) over 15 container types"),
]
if __name__ == "__main__":
    print(len(e1()), sum(1 for _ in e2(True)), sum(1 for _ in e2(False)))
