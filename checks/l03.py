"""L03: `with tco`, `with autoreturn` and both, against the plain program: every tail-position shape; stack depth of tail chains."""
from lib import mc, macros
import itertools, sys
from unpythonic import jump, trampolined

# ---------------------------------------------------------------- program syntax
# Conditions and data atoms are L(k): log k, return V[k].
# expressions E (in tail position): leaves and one-hole contexts
LEAVES = ["g", "ext", "boom", "data", "it", "kw", "star", "neg", "nest", "method", "self"]
ECTX = ["then", "else", "and", "or", "and3", "or3", "andor", "orand", "let", "letseq", "letrec", "do", "lam", "aif", "cond", "orlist"]
# the same forms with many parts
EWIDE = ["and5", "or5", "cond5", "do5", "let4", "mix5", "andall", "orall"]
SWIDE = ["elif4", "except3", "withs3"]

class Render:
    """flavor: 'plain' (reference), 'tco', 'auto', 'both' """
    def __init__(self, flavor, hole=None, it="it"):
        self.flavor, self.n, self.hole, self.it = flavor, 0, hole, it   # `it` is reserved where the macro `aif` is in use
        self.auto = flavor in ("auto", "both")
        self.plain = flavor == "plain"
    def c(self):
        self.n += 1
        return f"L({self.n - 1})"
    def E(self, e):
        c = self.c
        if isinstance(e, str):
            if e == "hole": return self.hole
            it = self.it
            return {"g": "g(x)", "ext": "ext(x)", "boom": "boom(x)", "data": f"(x, {it})", "it": f"g({it})", "kw": f"k(target=x, f={it})",
                    "star": f"k(*[x], **{{'f': {it}}})", "neg": "(not g(x))", "nest": "g(g(x))", "method": "OBJ.m(x)", "self": f"mk(x)({it})"}[e]
        t, h = e
        if t == "then": a = c(); return f"({self.E(h)} if {a} else -1)"
        if t == "else": a = c(); return f"(-1 if {a} else {self.E(h)})"
        if t == "and": a = c(); return f"({a} and {self.E(h)})"
        if t == "or": a = c(); return f"({a} or {self.E(h)})"
        if t == "and3": a, b = c(), c(); return f"({a} and {b} and {self.E(h)})"
        if t == "or3": a, b = c(), c(); return f"({a} or {b} or {self.E(h)})"
        if t == "and5": a = [c() for _ in range(4)]; return f"({' and '.join(a)} and {self.E(h)})"
        if t == "or5": a = [c() for _ in range(4)]; return f"({' or '.join(a)} or {self.E(h)})"
        if t == "andall": a = [c() for _ in range(2)]; return f"({a[0]} and g(1) and {a[1]} and h(2) and {self.E(h)})"
        if t == "orall": a = [c() for _ in range(2)]; return f"({a[0]} or not g(1) or {a[1]} or not h(2) or {self.E(h)})"
        if t == "mix5": a = [c() for _ in range(5)]; return f"({a[0]} and {a[1]} and {a[2]} or {a[3]} and {a[4]} and {self.E(h)})"
        if t == "cond5":
            a = [c() for _ in range(4)]
            if self.plain: return f"(-21 if {a[0]} else -22 if {a[1]} else -23 if {a[2]} else {self.E(h)} if {a[3]} else -24)"
            return f"cond[{a[0]}, -21, {a[1]}, -22, {a[2]}, -23, {a[3]}, {self.E(h)}, -24]"
        if t == "do5":
            a = [c() for _ in range(4)]
            return f"({', '.join(a)}, {self.E(h)})[-1]" if self.plain else f"do[{a[0]}, local[v << {a[1]}], {a[2]}, local[w << {a[3]}], {self.E(h)}]"
        if t == "let4":
            a = [c() for _ in range(4)]
            return f"(lambda z, w, u, v: {self.E(h)})({', '.join(a)})" if self.plain else f"let[[z << {a[0]}, w << {a[1]}, u << {a[2]}, v << {a[3]}] in {self.E(h)}]"
        if t == "andor": a, b = c(), c(); return f"({a} and {b} or {self.E(h)})"
        if t == "orand": a, b = c(), c(); return f"({a} or {b} and {self.E(h)})"
        if t == "orlist": a = c(); return f"([] or {a} and [{c()}] or {self.E(h)})"
        if t == "lam": a = c(); return f"(lambda y: {self.E(h)})({a})"
        if t == "let":
            a = c()
            return f"(lambda z: {self.E(h)})({a})" if self.plain else f"let[[z << {a}] in {self.E(h)}]"
        if t == "letseq":
            a = c()
            return f"(lambda z: (lambda w: {self.E(h)})(z))({a})" if self.plain else f"letseq[[z << {a}, w << z] in {self.E(h)}]"
        if t == "letrec":
            a = c()
            return f"(lambda z: {self.E(h)})({a})" if self.plain else f"letrec[[z << {a}] in {self.E(h)}]"
        if t == "do":
            a, b = c(), c()
            return f"({a}, {b}, {self.E(h)})[-1]" if self.plain else f"do[{a}, local[v << {b}], {self.E(h)}]"
        if t == "aif":
            a = c()
            if self.plain: return f"(lambda it: ({self.E(h)} if it else 0) if it else -2)({a})"
            return f"aif[{a}, ({self.E(h)} if it else 0), -2]"
        if t == "cond":
            a, b = c(), c()
            if self.plain: return f"(-3 if {a} else ({self.E(h)} if {b} else -4))"
            return f"cond[{a}, -3, {b}, {self.E(h)}, -4]"
        raise RuntimeError(e)
    # statements; returns a list of lines
    def ret(self, expr, tail=True):
        return [expr if self.auto and tail else f"return {expr}"]
    def S(self, s, tail=True):
        """tail: is the end of this statement also the end of the function body (where autoreturn applies)"""
        c, ind = self.c, lambda ls: ["    " + l for l in ls]
        t = s[0]
        if t == "ret": return self.ret(self.E(s[1]), tail)
        if t == "ec": return [f"ec({self.E(s[1])})", "L(98)"]
        if t == "bare": return [c()] if tail and not self.plain and self.auto else [f"return {c()}"]
        if t == "def":
            body = ind(self.ret(self.E(s[1])))
            return ["def inner(x):"] + body + ([] if self.auto and tail else ["return inner"])
        if t == "class":
            return ["class Inner:", f"    attr = {c()}"] + ([] if self.auto and tail else ["return Inner"])
        h = s[1]
        if t == "if": a = c(); return [f"if {a}:"] + ind(self.S(h, tail)) + ["else:"] + ind(self.ret("-5", tail))
        if t == "orelse": a = c(); return [f"if {a}:"] + ind(self.ret("-5", tail)) + ["else:"] + ind(self.S(h, tail))
        if t == "elif": a, b = c(), c(); return [f"if {a}:"] + ind(self.ret("-5", tail)) + [f"elif {b}:"] + ind(self.S(h, tail)) + ["else:"] + ind(self.ret("-6", tail))
        if t == "elif4":
            a = [c() for _ in range(4)]
            return [f"if {a[0]}:"] + ind(self.ret("-31", tail)) + [f"elif {a[1]}:"] + ind(self.ret("-32", tail)) + [f"elif {a[2]}:"] + ind(self.ret("-33", tail)) + [f"elif {a[3]}:"] + ind(self.S(h, tail)) + ["else:"] + ind(self.ret("-34", tail))
        if t == "except3":
            a = [c() for _ in range(2)]
            return ["try:", f"    {a[0]}", f"    raise ValueError({a[1]})", "except KeyError:"] + ind(self.ret("-35", tail)) + ["except TypeError:"] + ind(self.ret("-36", tail)) + ["except ValueError as err:"] + ind(self.S(h, tail)) + ["except Exception:"] + ind(self.ret("-37", tail))
        if t == "withs3": a = [c() for _ in range(3)]; return [f"with CM({a[0]}), CM({a[1]}) as cm, CM({a[2]}):"] + ind(self.S(h, tail))
        if t == "ifonly": a = c(); return [f"if {a}:"] + ind(self.S(h, tail))
        if t == "early": a = c(); return [f"if {a}:"] + ind(self.S(h, False)) + self.ret(self.c(), tail)
        if t == "eff": a = c(); return [a] + self.S(h, tail)
        if t == "for": a = c(); return [f"for i in (1, 2):", f"    {a}"] + ind(self.S(h, False)) + ["L(97)"] + ["return -7"]
        if t == "while": a, v = c(), f"n{self.n}"; return [f"{v} = 2", f"while {v} and {a}:", f"    {v} -= 1"] + ind(self.S(h, False)) + ["return -8"]
        if t == "with": a = c(); return [f"with CM({a}):"] + ind(self.S(h, tail))
        if t == "withs": a = c(); return [f"with CM({a}, True) as cm:"] + ind(self.S(h, tail))
        if t == "try": a = c(); return ["try:", f"    {a}"] + ind(self.S(h, tail)) + ["except ValueError as err:"] + ind(self.ret(f"('caught', {c()})", tail))
        if t == "trystar": a = c(); return ["try:", f"    {a}"] + ind(self.S(h, tail)) + ["except* ValueError as err:", f"    {c()}"]
        if t == "starelse": a = c(); return ["try:", f"    {a}", "except* ValueError as err:", f"    {c()}", "else:"] + ind(self.S(h, tail))
        if t == "except": a = c(); return ["try:", f"    L({self.n - 1})", f"    raise ValueError({a})", "except ValueError as err:"] + ind(self.S(h, tail))
        if t == "tryelse": a = c(); return ["try:", f"    {a}", "except ValueError:"] + ind(self.ret("-9", tail)) + ["else:"] + ind(self.S(h, tail))
        if t == "tryfin": a = c(); return ["try:", f"    {a}"] + ind(self.S(h, tail)) + ["finally:", f"    {c()}"]
        if t == "excfin": a = c(); return ["try:", f"    raise ValueError({a})", "except ValueError:"] + ind(self.S(h, tail)) + ["finally:", f"    {c()}"]
        if t == "elsefin": a = c(); return ["try:", f"    {a}", "except ValueError:"] + ind(self.ret("-9", tail)) + ["else:"] + ind(self.S(h, tail)) + ["finally:", f"    {c()}"]
        if t == "finret": a = c(); return ["try:", f"    {a}", "    pass", "finally:"] + ind(self.S(h, False))
        if t == "trytry": a = c(); return ["try:"] + ind(["try:", f"    {a}"] + ind(self.S(h, tail)) + ["except KeyError:"] + ind(self.ret("-10", tail))) + ["except ValueError:"] + ind(self.ret("-11", tail))
        if t == "nested":   # a def called in tail position
            return [f"def q(x, {self.it}=3):"] + ind(self.S(h)) + self.ret("q(x)", tail)
        if t == "infunc":   # the try belongs to the outer function only
            a = c()
            return ["try:", f"    {a}", f"    def q(x, {self.it}=3):"] + ind(ind(self.S(h))) + ["    v = q(x)", "except ValueError:", "    v = ('caught2',)"] + self.ret("(v, )", tail)
        raise RuntimeError(s)

SCTX = ["trystar", "starelse", "if", "orelse", "elif", "ifonly", "early", "eff", "for", "while", "with", "withs", "try", "except", "tryelse", "tryfin", "excfin", "elsefin", "finret", "trytry", "nested", "infunc"]
PROTECTED = {"withs3", "trystar", "with", "withs", "try", "tryfin", "excfin", "elsefin", "trytry"}      # the call must stay inside
SLEAVES = ["g", "boom", "data", "it", ["and", "g"], ["or", "it"], ["then", "boom"], ["lam", "boom"]]
KINDS = ["def", "async", "gen", "genself", "method", "property", "classm", "static", "ec"]

def fdef(kind, name, body, R):
    ind = lambda ls: ["    " + l for l in ls]
    args = f"x, {R.it}=5, target=6"
    if kind == "def": return [f"def {name}({args}):"] + ind(body)
    if kind == "async": return [f"async def {name}_({args}):"] + ind(body) + [f"def {name}(*a, **k): return drive({name}_(*a, **k))"]
    if kind == "gen": return [f"def {name}_({args}):", "    yield L(90)"] + ind(body) + [f"def {name}(*a, **k): return drain({name}_(*a, **k))"]
    if kind == "genself": return [f"def {name}_({args}):", "    yield from (L(90), L(91))"] + ind(body) + [f"def {name}(*a, **k): return drain({name}_(*a, **k))"]
    if kind == "method": return [f"class {name}_:", f"    def m(self, {args}):"] + ind(ind(body)) + [f"def {name}(*a, **k): return {name}_().m(*a, **k)"]
    if kind == "property": return [f"class {name}_:", "    def __init__(self, *a): self.a = a", "    @property", "    def m(self):", f"        x, {R.it}, target = self.a"] + ind(ind(body)) + [f"def {name}(x): return {name}_(x, 5, 6).m"]
    if kind == "classm": return [f"class {name}_:", "    @classmethod", f"    def m(cls, {args}):"] + ind(ind(body)) + [f"def {name}(*a, **k): return ({name}_.m(*a, **k), {name}_().m(*a, **k))"]
    if kind == "static": return [f"class {name}_:", "    @staticmethod", f"    def m({args}):"] + ind(ind(body)) + [f"def {name}(*a, **k): return ({name}_.m(*a, **k), {name}_().m(*a, **k))"]
    if kind == "ec": return [f"def {name}({args}):", "    @call_ec", "    def r(ec):"] + ind(ind(body)) + ["    return r"]
    if kind == "lambda": return [f"{name} = lambda {args}: {body}"]
    if kind == "lambda2": return [f"{name} = lambda {args}: (lambda y, *, w=1: {body})(x)"]
    raise RuntimeError(kind)

COMMON = """
def g(x):
    log.append(("g", x, tuple(open_)))
    return h(x)
def h(x):
    log.append(("h", x, tuple(open_)))
    return ("h", x)
def k(target, f=0):
    log.append(("k", target, f))
    return h(target)
def boom(x):
    log.append(("boom", tuple(open_)))
    raise ValueError(x)
mk = lambda x: lambda y: h((x, y))
class O:
    def m(self, x):
        return h(x)
OBJ = O()
"""
PRE = "from unpythonic.syntax import macros, tco, autoreturn, let, letseq, letrec, do, local, cond\nfrom unpythonic import call_ec\n"
AIF = "from unpythonic.syntax import macros, aif, it\n"
HEAD = {"plain": "from unpythonic import call_ec\nif True:\n", "tco": PRE + "with tco:\n", "auto": PRE + "with autoreturn:\n", "both": PRE + "with autoreturn, tco:\n",
        "cont": PRE.replace("tco,", "continuations,") + "with continuations:\n"}
indent = lambda text: "".join("    " + l + "\n" for l in text.split("\n") if l.strip())

def enabled(f):
    """make a plain function continuation-enabled by hand"""
    def g(*args, cc=None, _pcc=None):
        v = f(*args)
        return v if cc is None else jump(cc, v)
    return trampolined(g)

class World:
    def __init__(self, cont=False):
        self.cont = cont
        self.log, self.open_, self.V = [], [], {}
    def given(self):
        W = self
        def L(k):
            W.log.append(k)
            return W.V.get(k, 0)
        class CM:
            def __init__(self, v, suppress=False):
                self.v, self.s = v, suppress
            def __enter__(self):
                W.log.append("enter")
                W.open_.append(self.s)
                return self
            def __exit__(self, et, ev, tb):
                W.log.append(("exit", et and et.__name__))
                W.open_.pop()
                return self.s and et is ValueError
        def ext(x):
            W.log.append(("ext", x, tuple(W.open_)))
            return ("ext", x)
        def drive(coro):
            try:
                coro.send(None)
            except StopIteration as e:
                return ("async", e.value)
            raise RuntimeError("suspended")
        def drain(gen):
            def outer():
                return (yield from gen)
            out, it = [], outer()
            while True:
                try:
                    out.append(next(it))
                except StopIteration as e:
                    return ("gen", tuple(out), e.value)
        def D():
            n, f = 0, sys._getframe()
            while f is not None:
                n, f = n + 1, f.f_back
            W.depths.append(n)
            return "D"
        if self.cont:
            L, ext, D, drive, drain = map(enabled, (L, ext, D, drive, drain))
        return dict(L=L, CM=CM, ext=ext, drive=drive, drain=drain, log=W.log, open_=W.open_, D=D)

TRUTHY, FALSY = ["t", 7, [1], (0,)], ["", 0, [], None, ()]
def assignments(n):
    for bits in itertools.product((0, 1), repeat=n):
        yield {k: (TRUTHY[k % 4] if b else FALSY[k % 5]) for k, b in enumerate(bits)}, bits

def settle(v, W):
    """make results comparable; call a returned function"""
    if isinstance(v, type): return ("class", v.__name__, v.attr)
    if isinstance(v, tuple) and v and any(callable(x) or isinstance(x, tuple) for x in v): return tuple(settle(x, W) for x in v)
    if callable(v): return ("fn", mc.outcome_msg(v, 8))
    if type(v).__name__ == "_jump": return ("JUMP LEAKED",)
    return v

def run(f, W, V):
    del W.log[:]
    W.V, W.depths = V, []
    got = mc.outcome_msg(lambda: settle(f(3), W))
    opened = list(W.open_)
    del W.open_[:]
    return got, list(W.log), opened

# ---------------------------------------------------------------- equivalence with the plain program
_w = {}
def world(flavor):
    if flavor not in _w:
        _w[flavor] = World(flavor == "cont")
    return _w[flavor]
def compile_(flavor, items, hole=None):
    """items: list of (kind, body spec). Returns functions (or ExpansionError) and condition counts"""
    defs, names, counts = [], [], []
    aif = uses_aif(items[0])
    for i, (kind, spec) in enumerate(items):
        R = Render(flavor, hole, "jt" if aif else "it")
        body = R.E(spec) if kind.startswith("lambda") else R.S(spec)
        defs.append(indent("\n".join(fdef(kind, f"p{i}", body, R))))
        names.append(f"p{i}")
        counts.append(R.n)
    W = world(flavor)
    head = (AIF if aif and flavor != "plain" else "") + HEAD[flavor] + indent(COMMON)
    if flavor == "plain":
        ns = dict(W.given())
        exec(compile(head + "\n".join(defs), "<plain>", "exec"), ns)
        return [ns[n] for n in names], counts, defs
    return macros.programs(head, defs, names, **W.given()), counts, defs

def eq_run(case):
    flavors, items = case
    plain, counts, pdefs = compile_("plain", items)
    for flavor in flavors:
        sel = [i for i, (kind, _) in enumerate(items) if not (flavor not in ("tco", "cont") and kind in ("ec", "lambda", "lambda2"))]
        fs, _, defs = compile_(flavor, [items[i] for i in sel])
        for i, f, d in zip(sel, fs, defs):
            if isinstance(f, macros.ExpansionError):
                raise mc.Violation(f"{flavor}: cannot expand\n{d}\n{f}")
            for V, bits in assignments(counts[i]):
                want = run(plain[i], world("plain"), V)
                got = run(f, world(flavor), V)
                mc.step(len(got[1]))
                mc.trace()
                mc.check(got == want, lambda: f"with {flavor}, conditions {bits}:\n{d}  gives {got}\n  expected {want}")
                mc.state((flavor, items[i], want))

def uses_aif(item):
    return mentions(item, "aif")
def batches(flavors, it, n=24):
    it = list(it)
    for aif in (False, True):
        part = [x for x in it if uses_aif(x) == aif]
        for i in range(0, len(part), n):
            yield [flavors, part[i:i + n]]

# With `continuations`, a tail call may only go to a continuation-enabled function, a false `and` gives False by design,
# and a `return` inside a `with` or `try` is not covered (see DESIGN.md).
C_LEAVES = [x for x in LEAVES if x != "ext"]
C_ECTX = [x for x in ECTX if x not in ("and", "and3", "andor", "orand", "orlist")]
C_SCTX = [x for x in SCTX if x not in PROTECTED]
C_SLEAVES = ["g", "boom", "data", "it", ["or", "it"], ["then", "boom"], ["lam", "boom"]]
def cont_gen(tier):
    quick = tier == "quick"
    yield from batches(["cont"], (("lambda", e) for d in (0, 1, 2) for e in exprs(d, C_LEAVES, C_ECTX)))
    wide = [[t, e] for t in EWIDE if t not in ("and5", "mix5", "andall") for e in ("g", "boom", "data", ["or", "g"])]
    yield from batches(["cont"], (("lambda", e) for e in wide))
    yield from batches(["cont"], (("def", ["ret", e]) for e in wide))
    yield from batches(["cont"], (("def", [t, s]) for t in SWIDE if t not in PROTECTED for s in stmts(0, ["g", "boom", "it"])))
    yield from batches(["cont"], (("def", ["ret", e]) for d in (0, 1) for e in exprs(d, C_LEAVES, C_ECTX)))
    yield from batches(["cont"], (("def", s) for d in ((0, 1, 2) if quick else (0, 1, 2, 3)) for s in stmts(d, C_SLEAVES if d < 2 else ["boom", "it"], ctxs=C_SCTX)))
    for kind in ("gen", "genself", "method", "property", "classm", "static", "ec"):
        fin = ("ret",) if kind != "ec" else ("ec",)
        yield from batches(["cont"], ((kind, s) for d in ((0, 1) if quick else (0, 1, 2)) for s in stmts(d, C_SLEAVES, fin, C_SCTX) if ok(kind, s)))
def exprs(depth, leaves=LEAVES, ctxs=ECTX):
    if depth == 0:
        yield from leaves
        return
    for t in ctxs:
        for e in exprs(depth - 1, leaves, ctxs):
            yield [t, e]
def stmts(depth, leaves=SLEAVES, final=("ret",), ctxs=SCTX):
    if depth == 0:
        for f in final:
            for e in leaves:
                yield [f, e]
        return
    for t in ctxs:
        for s in stmts(depth - 1, leaves, final, ctxs):
            yield [t, s]

def ok(kind, s):
    """an escape out of a tail-called inner function happens after the call_ec block has been left, by design"""
    return not (kind == "ec" and (mentions(s, "nested") or mentions(s, "infunc")))
def mentions(item, what):
    return item == what or (isinstance(item, (list, tuple)) and any(mentions(x, what) for x in item))

def eq_gen(tier):
    quick = tier == "quick"
    # expressions
    ex = [e for d in (0, 1, 2) for e in exprs(d)]
    yield from batches(["tco"], ((k, e) for e in ex for k in ("lambda",)))
    yield from batches(["tco", "auto", "both"], (("def", ["ret", e]) for d in (0, 1) for e in exprs(d)))
    yield from batches(["tco"], (("lambda2", e) for d in (0, 1) for e in exprs(d)))
    yield from batches(["tco"], (("lambda", e) for e in exprs(3, ["g", "boom", "data"] if not quick else ["boom"], ECTX if not quick else ["then", "and", "or", "or3", "let", "do", "lam", "cond"])))
    wide = [[t, e] for t in EWIDE for e in ("g", "boom", "data", ["or", "g"], ["and", "boom"])] + [[o, [t, "g"]] for t in EWIDE for o in ("then", "and", "or", "let", "do", "cond")]
    yield from batches(["tco"], (("lambda", e) for e in wide))
    yield from batches(["tco", "auto", "both"], (("def", ["ret", e]) for e in wide))
    yield from batches(["tco", "auto", "both"], (("def", s) for d in (0, 1) for t in SWIDE for s0 in stmts(d, ["g", "boom", "it"]) for s in ([[t, s0]] if d == 0 else [[t, s0], [s0[0], [t, s0[1]]]])))
    # statements
    yield from batches(["tco", "auto", "both"], (("def", s) for d in (0, 1) for s in stmts(d)))
    yield from batches(["tco", "auto", "both"], (("def", s) for s in stmts(2, SLEAVES if not quick else ["boom", "it", ["and", "g"]])))
    yield from batches(["tco", "auto", "both"], (("def", s) for d in (0, 1, 2) for s in stmts(d, ["g", "boom"], ("def", "class"))))
    for kind in KINDS[1:]:
        fin = ("ret",) if kind != "ec" else ("ec",)
        yield from batches(["tco", "auto", "both"] if kind != "ec" else ["tco"], ((kind, s) for d in (0, 1) for s in stmts(d, final=fin) if ok(kind, s)))
    if not quick:
        yield from batches(["tco", "both"], (("def", s) for s in stmts(3, ["boom", "g"])))
        for kind in KINDS[1:]:
            fin = ("ret",) if kind != "ec" else ("ec",)
            yield from batches(["tco", "both"] if kind != "ec" else ["tco"], ((kind, s) for s in stmts(2, ["boom", "it", ["and", "g"]], final=fin) if ok(kind, s)))

# ---------------------------------------------------------------- tail chains run in constant stack
def path(kind, ctxs):
    if kind == "E":
        e = "hole"
        for t in reversed(ctxs): e = [t, e]
        return ["ret", e]
    s = ["ret", "hole"]
    for t in reversed(ctxs): s = [t, s]
    return s
C_PATHS = [("E", [t]) for t in C_ECTX] + [("S", [t]) for t in C_SCTX if t not in ("nested", "infunc")] + [("E", [])]
def cont_chain_gen(tier):
    one = C_PATHS
    two = [("E", list(p)) for p in itertools.product(C_ECTX, repeat=2)]
    ps = [[p, p] for p in one] + [[a, b] for a, b in itertools.combinations(one, 2)] + [[p, p] for p in two]
    for _, part in batches(None, ps, 16):
        yield ["cont", part]
TAILS = [t for t in SCTX if t not in PROTECTED and t not in ("nested", "infunc")]
def chain_gen(tier):
    quick = tier == "quick"
    one = [("E", [t]) for t in ECTX + EWIDE] + [("S", [t]) for t in TAILS + ["elif4", "except3"]] + [("E", [])]
    two = [("E", list(p)) for p in itertools.product(ECTX, repeat=2)] + [("S", list(p)) for p in itertools.product(TAILS, repeat=2)]
    for flavor in ("tco", "both"):
        # self-recursive; mutually recursive pairs
        ps = [[p, p] for p in one] + [[a, b] for a, b in itertools.combinations(one, 2)]
        ps += [[p, p] for p in two]
        if not quick:
            ps += [[a, b] for a in two for b in one[::3]]
        for _, part in batches(None, ps, 16):
            yield [flavor, part]

def chain_run(case):
    flavor, pairs = case
    defs, names, counts = [], [], []
    aif = uses_aif(pairs[0])
    it = "jt" if aif else "it"
    for i, (a, b) in enumerate(pairs):
        lines = []
        ks = []
        for me, other, (kind, ctxs) in ((f"p{i}", f"q{i}", a), (f"q{i}", f"p{i}", b)):
            R = Render(flavor, f"({other}(x - 1) if x else D())", it)
            lam = kind == "E" and me[0] == "q"
            if lam:
                lines += [f"{me} = lambda x, {it}=5: {R.E(path(kind, ctxs)[1])}"]
            else:
                lines += [f"def {me}(x, {it}=5):"] + ["    " + l for l in R.S(path(kind, ctxs))]
            ks.append(R.n)
        defs.append(indent("\n".join(lines)))
        names.append(f"p{i}")
        counts.append(max(ks))
    W = world(flavor)
    fs = macros.programs((AIF if aif else "") + HEAD[flavor] + indent(COMMON), defs, names, **W.given())
    for f, d, n, pair in zip(fs, defs, counts, pairs):
        if isinstance(f, macros.ExpansionError):
            raise mc.Violation(f"{flavor}: cannot expand\n{d}\n{f}")
        for V, bits in assignments(n):
            depths = []
            for N in (6, 40):
                del W.log[:]
                W.V, W.depths = V, []
                r = mc.outcome(f, N)
                depths.append(W.depths)
                mc.trace()
            del W.open_[:]
            mc.step(46)
            mc.check(bool(depths[0]) == bool(depths[1]) and r[0] == "ok", lambda: f"with {flavor}, conditions {bits}: {r}\n{d}")
            if depths[0] and depths[1]:
                mc.check(max(depths[0]) == max(depths[1]), lambda: f"with {flavor}, conditions {bits}: stack depth {max(depths[0])} after 6 tail calls, {max(depths[1])} after 40:\n{d}")
            mc.state((flavor, pair, bits, bool(depths[1])))

SPACES = [
    mc.Space("shapes", eq_gen, eq_run, "all tail-position programs: 11 leaf calls under all chains of up to 2 of 16 expression forms (3 over a subset; thorough: 3 over all), 8 leaves under all chains of up to 2 of 20 statement forms (thorough: 3), tail defs and classes, in functions, lambdas, methods, generators, async functions and escape blocks; tco, autoreturn and both; all truth assignments; result, exception, effects, open context managers", timeout=600),
    mc.Space("chains", chain_gen, chain_run, "self and mutual recursion through every tail position (chains of up to 2 forms, all pairs of single forms): equal stack depth after 6 and 40 tail calls", timeout=600),
]
