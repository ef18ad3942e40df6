"""L05: function notations. Programs in autocurry, multilambda, namedlambda, quicklambda, envify (and with tco), in every documented
combination, against the same program hand-written in plain Python; currying, prefix, names, quick lambdas, cond and aif on their own."""
from lib import mc, macros
import itertools

HEAD = ("from unpythonic.syntax import macros, autocurry, multilambda, namedlambda, quicklambda, envify, tco, fn, "
        "let, letseq, letrec, do, do0, local, aif, it, cond\n"
        "from unpythonic import curry, apply\n")
ORDER = ["quicklambda", "multilambda", "envify", "namedlambda", "autocurry", "tco"]   # the documented order

class Boom(Exception): pass

class World:
    def __init__(self): self.log = []
    def norm(self, v):
        if isinstance(v, (tuple, list)): return [type(v).__name__] + [self.norm(x) for x in v]
        if isinstance(v, dict): return ["dict"] + [[self.norm(k), self.norm(x)] for k, x in v.items()]
        if isinstance(v, (int, str, bool, float, type(None), bytes)): return v
        if isinstance(v, BaseException): return [type(v).__name__, self.norm(v.args)]
        return "<function>" if callable(v) else f"<{type(v).__name__}>"
    def given(self):
        log = self.log
        def V(k):
            log.append(k)
            return k
        def T(*args):
            log.append(self.norm(args))
            return args
        def boom(v):
            log.append(["boom", self.norm(v)])
            raise Boom(v)
        class Obj:
            def __init__(self, v=0): self.v = v
            def m(self, a, b): return T("m", self.v, a, b)
            @staticmethod
            def s(a): return T("s", a)
            @classmethod
            def c(cls, a): return T("c", a)
            def __call__(self, a): return T("call", self.v, a)
        class CM:
            def __init__(self, v): self.v = v
            def __enter__(self): log.append("enter"); return self.v
            def __exit__(self, *a): log.append(["exit", a[0] is not None])
        def decof(v):
            log.append(["decof", self.norm(v)])
            return lambda f: f
        return dict(V=V, T=T, boom=boom, Obj=Obj, OBJ=Obj(7), CM=CM, Boom=Boom, ident=lambda f: f, decof=decof, log=log)

def attempt(W, f, *args):
    del W.log[:]
    try:
        r = ["ok", W.norm(f(*args))]
    except Exception as e:
        r = ["exc", "NameError" if isinstance(e, NameError) else type(e).__name__, W.norm(e.args) if isinstance(e, Boom) else None]
    return r, list(W.log)

def observe(W, r):
    """what a program returned may hold functions; call them too"""
    return r

# ---------------------------------------------------------------- block combinations
class R:
    """renders one program. plain: hand-written Python; blocks: set of block macros in effect"""
    def __init__(self, plain, blocks):
        self.plain, self.blocks, self.n = plain, blocks, 0
        self.curried, self.multi = "autocurry" in blocks, "multilambda" in blocks
    def K(self):
        self.n += 1
        return f"V({self.n})"
    def S(self): return "T(x, y, z)"   # read all the names
    def tail(self, w):   # the last item of an and/or in tail position is moved into a let, where a walrus is local to that let
        return NONE if "tco" in self.blocks and "envify" not in self.blocks else w

CTX = {}
def ctx(f):
    CTX[f.__name__.rstrip("_")] = f
    return f
# a context takes (render, writable names, hole: writable names -> text)
NONE = frozenset()
X, XY, Y = frozenset("x"), frozenset("xy"), frozenset("y")
@ctx
def call1(r, w, H): return f"g({H(w)})"
@ctx
def call2l(r, w, H): return f"h({H(w)}, {r.S()})"
@ctx
def call2r(r, w, H): a = r.K(); return f"h({a}, {H(w)})"
@ctx
def split(r, w, H):
    a = r.K()
    return f"k3({a})({r.S()}, {H(w)})" if r.curried and not r.plain else f"k3({a}, {r.S()}, {H(w)})"
@ctx
def split3(r, w, H):
    a = r.K()
    return f"k3({a})({H(w)})({r.S()})" if r.curried and not r.plain else f"k3({a}, {H(w)}, {r.S()})"
@ctx
def splitkw(r, w, H):
    a = r.K()
    return f"k3(c={a})({H(w)})({r.S()})" if r.curried and not r.plain else f"(lambda v, u: k3(u, {r.S()}, c=v))({a}, {H(w)})"
@ctx
def through(r, w, H):
    a = r.K()
    # (a tail call under tco jumps past the currying of the target: not claimed)
    return f"ho({a}, {H(w)})" if r.curried and not r.plain and "tco" not in r.blocks else f"(lambda v, u: ho(v)(u))({a}, {H(w)})"
@ctx
def kwcall(r, w, H): a = r.K(); return f"h(b={H(w)}, a={a})"
@ctx
def star(r, w, H): a = r.K(); return f"h(*[{a}, {H(w)}])"
@ctx
def dstar(r, w, H): a = r.K(); return f"h(**{{'a': {H(w)}, 'b': {a}}})"
@ctx
def lam(r, w, H): a = r.K(); return f"(lambda x: T({H(X)}, x, y, z))({a})"
@ctx
def lamtail(r, w, H): a = r.K(); return f"(lambda x: {H(X)})({a})"
@ctx
def lam2(r, w, H): a, b = r.K(), r.K(); return f"(lambda x, y: T({H(XY)}, x, y, z))({a}, {b})"
@ctx
def lamd(r, w, H): a, b = r.K(), r.K(); return f"(lambda y, x={b}: T({H(XY)}, x, y, z))({a})"
@ctx
def lamdef(r, w, H): return f"(lambda x={H(w)}: {r.S()})()"
@ctx
def lamself(r, w, H): return f"(lambda x=x, *, y=T(y, {H(w)}): T({r.S()}, x, y))()"
@ctx
def lamstar(r, w, H): a, b = r.K(), r.K(); return f"(lambda *x, **y: T({H(XY)}, x, y, z))({a}, k={b})"
@ctx
def lampos(r, w, H): a, b = r.K(), r.K(); return f"(lambda x, /, *, y: T({H(XY)}, x, y, z))({a}, y={b})"
@ctx
def lamlam(r, w, H): a, b = r.K(), r.K(); return f"(lambda x: lambda y: T({H(Y)}, x, y, z))({a})({b})"
@ctx
def lam0(r, w, H): return f"(lambda: {H(NONE)})()"
@ctx
def lamin(r, w, H): return f"T((lambda x: T(x, y))({H(w)}), x, y)"
@ctx
def lamwr(r, w, H): a = r.K(); return f"(lambda x: T((x := {H(X)}), x))({a})"
@ctx
def fnarg(r, w, H):
    a = r.K()
    return f"(lambda u: h(u, {a}))({H(w)})" if r.plain else f"fn[h(_, {a})]({H(w)})"
@ctx
def fnbody(r, w, H):
    a = r.K()
    return f"(lambda u: h(u, {H(NONE)}))({a})" if r.plain else f"fn[h(_, {H(NONE)})]({a})"
@ctx
def fn2(r, w, H):
    a = r.K()
    return f"(lambda u, v: T(u, x, [v]))({H(w)}, {a})" if r.plain else f"fn[T(_, x, [_])]({H(w)}, {a})"
@ctx
def let_(r, w, H):
    a = r.K()
    return f"(lambda x, v: T(x, v, y))({a}, {H(w)})" if r.plain else f"let[[x << {a}, v << {H(w)}] in T(x, v, y)]"
@ctx
def letbody(r, w, H):
    a = r.K()
    return f"(lambda x: T({H(NONE)}, x, y))({a})" if r.plain else f"let[[x << {a}] in T({H(NONE)}, x, y)]"
@ctx
def letlam(r, w, H):
    a = r.K()
    return f"(lambda x: T({H(X)}, y))({a})" if r.plain else f"letrec[[p << (lambda x: T({H(X)}, y))] in p({a})]"
@ctx
def letlist(r, w, H):
    a, b = r.K(), r.K()
    return f"(lambda y: ({b}, T({H(NONE)}, y))[-1])({a})" if r.plain else f"let[[y << {a}] in [{b}, T({H(NONE)}, y)]]"
@ctx
def do_(r, w, H):
    a = r.K()
    return f"(lambda x: (T(x, y), {H(NONE)})[-1])({a})" if r.plain else f"do[local[x << {a}], T(x, y), {H(NONE)}]"
@ctx
def doloc(r, w, H):
    a = r.K()
    return f"({a}, (lambda v: T(v, x, y))({H(NONE)}))[1]" if r.plain else f"do[{a}, local[v << {H(NONE)}], T(v, x, y)]"
@ctx
def do0_(r, w, H):
    a = r.K()
    return f"({H(NONE)}, {a})[0]" if r.plain else f"do0[{H(NONE)}, {a}]"
@ctx
def aiftest(r, w, H):
    a = r.K()
    return f"(lambda it: T(it, x) if it else {a})({H(w)})" if r.plain else f"aif[{H(w)}, T(it, x), {a}]"
@ctx
def aifthen(r, w, H):
    a, b = r.K(), r.K()
    return f"(lambda it: T(it, {H(NONE)}, it) if it else {b})({a})" if r.plain else f"aif[{a}, T(it, {H(NONE)}, it), {b}]"
@ctx
def aifelse(r, w, H):
    a, b = r.K(), r.K()
    return f"(lambda it: {a} if it else T({H(NONE)}, it))({b} * 0)" if r.plain else f"aif[{b} * 0, {a}, T({H(NONE)}, it)]"
@ctx
def aiflist(r, w, H):
    a, b, c = r.K(), r.K(), r.K()
    return (f"(lambda it: ({b}, T(it, {H(NONE)}))[-1] if it else {c})(({a}, x)[-1])" if r.plain
            else f"aif[[{a}, x], [{b}, T(it, {H(NONE)})], {c}]")
@ctx
def condtest(r, w, H):
    a, b = r.K(), r.K()
    return f"({a} if not {H(w)} else {b} if x else {r.S()})" if r.plain else f"cond[not {H(w)}, {a}, x, {b}, {r.S()}]"
@ctx
def condthen(r, w, H):
    a, b = r.K(), r.K()
    return f"({a} if not {b} else {H(w)} if {r.S()} else 0)" if r.plain else f"cond[not {b}, {a}, {r.S()}, {H(w)}, 0]"
@ctx
def condelse(r, w, H):
    a, b = r.K(), r.K()
    return f"({a} if not {b} else ({r.S()}, {H(NONE)})[-1])" if r.plain else f"cond[not {b}, {a}, [{r.S()}, {H(NONE)}]]"
@ctx
def comp(r, w, H): a, b = r.K(), r.K(); return f"(lambda: [T({H(NONE)}, x, y) for x in ({a}, {b})])()"
@ctx
def compiter(r, w, H): return f"[T(x, y) for x in T((lambda: {H(NONE)})(), x)]"
@ctx
def compif(r, w, H): a = r.K(); return f"(lambda: [x for x in (x, {a}) if T({H(NONE)}, x)])()"
@ctx
def dcomp(r, w, H): a = r.K(); return f"(lambda: {{y: T({H(NONE)}, x, y) for y in ({a}, x) for x in (y,)}})()"
@ctx
def gen(r, w, H): a = r.K(); return f"list(T({H(NONE)}, x) for x in T({a}, x))"
@ctx
def ifthen(r, w, H): a = r.K(); return f"({H(w)} if {a} else {r.S()})"
@ctx
def and_(r, w, H): a = r.K(); return f"({a} and {H(r.tail(w))})"
@ctx
def or_(r, w, H): a = r.K(); return f"(not {a} or {H(r.tail(w))})"
@ctx
def dictlam(r, w, H): return f"{{'f': lambda: {H(NONE)}, x: lambda: {r.S()}, 7: lambda: y}}['f']()"
@ctx
def dictkey(r, w, H): a = r.K(); return f"{{bool({H(w)}): lambda: {a}, 'q': (lambda: x)()}}"
@ctx
def kwlam(r, w, H): a = r.K(); return f"app(f=lambda x: T({H(X)}, x, y), v={a})"
@ctx
def kwfunc(r, w, H): a = r.K(); return f"(lambda x, **y: T({H(XY)}, x, y))({a}, k=(lambda: x)())"
@ctx
def walruslam(r, w, H): return f"(wl := lambda: T({H(NONE)}, x))()"
@ctx
def listlam(r, w, H): return f"[lambda: {H(NONE)}, lambda: x][0]()"
@ctx
def deco(r, w, H): a = r.K(); return f"ident(lambda x: T({H(X)}, x, y))({a})"
@ctx
def curried(r, w, H): a, b = r.K(), r.K(); return f"curry(lambda x, y: T({H(XY)}, x, y))({a})({b})"
@ctx
def currynest(r, w, H): a, b = r.K(), r.K(); return f"curry(lambda x: lambda y: T({H(Y)}, x, y))({a})({b})"
@ctx
def meth(r, w, H): a = r.K(); return f"OBJ.m({a}, {H(w)})"
@ctx
def obj(r, w, H): a = r.K(); return f"Obj({H(w)})({a})"
@ctx
def clsm(r, w, H): return f"T(Obj.s({H(w)}), Obj.c(x), OBJ.s(y))"
@ctx
def builtin(r, w, H): a = r.K(); return f"sorted([bool({H(w)}), isinstance({a}, str)], key=lambda x: T(x, y)[0])"
@ctx
def fstr(r, w, H): return f"f'{{bool({H(w)})}}{{bool(x)}}'"
@ctx
def subscript(r, w, H): return f"[{H(w)}, {r.S()}][(lambda x: x)(0)]"
@ctx
def attr(r, w, H): return f"T(Obj({H(w)}).v, x)"
@ctx
def multi(r, w, H):
    a, b = r.K(), r.K()
    if not r.multi: return f"(lambda x: T({a}, {H(NONE)}))({b})"
    return f"(lambda x: ({a}, T({H(NONE)}, x, y))[-1])({b})" if r.plain else f"(lambda x: [{a}, T({H(NONE)}, x, y)])({b})"
@ctx
def multiloc(r, w, H):
    a = r.K()
    if not r.multi: return f"(lambda x: T(x, {H(NONE)}))({a})"
    return f"(lambda x: (lambda v: T(v, x))({H(NONE)}))({a})" if r.plain else f"(lambda x: [local[v << {H(NONE)}], T(v, x)])({a})"
@ctx
def multilist(r, w, H):
    a = r.K()
    return f"(lambda x: [[{H(NONE)}, x]])({a})" if r.multi and not r.plain else f"(lambda x: [{H(NONE)}, x])({a})" if r.multi else f"(lambda: [{a}, {H(NONE)}])()"

LEAVES = {
    "read": lambda r, w: r.S(),
    "val": lambda r, w: r.K(),
    "write": lambda r, w: f"T((x := {r.K()}), x, y)" if "x" in w else f"T((y := {r.K()}), y, x)" if "y" in w else r.S(),
    "boom": lambda r, w: f"boom({r.K()})",
    "self": lambda r, w: f"(lambda x=x: (lambda y: T(x, y, z)))({r.K()})(y)",
}

# statement contexts: (render, hole) -> lines of the body of a function of x, y, z
ST = {}
def st(f):
    ST[f.__name__.rstrip("_")] = f
    return f
XYZ = frozenset("xyz")
@st
def ret(r, H): return [f"return {H(XYZ)}"]
@st
def asg(r, H): return [f"x = {H(XYZ)}", "return T(x, y, z)"]
@st
def aug(r, H): return [f"x += len([{H(XYZ)}])", f"y, *z = T({r.K()}, y, z)", "return T(x, y, z)"]
@st
def ann(r, H): return [f"x: int = {H(XYZ)}", "y: str", "return T(x, y, z)"]
@st
def for_(r, H): return [f"for x in T({H(XYZ)}, x):", "    T(x, y)", "else:", "    y = 5", "return T(x, y, z)"]
@st
def with_(r, H): return [f"with CM({H(XYZ)}) as x:", "    z = T(x, y)", "return T(x, y, z)"]
@st
def exc(r, H): return ["try:", f"    x = {H(XYZ)}", "except Boom as err:", "    y = err", "return T(x, y, z)"]
@st
def fin(r, H): return ["try:", f"    return {H(XYZ)}", "finally:", "    T(x, y, z)"]
@st
def ddef(r, H): return [f"def f(x, y=y, *, z={H(XYZ)}):", '    "doc"', "    return T(x, y, z, f.__doc__)", f"return T(f({r.K()}), x, y, z)"]
@st
def dbody(r, H): return [f"def f(x, /, *y, k, **kw_):", f"    return T({H(XY)}, x, y, z, k, kw_)", f"return T(f({r.K()}, {r.K()}, k=x, j=y), x, y)"]
@st
def ddeco(r, H): return [f"@decof({H(XYZ)})", "@decof(x)", "def f(x):", "    return T(x, y)", f"return T(f({r.K()}), x, y)"]
@st
def shadow(r, H): return ["def f():", f"    x = {r.K()}", "    for z in (x, 2): pass", f"    x = {H(NONE)}", "    return T(x, y, z)", "return T(f(), x, y, z)"]
@st
def nonloc(r, H): return ["def f():", "    nonlocal x", f"    x = {H(NONE)}", "    return T(x, y, z)", "return T(x, f(), x, y, z)"]
@st
def glob_(r, H): return ["def f():", "    global gx", f"    gx = {H(NONE)}", "    return T(x, gx)", "return T(f(), x)"]
@st
def cls(r, H): return ["class A:", f"    w = {H(NONE)}", "    def m(self, y, z=z): return T(self.w, x, y, z)",
                       "class B:", "    x = 3", "    y = T(x, z)", "    def m(self): return T(self.x, x, y)", f"return T(A.w, A().m({r.K()}), B().m(), x, y)"]
@st
def clsinit(r, H): return ["class A(Obj):", "    def __init__(self, x):", f"        super().__init__({H(X)})", "        self.x = x",
                           "    @property", "    def p(self): return T(self.v, self.x, x)", f"return T(A({r.K()}).p, x)"]
@st
def genf(r, H): return ["def f(x):", f"    x = yield {H(X)}", "    yield T(x, y)", f"i = f({r.K()})", "return T(next(i), i.send(5), x)"]
@st
def lamasg(r, H): return [f"f = lambda x: {H(X)}", "g_, h_ = (lambda: x), (lambda y: T(x, y))", f"return T(f({r.K()}), g_(), h_({r.K()}))"]
@st
def clo(r, H): return ["fs = []", "def f(x):", f"    fs.append(lambda: T(x, {H(NONE)}))", "    x = T(x, y)", "    return x", f"return T(f({r.K()}), fs[0](), x)"]
@st
def rec(r, H): return ["def f(n, x):", f"    if n: return f(n - 1, T(x, {H(NONE)}))", "    return T(n, x)", f"return f(2, {r.K()})"]
@st
def delx(r, H): return ["t = T(x)", f"x = {H(XYZ)}", "u = (lambda t: (lambda t: T(t, x))(t))(t)", "return T(t, u, x)"]
@st
def docst(r, H): return [f"f = lambda x, y=2: {H(XY)}", f"return T(f({r.K()}), f(x=1), f(1, y={r.K()}))"]
@st
def match_(r, H): return [f"match T({H(XYZ)}, x):", "    case [p, *rest]: return T(p, rest, x)", "    case _: return x"]

def program(item, plain, blocks):
    s, chain, leaf = item
    r = R(plain, blocks)
    def hole(i):
        if i == len(chain):
            return lambda w: LEAVES[leaf](r, w)
        return lambda w: CTX[chain[i]](r, w, hole(i + 1))
    return ST[s](r, hole(0))

SHARED = """def g(a): return T("g", a)
def h(a, b): return T("h", a, b)
def k3(a, b, c): return T("k3", a, b, c)
def ho(a): return lambda b: T("ho", a, b)
def app(f, v): return f(v)
"""
def src(items, plain, blocks):
    out = [] if plain else [HEAD]
    ind = ""
    if not plain and blocks:
        out.append(f"with {', '.join(b for b in ORDER if b in blocks)}:")
        ind = "    "
    out += [ind + l for l in SHARED.splitlines()]
    for i, it in enumerate(items):
        out.append(f"{ind}def p{i}(x, y, z):")
        out += [ind + "    " + l for l in program(it, plain, blocks)]
    return "\n".join(out) + "\n"

def blk_run(case):
    items, blocks = case
    Wp, Wm = World(), World()
    nsp = Wp.given()
    exec("from unpythonic import curry, apply", nsp)
    try:
        exec(compile(src(items, True, blocks), "<plain>", "exec"), nsp)
    except SyntaxError:   # not a Python program (an assignment expression in an iterable of a comprehension)
        if len(items) > 1:
            for it in items: blk_run([[it], blocks])
        return
    try:
        nsm = macros.module(src(items, False, blocks), **Wm.given())
    except macros.ExpansionError as e:
        if len(items) > 1:
            for it in items: blk_run([[it], blocks])
        raise mc.Violation(f"cannot expand: {e}\n{src(items, False, blocks)}")
    for i, it in enumerate(items):
        nsp["gx"] = nsm["gx"] = 0
        want = attempt(Wp, nsp[f"p{i}"], 1, 2, 3)
        got = attempt(Wm, nsm[f"p{i}"], 1, 2, 3)
        mc.trace()
        mc.step(len(got[1]))
        mc.check(got == want, lambda: f"{src([it], False, blocks)[len(HEAD):]}\n  gives {got}\n  expected {want}\n  as\n{src([it], True, blocks)}")
        mc.state((it, want))

def batches(it, n):
    it = iter(it)
    while b := list(itertools.islice(it, n)):
        yield b

SINGLES = [[b] for b in ORDER]
PAIRS = [list(p) for p in itertools.combinations(ORDER, 2)]
FULL = ORDER
LISPY = ["quicklambda", "multilambda", "namedlambda", "tco"]
def blk_gen(tier):
    quick = tier == "quick"
    cs = list(CTX)
    one = [["ret", [c], l] for c in cs for l in LEAVES]
    two = [["ret", [c, d], l] for c in cs for d in cs for l in (["write"] if quick else ["read", "write", "boom"])]
    stm = [[s, [c], l] for s in ST for c in cs for l in (["write"] if quick else ["read", "write", "boom"])]
    sts = [[s, [], l] for s in ST for l in LEAVES]
    for blocks in SINGLES + PAIRS + [FULL, LISPY] + ([] if quick else [list(p) for p in itertools.combinations(ORDER, 3)]):
        for b in batches(sts + (one if quick is False or len(blocks) != 2 else one[1::4]), 40): yield [b, blocks]
    if quick:
        for i, b in enumerate(batches(two, 40)):   # each pair of contexts under one of the macros, rotating, and stretches under all
            yield [b, [["envify"], ["namedlambda"], ["autocurry"], ["multilambda"], FULL][i % 5]]
        for i, b in enumerate(batches(stm, 40)):
            yield [b, [["envify"], FULL, ["envify", "autocurry"], ["namedlambda"], ["autocurry"]][i % 5]]
    else:
        for blocks in SINGLES + [FULL]:
            for b in batches(two + stm, 40): yield [b, blocks]
        for b in batches((["ret", list(p), "write"] for p in itertools.product(cs, repeat=3)), 60): yield [b, ["envify"]]


# ---------------------------------------------------------------- currying
CUR_HEAD = HEAD + "from unpythonic.syntax import macros, dlet, blet\n"
# name -> definition in the block (a function of three arguments returning T(name, a, b, c))
CUR_IN = {
    "def_": "def F(a, b, c): return T(a, b, c)",
    "lam": "F = lambda a, b, c: T(a, b, c)",
    "deco": "@ident\ndef F(a, b, c): return T(a, b, c)",
    "decolam": "F = ident(lambda a, b, c: T(a, b, c))",
    "manual": "@curry\ndef F(a, b, c): return T(a, b, c)",
    "manuallam": "F = curry(lambda a, b, c: T(a, b, c))",
    "let": "F = let[[z << 1] in (lambda a, b, c: T(a, b, c))]",
    "letb": "F = let[[z << (lambda a, b, c: T(a, b, c))] in z]",
    "do": "F = do[local[z << (lambda a, b, c: T(a, b, c))], z]",
    "fn": "F = fn[T(_, _, _)]",
    "ret": "def mk(): return lambda a, b, c: T(a, b, c)\nF = mk()",
    "retdef": "def mk(x):\n    def f(a, b, c): return T(a, b, c)\n    return f\nF = mk(0)",
    "default": "F = (lambda f=(lambda a, b, c: T(a, b, c)): f)()",
    "defdefault": "def mk(f=lambda a, b, c: T(a, b, c)): return f\nF = mk()",
    "curryin": "F = curry(lambda x: lambda a, b, c: T(a, b, c))(0)",
    "list": "F = [lambda a, b, c: T(a, b, c)][0]",
    "cond": "F = cond[0, 1, lambda a, b, c: T(a, b, c)]",
    "aif": "F = aif[1, (lambda a, b, c: T(a, b, c)), 2]",
    "meth": "class A:\n    def m(self, a, b, c): return T(a, b, c)\nF = A().m",
    "smeth": "class A:\n    @staticmethod\n    def m(a, b, c): return T(a, b, c)\nF = A.m",
    "cmeth": "class A:\n    @classmethod\n    def m(cls, a, b, c): return T(a, b, c)\nF = A().m",
    "init": "class B:\n    def __init__(self, a, b, c): T(a, b, c)\nF = lambda a, b, c: (B(a, b, c), ('T', a, b, c))[1][1:]",
    "dlet_": "@dlet(z << 1)\ndef F(a, b, c): return T(a, b, c)",
    "gen": "def gen(): yield lambda a, b, c: T(a, b, c)\nF = next(gen())",
    "comp": "F = [(lambda a, b, c: T(a, b, c)) for i in (1,)][0]",
    "nest1": "F = lambda a: lambda b: lambda c: T(a, b, c)",
    "nest2": "F = lambda a, b: lambda c: T(a, b, c)",
    "nest3": "def F(a):\n    def g(b, c): return T(a, b, c)\n    return g",
}
CUR_OUT = {   # defined before the block, called in it
    "odef": "def F(a, b, c): return T(a, b, c)",
    "olam": "F = lambda a, b, c: T(a, b, c)",
    "ometh": "class A:\n    def m(self, a, b, c): return T(a, b, c)\nF = A().m",
    "ocls": "class A:\n    def __new__(cls, a, b, c): return T(a, b, c)\nF = A",
    "ocall": "class A:\n    def __call__(self, a, b, c): return T(a, b, c)\nF = A()",
    "opartial": "from functools import partial\nF = partial(lambda x, a, b, c: T(a, b, c), 0)",
    "ostar": "F = lambda a, *bc: T(a, *bc)",
    "obuiltin": "F = V3",
}
def cur_blocks(tier):
    yield from (["autocurry"], ["namedlambda", "autocurry"], ["quicklambda", "multilambda", "autocurry"], ["envify", "autocurry"])
    if tier != "quick":
        for n in range(4):
            for p in itertools.combinations([b for b in ORDER if b not in ("autocurry", "tco")], n): yield list(p) + ["autocurry"]
def cur_gen(tier):
    for blocks in cur_blocks(tier):
        yield [sorted(CUR_IN), blocks, "in"]
        yield [sorted(CUR_OUT), blocks, "out"]
SPLITS = [[3], [1, 2], [2, 1], [1, 1, 1]]
def cur_steps(split, star):
    """source texts of the calls"""
    vals, texts = ["V(1)", "V(2)", "V(3)"], []
    for n in split:
        take, vals = vals[:n], vals[n:]
        texts.append("(*[" + ", ".join(take) + "])" if star else "(" + ", ".join(take) + ")")
    return "".join(texts)
def cur_run(case):
    names, blocks, where = case
    W = World()
    given = W.given()
    given["V3"] = given["T"]
    defs, calls = [], []
    for name in names:
        d = (CUR_IN if where == "in" else CUR_OUT)[name].splitlines()
        defs += [l.replace("F", f"F_{name}", 1) if l.startswith(("def F", "F =")) else l for l in d]
        for i, sp in enumerate(SPLITS):
            if (name in ("ostar", "obuiltin")) and len(sp) > 1: continue
            for star in (0, 1):
                calls.append((name, sp, star, f"c_{name}_{i}_{star}"))
    callsrc = [f"def {c}(): return F_{name}{cur_steps(sp, star)}" for name, sp, star, c in calls]
    blk = f"with {', '.join(b for b in ORDER if b in blocks)}:\n"
    ind = lambda ls: "".join("    " + l + "\n" for l in ls)
    flat = lambda ls: "".join(l + "\n" for l in ls)
    outside = [f"def o{c}(): return F_{name}{cur_steps(sp, star)}" for name, sp, star, c in calls]
    if where == "in":
        text = CUR_HEAD + blk + ind(defs) + ind(callsrc) + flat(outside)
    else:
        text = CUR_HEAD + flat(defs) + blk + ind(callsrc)
    ns = macros.module(text, **given)
    for name, sp, star, c in calls:
        for f in [c] + (["o" + c] if where == "in" else []):
            got = attempt(W, ns[f])
            mc.trace(); mc.step()
            want = (["ok", ["tuple", 1, 2, 3]], [1, 2, 3, ["tuple", 1, 2, 3]])
            mc.check(got == want, lambda: f"with {blocks}: {(CUR_IN if where == 'in' else CUR_OUT)[name]}\ncalled {'outside' if f[0] == 'o' else 'inside'} the block as F{cur_steps(sp, star)}: {got}")
            mc.state((name, sp, f))
    if where == "out":   # functions that cannot be inspected are called at once
        src2 = HEAD + blk + ind(["def u0(): return [next(iter([V(1), 2])), getattr(OBJ, 'v'), max(V(3), 2), {1: 2}.pop(1), [5, 6].pop(), dict(a=V(7)), 'ab'.find('b'), len(range(V(4)))]",
                                 "def u1(): return [list(map(lambda x: x + 1, [V(1)])), list(zip([1], [2])), isinstance(V(2), int), int('7'), getattr(OBJ, 'zz', V(9)), sum([1, V(2)])]",
                                 "def u2(): return type(OBJ).__name__, vars(OBJ), {1: 2}.get(3, V(4)), {1: 2}.pop(7, V(5)), next(iter([]), V(6)), set([V(7)]).pop()"])
        ns = macros.module(src2, **given)
        for f, want in (("u0", (["ok", ["list", 1, 7, 3, 2, 6, ["dict", ["a", 7]], 1, 4]], [1, 3, 7, 4])),
                        ("u1", (["ok", ["list", ["list", 2], ["list", ["tuple", 1, 2]], True, 7, 9, 3]], [1, 2, 9, 2])),
                        ("u2", (["ok", ["tuple", "Obj", ["dict", ["v", 7]], 4, 5, 6, 7]], [4, 5, 6, 7]))):
            got = attempt(W, ns[f])
            mc.trace()
            mc.check(got == want, lambda: f"with {blocks}: builtins in {f}: {got}, expected {want}")

# ---------------------------------------------------------------- names of lambdas
L0, L1 = "lambda: 1", "lambda x, y=2: x"
# position -> (source with {L}, expression giving the function, expected name or None for source location)
NAMES = {
    "assign": ("f = {L}", "f", "f"),
    "walrus": ("t = [(f := {L}), 2]", "t[0]", "f"),
    "kwarg": ("t = KW(f={L}, g=1)", "t['f']", "f"),
    "kwarg2": ("t = KW(g=1, **{{}}, f={L})", "t['f']", "f"),
    "dict": ("t = {{'f': {L}, 'g': 3}}", "t['f']", "f"),
    "dictint": ("t = {{1: {L}}}", "t[1]", None),
    "dictexpr": ("t = {{'f' + 'g': {L}}}", "t['fg']", None),
    "dictnone": ("t = {{None: {L}}}", "t[None]", None),
    "let": ("t = let[[f << ({L})] in f]", "t", "f"),
    "letw": ("t = let[f := ({L})][f]", "t", "f"),
    "lettuple": ("t = let[(f, {L})][f]", "t", "f"),
    "letseq": ("t = letseq[[g << 1, f << ({L})] in f]", "t", "f"),
    "letrec": ("t = letrec[[g << 1, f << ({L})] in f]", "t", "f"),
    "letwhere": ("t = let[f, where[f << ({L})]]", "t", "f"),
    "letassign": ("t = let[[f << None] in [f << ({L}), f]]", "t", "f"),
    "do": ("t = do[local[f << ({L})], f]", "t", "f"),
    "dow": ("t = do[local[f := ({L})], f]", "t", "f"),
    "dlet": ("@dlet(f << ({L}))\ndef t(): return f", "t()", "f"),
    "list": ("t = [{L}]", "t[0]", None),
    "pair": ("t, s = {L}, 1", "t", None),
    "multi": ("t = s = {L}", "t", None),
    "arg": ("t = T({L}, 2)", "t[0]", None),
    "ret": ("def t(): return {L}", "t()", None),
    "default": ("def t(g={L}): return g", "t()", None),
    "lamdefault": ("t = lambda g={L}: g", "t()", None),
    "lambody": ("t = lambda: {L}", "t()", None),
    "lambodyassign": ("t = lambda: (f := {L})", "t()", "f"),
    "argassign": ("t = T((f := {L}))", "t[0]", "f"),
    "kwfunc": ("t = (lambda **k: (f := {L}))(a=1)", "t", "f"),
    "kwin": ("t = KW(g=KW(f={L}))", "t['g']['f']", "f"),
    "dictin": ("t = {{'g': {{'f': {L}}}}}", "t['g']['f']", "f"),
    "dictpos": ("t = {{'g': [{L}]}}", "t['g'][0]", None),
    "inassign": ("t = [{L}, lambda: 1]", "t[0]", None),
    "func": ("def t():\n    f = {L}\n    return f", "t()", "f"),
    "lambdainner": ("g = lambda: KW(f={L})", "g()['f']", "f"),
    "letbody": ("t = let[[g << 1] in KW(f={L})]", "t['f']", "f"),
    "letbodypos": ("t = let[[g << 1] in ({L})]", "t", None),
    "dobody": ("t = do[1, [{L}]]", "t[0]", None),
    "cond": ("t = cond[1, ({L}), 2]", "t", None),
    "comp": ("t = [{L} for _i in (1,)]", "t[0]", None),
}
SHAPES = {"bare": "{L}", "deco": "ident({L})", "deco2": "ident(ident({L}))", "curry": "curry({L})"}
def nam_gen(tier):
    combos = [["namedlambda"], ["namedlambda", "autocurry"], ["envify", "namedlambda"], ["multilambda", "namedlambda"], ["quicklambda", "namedlambda"],
              ["namedlambda", "tco"], ["namedlambda", "autocurry", "tco"], ORDER]
    for blocks in combos:
        for sh in SHAPES:
            yield [blocks, sh]
def nam_run(case):
    blocks, sh = case
    W = World()
    given = W.given()
    given["KW"] = dict
    lines = (HEAD + "from unpythonic.syntax import macros, dlet, where\n" + f"with {', '.join(b for b in ORDER if b in blocks)}:").splitlines()
    want = []
    for pos, (text, expr, name) in NAMES.items():
        if name is None and sh != "bare": continue   # the location goes to the literal lambda, inside the decorators
        for li, L in enumerate((L0, L1)):
            t = text.format(L="(" + SHAPES[sh].format(L=L) + ")" if pos == "comp" or "g={L}" in text else SHAPES[sh].format(L=L))
            first = len(lines) + 1
            body = t.splitlines()
            at = first + next(i for i, l in enumerate(body) if "lambda" in l.replace("t = lambda", "") or len(body) == 1)
            lines.append(f"    def n_{pos}_{li}():")
            lines += ["        " + l for l in body] + [f"        return {expr}"]
            want.append((f"n_{pos}_{li}", name, at + 1, t))
    ns = macros.module("\n".join(lines) + "\n", **given)
    for fn_, name, line, t in want:
        mc.trace(); mc.step()
        try:
            got = ns[fn_]().__name__
        except Exception as e:
            raise mc.Violation(f"with {blocks}: {t}: {type(e).__name__}: {e}")
        if name is None:
            mc.check(got.startswith("<lambda at ") and got.endswith(f":{line}>"), lambda: f"with {blocks}: name of the lambda (line {line}) in\n{t}\nis {got!r}")
        else:
            mc.check(got == name, lambda: f"with {blocks}: name of the lambda in\n{t}\nis {got!r}, expected {name!r}")
        mc.state((fn_, name))

# ---------------------------------------------------------------- prefix
PRE_HEAD = "from unpythonic.syntax import macros, prefix, autocurry, q, u, kw, let, letseq, letrec, do, local, cond, aif, it, dlet\n"
def tuples(level, depth, path, markers_set):
    """all prefix tuples at a quote level: (prefix text, plain text)"""
    for markers in markers_set:
        l, ok = level, True
        for m in markers:
            l += 1 if m == "q" else -1
            ok = ok and l >= 0
        if not ok: continue
        mk = [m for m in markers]
        e0 = list(elements(l, depth - 1, path + "0"))
        e1 = list(elements(l, depth - 1, path + "1"))
        tup = lambda xs: "(" + ", ".join(xs) + ("," if len(xs) == 1 else "") + ")"
        if l > 0:
            for a in e0:
                yield tup(mk + [a[0]]), tup([a[1]])
            for a, b in itertools.chain(((e0[0], b) for b in e1), ((a, e1[0]) for a in e0[1:])):
                yield tup(mk + [a[0], b[0]]), tup([a[1], b[1]])
        else:
            yield tup(mk + ["Z"]), "Z()"
            for a in e0:
                yield tup(mk + ["K", a[0]]), f"K({a[1]})"
                yield tup(mk + ["K", f"kw(a={a[0]})"]), f"K(a={a[1]})"
            for a, b in itertools.chain(((e0[0], b) for b in e1), ((a, e1[0]) for a in e0[1:])):
                yield tup(mk + ["K", a[0], b[0]]), f"K({a[1]}, {b[1]})"
                yield tup(mk + ["K", f"kw(a={a[0]})", b[0]]), f"K({b[1]}, a={a[1]})"
                yield tup(mk + ["K", f"kw(a={a[0]})", f"kw(b={b[0]})"]), f"K(a={a[1]}, b={b[1]})"
                yield tup(mk + ["K", f"kw(a={a[0]}, b=1)", f"kw(a={b[0]})"]), f"K(b=1, a={b[1]})"
                yield tup(mk + ["K", f"*[{a[0]}]", f"kw(b={b[0]})"]), f"K(*[{a[1]}], b={b[1]})"
            if depth > 1:   # the operator is itself a call
                inner = ("M", "V('m')") if l == 0 else None
                yield tup(mk + ["(M, V('m'))", e0[0][0]]), f"M(V('m'))({e0[0][1]})"
MARKERS = [[], ["q"], ["u"], ["q", "u"], ["q", "q"], ["u", "u"], ["u", "q"]]
def elements(level, depth, path):
    yield f"V('{path}')", f"V('{path}')"
    if depth <= 0: return
    yield "()", "()"
    inner = list(tuples(level, depth, path, MARKERS if depth < 2 else MARKERS[:4]))
    if depth >= 2: inner = inner[::3] + inner[1:2]
    yield from inner
    p, r = inner[-1]
    for c in ("[{}, 1]", "{{'k': {}}}", "(lambda: {})()", "(lambda x={}: x)()", "({} if V(1) else 2)", "[{} for _i in V2]", "IX[{}, 5]", "IX[1:{}]", "K1(1, {})", "K2({})"):
        yield c.format(p), c.format(r)
def pre_ctx():
    return {
        "ret": (["return {}"],) * 2,
        "asg": (["a, b = {}, 2", "return a"], ["a, b = {}, 2", "return a"]),
    }
PRE_ST = {   # statement -> (prefix lines, plain lines)
    "ret": (["return {}"], ["return {}"]),
    "expr": (["{}", "return 1"], ["{}", "return 1"]),
    "asg": (["[a, b] = [{}, 2]", "(a, b) = [b, a]", "for (a, c) in [[1, b]]: pass", "return [a, b, c]"],) * 2,
    "default": (["def f(x={}, *, y={}): return [x, y]", "return f()"],) * 2,
    "let": (["return let[(x, {})][[1, [x, {}]]]"], ["return [(lambda x: [x, {}])({})][0]"]),
    "let2": (["return let[((x, {}), (y, 2)) in [[x, y]]]"], ["return (lambda x, y: [x, y])({}, 2)"]),
    "do": (["return do[local[x << {}], V(2), [x, {}]]"], ["x = {}", "V(2)", "return [x, {}]"]),
    "cond": (["return cond[V(0), 1, V(2), {}, 3]"], ["return 1 if V(0) else {} if V(2) else 3"]),
    "aif": (["return aif[{}, [[it]], 3]"], ["it = {}", "return [it] if it else 3"]),
    "dlet": (["@dlet((x, {}))", "def f(): return [x, {}]", "return (f,)"], ["x = {}", "return [x, {}]"]),
    "deco": (["@ident", "def f(x): return [x, {}]", "return (f, V(4))"], ["def f(x): return [x, {}]", "return f(V(4))"]),
    "with_": (["with CM({}) as x: return [x, {}]"],) * 2,
    "exc": (["try: raise Boom({})", "except Boom as e: return [e, {}]"],) * 2,
    "cls": (["class A(*[Obj]): x = {}", "return [A.x]"],) * 2,
    "star": (["[a, *b] = [1, {}, 3]", "return [a, b]"],) * 2,
    "lam": (["f = lambda *a, k=[], **kk: [a, k, kk, {}]", "return (f, V(1), kw(k={}, z=3))"], ["f = lambda *a, k=[], **kk: [a, k, kk, {}]", "return f(V(1), k={}, z=3)"]),
}
def pre_gen(tier):
    quick = tier == "quick"
    ts = list(dict.fromkeys(tuples(0, 2 if quick else 3, "", [[], ["q"], ["q", "q"], ["q", "u"]])))
    small = list(dict.fromkeys(tuples(0, 1, "", [[], ["q"]])))[:: 2 if quick else 1]
    items = [["ret", p, r] for p, r in ts] + [[s, p, r] for s in PRE_ST for p, r in small + ts[:: max(1, len(ts) // (40 if quick else 400))]]
    for b in batches(items, 80): yield [b, False]
    if not quick:
        for b in batches(items[::3], 80): yield [b, True]
def pre_run(case):
    items, cur = case
    def text(plain):
        out = [] if plain else [PRE_HEAD, "with prefix, autocurry:" if cur else "with prefix:"]
        for i, (s, p, r) in enumerate(items):
            ls = PRE_ST[s][1 if plain else 0]
            out.append(("" if plain else "    ") + f"def p{i}():")
            out += [("    " if plain else "        ") + l.replace("{}", r if plain else p) for l in ls]
        return "\n".join(out) + "\n"
    Wp, Wm = World(), World()
    def given(W):
        d = W.given()
        def K(*a, **k):
            W.log.append(["K", W.norm(a), W.norm(k)])
            return ["K", a, k]
        class Ix:
            def __getitem__(self, i): return ["ix", i if not isinstance(i, slice) else ["slice", i.start, i.stop]]
        d.update(K=K, Z=lambda: "z", M=lambda m: (lambda *a: ["M", m, a]), K1=lambda a, b: [a, b], K2=lambda a: dict(k=a), V2=[1, 2], IX=Ix())
        return d
    nsp = given(Wp)
    exec(compile(text(True), "<plain>", "exec"), nsp)
    try:
        nsm = macros.module(text(False), **given(Wm))
    except macros.ExpansionError as e:
        if len(items) > 1:
            for it in items: pre_run([[it], cur])
        raise mc.Violation(f"cannot expand: {e}\n{text(False)}")
    for i, it in enumerate(items):
        want, got = attempt(Wp, nsp[f"p{i}"]), attempt(Wm, nsm[f"p{i}"])
        mc.trace(); mc.step(len(got[1]))
        mc.check(got == want, lambda: f"with prefix{', autocurry' if cur else ''}:\n" + "\n".join(PRE_ST[it[0]][0]).replace("{}", it[1]) + f"\n  gives {got}\n  expected {want}")
        mc.state((it[1], want))

# ---------------------------------------------------------------- quick lambdas
H = "\N{WHITE SQUARE}"   # a parameter, in the plain text
QL1 = ("-{}", "[{}]", "({},)", "T({})", "T(k={})", "T2(*[{}])", "T2(**dict(k={}))", "OBJ2[{}]", "{}.attr", "(lambda y: [y, {}])(5)", "let[[y << {}] in [y, x]]",
       "(1 if {} else 2)", "{}[0]", "not {}", "f'{q{}p}'", "do[1, {}]", "aif[{}, it, 0]", "cond[{}, 1, 0]", "OBJ2[{}:]", "(w := {})")
QL2 = ("@ + $", "[@, $]", "(@, $)", "T(@, $)", "T(@, k=$)", "@ < $", "@ and $", "OBJ2[@:$]", "OBJ2[@, $]", "(1 if @ else $)", "{@: $}", "T(@)($)", "let[[y << @] in [y, $]]", "do[@, $]", "(@ if 1 else 2, $)")
def ql_exprs(depth):
    """(fn text with _, plain text with H for each parameter) pairs"""
    yield "_", H
    yield "V(1)", "V(1)"
    yield "fn[[_, x]](3)", "(lambda q0: [q0, x])(3)"
    if depth == 0: return
    par = lambda t: t if t in ("_", H) else f"({t})"
    sub = [(par(m), par(p)) for m, p in ql_exprs(depth - 1)]
    if depth > 1: sub = sub[:3] + sub[3::5]
    for a, pa in sub:
        for t in QL1:
            put = lambda x: t.replace("{q{}p}", "{" + x + "}") if "q{}p" in t else t.replace("{}", x)
            yield put(a), put(pa)
    for (a, pa), (b, pb) in itertools.product(sub, repeat=2):
        for t in QL2:
            yield t.replace("@", a).replace("$", b), t.replace("@", pa).replace("$", pb)
def ql_plain(t):
    parts = t.split(H)
    out = parts[0] + "".join(f"p{j}{q}" for j, q in enumerate(parts[1:]))
    k = len(parts) - 1
    return "lambda " + ", ".join(f"p{j}" for j in range(k)) + f": {out}", k
def ql_gen(tier):
    xs = list(dict.fromkeys(ql_exprs(1))) + list(dict.fromkeys(ql_exprs(2)))[:: 7 if tier == "quick" else 1]
    for b in batches(xs, 80): yield [b, "fn", None]
    for b in batches(xs[:240], 80):
        yield [b, "fn", "quicklambda"]
        yield [b, "lambdaquick", None]
        yield [b, "lambdaquick", "quicklambda"]
def ql_run(case):
    items, name, block = case
    W = World()
    class Any:   # arithmetic on anything, recording the structure
        def __init__(self, t): self.t = t
        def __getitem__(self, i): return ["ix", (i.start, i.stop) if isinstance(i, slice) else i]
        def __call__(self, *a): return ["call", a]
        def __add__(self, o): return ["+", self, o]
        def __radd__(self, o): return ["r+", o, self]
        def __lt__(self, o): return ["<", self, o]
        def __gt__(self, o): return [">", self, o]
        def __neg__(self): return ["-", self]
        def __repr__(self): return f"<{self.t}>"
        def __format__(self, s): return f"<{self.t}>"
        attr = property(lambda self: ["attr", self])
    norm0 = W.norm
    W.norm = lambda v: repr(v) if isinstance(v, Any) else norm0(v)
    given = W.given()
    def T(*a, **k):
        W.log.append([W.norm(a), W.norm(k)])
        return Any(f"T{W.norm(a)}{W.norm(k)}")
    given.update(T=T, T2=lambda *a, **k: [a, k], OBJ2=Any("o"), x=9)
    head = HEAD if name == "fn" else HEAD + f"from unpythonic.syntax import macros, fn as {name}\n"
    lines, ind = [head], ""
    if block:
        lines.append(f"with {block}:")
        ind = "    "
    for i, (a, pa) in enumerate(items):
        lines.append(f"{ind}f{i} = {name}[{a.replace('fn[', name + '[')}]")
    for i, (a, pa) in enumerate(items):   # the reference keeps the other macros (let, do, aif, cond), but not fn
        lines.append(f"g{i} = {ql_plain(pa)[0]}")
    ns = macros.module("\n".join(lines) + "\n", **given)
    for i, (a, pa) in enumerate(items):
        k = ql_plain(pa)[1]
        args = [Any(f"a{j}") for j in range(k)]
        want, got = attempt(W, ns[f"g{i}"], *args), attempt(W, ns[f"f{i}"], *args)
        mc.trace(); mc.step()
        mc.check(got == want, lambda: f"{name}[{a}] (block: {block}) gives {got}, expected {want}, as {ql_plain(pa)[0]}")
        mc.check(ns[f"f{i}"].__code__.co_argcount == k, lambda: f"{name}[{a}] has {ns[f'f{i}'].__code__.co_argcount} parameters, expected {k}")
        mc.state((a, want))

# ---------------------------------------------------------------- conditional expressions
PARTS = {"one": ("V({k}, {v})", "V({k}, {v})"), "list": ("[V({k}0, 1), V({k}, {v})]", "(V({k}0, 1), V({k}, {v}))[-1]"),
         "loc": ("[local[w << V({k}0, {v})], V({k}, w)]", "(lambda w: V({k}, w))(V({k}0, {v}))"), "lst": ("[[V({k}, 1)][:{v}]]", "[V({k}, 1)][:{v}]")}
def cnd_gen(tier):
    n = 3 if tier == "quick" else 4
    for k in range(0, n + 1):
        for truth in itertools.product((0, 1), repeat=k):
            shapes = list(itertools.product(PARTS, repeat=min(2 * k + 1, 3)))
            for b in batches(shapes, 64): yield ["cond", list(truth), b]
    parts = list(itertools.product(PARTS, repeat=3))
    for t in (0, 1):
        for b in batches(parts, 64): yield ["aif", [t], b]
def cnd_run(case):
    kind, truth, shapes = case
    W = World()
    given = W.given()
    def V(k, v=None):
        W.log.append(k)
        return v
    given.update(V=V, x=1)
    lines, rows = [HEAD], []
    for i, sh in enumerate(shapes):
        part = lambda j, k, v: tuple(t.format(k=k, v=v) for t in PARTS[sh[j % len(sh)]])
        if kind == "cond":
            ms, pl, j = [], [], 0
            for n, t in enumerate(truth):
                a, b = part(j, f"1{n}", t), part(j + 1, f"2{n}", 7 + n)
                ms += [a[0], b[0]]
                pl.append((a[1], b[1]))
                j += 2
            e = part(j, "39", 99)
            ms.append(e[0])
            src_ = f"cond[{', '.join(ms)},]" if len(ms) == 1 else f"cond[{', '.join(ms)}]"
            ref = e[1]
            for a, b in reversed(pl): ref = f"({b} if {a} else {ref})"
        else:
            a, b, c = part(0, "1", truth[0]), part(1, "2", 7), part(2, "3", 8)
            wrap = ["{}", "[it, {}]", "{}"]
            for wm, wp in (("{}", "{}"), ("(it, {}, it)", "(it, {}, it)"), ("aif[it, (it, {}), (0, {})]", "((lambda it2: (it2, {}) if it2 else (0, {}))(it))"), ("aif[V(5, 4), aif[V(6, 0), 1, (it, {})], it]", "((lambda it: (lambda it: 1 if it else (it, {}))(V(6, 0)) if it else it)(V(5, 4)))"), ("(lambda: it)()", "(lambda: it)()"), ("aif[[local[w << it], w], (it, w0), (it, 5)]".replace("w0", "it"), "((it, it) if it else (it, 5))")):
                if b[0].startswith("[") or c[0].startswith("["):
                    m = f"aif[{a[0]}, {b[0]}, {c[0]}]" if wm == "{}" else f"aif[{a[0]}, [1, {wm.replace('{}', 'V(21)')}], {wm.replace('{}', 'V(31)')}]"
                    p = f"(lambda it: {b[1]} if it else {c[1]})({a[1]})" if wm == "{}" else f"(lambda it: {wp.replace('{}', 'V(21)')} if it else {wp.replace('{}', 'V(31)')})({a[1]})"
                else:
                    m = f"aif[{a[0]}, {wm.replace('{}', b[0])}, {wm.replace('{}', c[0])}]"
                    p = f"(lambda it: {wp.replace('{}', b[1])} if it else {wp.replace('{}', c[1])})({a[1]})"
                rows.append((m, p))
            continue
        rows.append((src_, ref))
    for i, (m, p) in enumerate(rows):
        lines.append(f"f{i} = lambda: {m}")
    nsm = macros.module("\n".join(lines) + "\n", **given)
    for i, (m, p) in enumerate(rows):
        g = eval("lambda: " + p, dict(given))
        want, got = attempt(W, g), attempt(W, nsm[f"f{i}"])
        mc.trace(); mc.step(len(got[1]))
        mc.check(got == want, lambda: f"{m} gives {got}, expected {want} as {p}")
        mc.state((m, want))

SPACES = [
    mc.Space("blocks", blk_gen, blk_run, f"all programs of a statement form ({len(ST)}) or return around up to 2 of {len(CTX)} expression contexts and {len(LEAVES)} leaves; every single, every pair (thorough: triple) and all of the 6 block macros in the documented order", timeout=300),
    mc.Space("currying", cur_gen, cur_run, f"{len(CUR_IN)} ways to define a function in the block and {len(CUR_OUT)} outside, all splits of 3 arguments over calls, in and outside the block; uninspectable builtins", timeout=300),
    mc.Space("names", nam_gen, nam_run, f"{len(NAMES)} syntactic positions x {len(SHAPES)} shapes x 2 lambdas x 8 block combinations", timeout=300),
    mc.Space("prefix", pre_gen, pre_run, f"all prefix tuples of depth 2 (thorough 3) over quote/unquote markers, kw forms and element contexts, in {len(PRE_ST)} statement forms", timeout=300),
    mc.Space("quick lambdas", ql_gen, ql_run, "all expressions of depth 1 and a fixed seventh (thorough: all) of a reduced depth 2 over underscores in 35 forms; as-import, quicklambda", timeout=300),
    mc.Space("conditionals", cnd_gen, cnd_run, "cond with up to 3 (thorough 4) clauses, all truth values, all shapes of the parts; aif with all shapes and nested uses of `it`", timeout=300),
]
