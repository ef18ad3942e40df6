"""L04: let/do macro family, against plain Python with explicit environments: every nesting of binding forms, every surface syntax."""
from lib import mc, macros
import itertools
import sys
import types

# ---------------------------------------------------------------- rendering
# A scope chain is a tuple of binders, innermost first:
#   ("env", id, frozenset of visible names)   an environment created by a macro
#   ("fn", frozenset of names)                a Python function scope with these parameters/locals
#   ("comp", frozenset of names)              a comprehension's targets
class Skip(Exception):
    """not a valid program"""

class Render:
    def __init__(self, plain, syntax=0, walrus=True):
        self.plain, self.syntax, self.walrus = plain, syntax, walrus
        self.k = self.env = 0
    def K(self):
        self.k += 1
        return f"K({self.k})"
    def newenv(self):
        self.env += 1
        return f"e_{self.env}"
    # --- names
    def read(self, n, sc):
        if self.plain:
            for b in sc:
                if n in b[-1]:
                    return f"G({b[1]}, {n!r})" if b[0] == "env" else n
        return n
    def R(self, sc):
        return f"V({self.read('a', sc)}, {self.read('b', sc)})"
    def write(self, n, v, sc):
        for i, b in enumerate(sc):
            if n in b[-1]:
                if b[0] == "env":
                    if self.plain:
                        return f"W({b[1]}, {n!r}, {v})"
                    return f"({n} := {v})" if self.walrus else f"({n} << {v})"
                if b[0] == "fn" and not sc[:i] and self.walrus:
                    return f"({n} := {v})"
                raise Skip
        raise Skip
    # --- forms
    def let(self, kind, names, values, body, sc):
        """values: callables scope -> text; body: callable (scope) -> text or list of items (for an implicit do)"""
        n = len(names)
        envs = []
        if self.plain:
            if kind == "let":
                e = self.newenv()
                vs = [v(sc) for v in values]
                inner = (("env", e, frozenset(names)),) + sc
                return f"(lambda {e}: {self.body(body, inner)})(D({{{', '.join(f'{x!r}: {v}' for x, v in zip(names, vs))}}}))"
            if kind == "letrec":
                e = self.newenv()
                inner = (("env", e, frozenset(names)),) + sc
                vs = [v(inner) for v in values]
                sets = "".join(f"S({e}, {x!r}, {v}), " for x, v in zip(names, vs))
                return f"(lambda {e}: ({sets}{self.body(body, inner)})[-1])(D())"
            out, tail, cur = "", "", sc
            for x, v in zip(names, values):
                e = self.newenv()
                val = v(cur)
                out += f"(lambda {e}: "
                tail = f")(D({{{x!r}: {val}}}))" + tail
                cur = (("env", e, frozenset([x])),) + cur
            return out + self.body(body, cur) + tail
        if kind == "letseq":
            vs, inner = [], sc
            for x, v in zip(names, values):
                vs.append(v(inner))
                inner = (("env", None, frozenset([x])),) + inner
        else:
            inner = (("env", None, frozenset(names)),) + sc
            vs = [v(inner if kind == "letrec" else sc) for v in values]
        b = self.body(body, inner)
        s = SYNTAXES[self.syntax]
        style, where = s
        one = style.endswith("1")
        if one and n != 1:
            raise Skip
        if style == "walrus": bs = ", ".join(f"{x} := {v}" for x, v in zip(names, vs))
        elif style == "pwalrus": bs = ", ".join(f"({x} := {v})" for x, v in zip(names, vs))
        elif style == "shift": bs = ", ".join(f"{x} << {v}" for x, v in zip(names, vs))
        elif style == "list": bs = ", ".join(f"[{x}, {v}]" for x, v in zip(names, vs))
        elif style == "tuple": bs = ", ".join(f"({x}, {v})" for x, v in zip(names, vs))
        elif one: bs = f"{names[0]}, {vs[0]}"
        if where == "lispy": return f"{kind}[{bs}][{b}]"
        if where == "lispyp": return f"{kind}({bs})[{b}]"
        if where == "in":
            return f"{kind}[[{bs}] in {b}]"
        if where == "inp":
            return f"{kind}[({bs}{',' if n == 1 and not one else ''}) in {b}]"
        if where == "where": return f"{kind}[{b}, where[{bs}]]"
        if where == "wherep": return f"{kind}[{b}, where({bs})]"
        raise RuntimeError(s)
    def body(self, body, sc):
        if callable(body):
            return body(sc)
        items = self.do("do", body, sc)
        if self.plain:
            return items
        assert items.startswith("do[")
        return items[2:]          # extra brackets: implicit do
    def do(self, kind, items, sc):
        """items: ("x", f) | ("local", name, f) | ("delete", name)"""
        e = self.newenv()
        names, out = [], []
        for it in items:
            cur = (("env", e, frozenset(names)),) + sc
            if it[0] == "x":
                out.append(it[1](cur))
            elif it[0] == "local":
                if it[1] in names:
                    raise Skip
                v = it[2](cur)
                if self.plain: out.append(f"S({e}, {it[1]!r}, {v})")
                else: out.append(f"local[{it[1]} := {v}]" if self.walrus else f"local[{it[1]} << {v}]")
                names = names + [it[1]]
            else:
                if it[1] not in names:
                    raise Skip
                out.append(f"DEL({e}, {it[1]!r})" if self.plain else f"delete[{it[1]}]")
                names = [x for x in names if x != it[1]]
        if self.plain:
            return f"(lambda {e}: ({', '.join(out)},)[{-1 if kind == 'do' else 0}])(D())"
        return f"{kind}[{', '.join(out)}]" if len(out) > 1 else f"{kind}[{out[0]},]"

SYNTAXES = [("walrus", "lispy"), ("walrus", "in"), ("walrus", "where"), ("shift", "lispy"), ("shift", "in"), ("shift", "where"),
            ("list", "lispy"), ("list", "in"), ("list", "where"), ("tuple", "lispyp"), ("tuple", "inp"), ("tuple", "wherep"),
            ("one1", "lispy"), ("one1", "in"), ("one1", "where"), ("one1", "lispyp"), ("one1", "inp"), ("one1", "wherep"),
            ("pwalrus", "lispyp"), ("pwalrus", "inp"), ("shift", "wherep"), ("shift", "lispyp"), ("list", "lispyp"), ("tuple", "lispy")]

# ---------------------------------------------------------------- one-hole contexts (H: scope -> text)
CTX = {}
def ctx(f):
    CTX[f.__name__] = f
    return f
fn = lambda *names: ("fn", frozenset(names))
comp = lambda *names: ("comp", frozenset(names))

def let_contexts(kind):
    def body(r, sc, H): return f"({r.let(kind, ['a'], [lambda s: r.K()], lambda s: f'({r.R(s)}, {H(s)}, {r.R(s)})', sc)}, {r.R(sc)})"
    def val(r, sc, H): return f"({r.let(kind, ['a'], [H if kind != 'letrec' else (lambda s: f'(lambda: {H((fn(),) + s)})')], (lambda s: r.R(s)) if kind != 'letrec' else (lambda s: '(' + r.R(s) + ', ' + r.read('a', s) + '())'), sc)}, {r.R(sc)})"
    def two1(r, sc, H): return r.let(kind, ["a", "b"], [lambda s: r.K(), H if kind != "letrec" else (lambda s: f"(lambda: {H((fn(),) + s)})")], (lambda s: r.R(s)) if kind != "letrec" else (lambda s: f"({r.read('b', s)}(), {r.R(s)})"), sc)
    def two0(r, sc, H): return r.let(kind, ["b", "a"], [H, lambda s: r.K()], lambda s: r.R(s), sc)
    def twob(r, sc, H): return r.let(kind, ["a", "b"], [lambda s: r.K(), lambda s: f"({r.read('a', s)}, {r.K()})"], H, sc)
    def multi(r, sc, H): return r.let(kind, ["a"], [lambda s: r.K()], [("x", lambda s: r.R(s)), ("local", "b", lambda s: r.R(s)), ("x", H), ("x", lambda s: f"({r.R(s)}, {H(s)})")], sc)
    def wr(r, sc, H): return r.let(kind, ["a"], [lambda s: r.K()], lambda s: f"({H(s)}, {r.write('a', r.K(), s)}, {r.R(s)})", sc)
    def wrb(r, sc, H): return r.let(kind, ["a"], [lambda s: r.K()], lambda s: f"({r.write('a', H(s), s)}, {r.R(s)})", sc)
    fs = [body, val, two1, two0, twob, multi, wr, wrb]
    if kind == "letseq":
        def same(r, sc, H): return r.let(kind, ["a", "a", "b"], [lambda s: r.K(), H, lambda s: r.R(s)], lambda s: r.R(s), sc)
        fs.append(same)
    for f in fs:
        CTX[f"{kind}_{f.__name__}"] = f
for kind_ in ("let", "letseq", "letrec"):
    let_contexts(kind_)

x_ = lambda f: ("x", f)
@ctx
def do_local(r, sc, H): return f"({r.do('do', [('local', 'a', H), x_(r.R)], sc)}, {r.R(sc)})"
@ctx
def do_after(r, sc, H): return r.do("do", [x_(r.R), ("local", "a", lambda s: r.K()), x_(H), x_(r.R)], sc)
@ctx
def do_last(r, sc, H): return r.do("do", [("local", "a", lambda s: r.K()), x_(lambda s: f"({r.write('a', r.K(), s)}, {r.R(s)})"), x_(H)], sc)
@ctx
def do_del(r, sc, H): return r.do("do", [("local", "a", lambda s: r.K()), ("local", "b", lambda s: r.R(s)), ("delete", "a"), x_(H)], sc)
@ctx
def do_redef(r, sc, H): return r.do("do", [("local", "a", lambda s: r.K()), ("delete", "a"), x_(H), ("local", "a", lambda s: r.R(s)), x_(r.R)], sc)
@ctx
def do_before(r, sc, H): return r.do("do", [x_(lambda s: f"SAVE(lambda: {H((fn(),) + s)})"), ("local", "a", lambda s: r.K()), x_(lambda s: f"(CALL(), {r.R(s)})")], sc)
@ctx
def do_clo(r, sc, H): return r.do("do", [("local", "a", lambda s: r.K()), x_(lambda s: f"SAVE(lambda: {H((fn(),) + s)})"), x_(lambda s: r.write("a", r.K(), s)), x_(lambda s: f"(CALL(), {r.R(s)})")], sc)
@ctx
def do0_first(r, sc, H): return r.do("do0", [x_(H), ("local", "a", lambda s: r.K()), x_(r.R)], sc)
@ctx
def do0_local(r, sc, H): return r.do("do0", [("local", "a", H), x_(r.R)], sc)
@ctx
def do0_last(r, sc, H): return r.do("do0", [x_(r.R), ("local", "a", lambda s: r.K()), x_(H)], sc)
@ctx
def lam(r, sc, H): return f"((lambda a: {H((fn('a'),) + sc)})({r.K()}), {r.R(sc)})"
@ctx
def lamdef(r, sc, H): return f"(lambda a={H(sc)}: {r.R((fn('a'),) + sc)})()"
@ctx
def lamkwdef(r, sc, H): return f"(lambda *, b={H(sc)}: {r.R((fn('b'),) + sc)})()"
@ctx
def lamposdef(r, sc, H): return f"(lambda b, /, a={r.R(sc)}: {H((fn('a', 'b'),) + sc)})({r.K()})"
@ctx
def lamstar(r, sc, H): return f"(lambda *a: {H((fn('a'),) + sc)})({r.K()}, {r.R(sc)})"
@ctx
def lamkw(r, sc, H): return f"(lambda x, **a: {H((fn('a', 'x'),) + sc)})({r.K()}, b={r.R(sc)})"
@ctx
def lamlam(r, sc, H): return f"(lambda a: (lambda: {H((fn(),) + (fn('a'),) + sc)}))({r.K()})()"
def own(text):
    """CPython 3.12.3 inlines comprehensions and clobbers a free variable of the enclosing function when a
    closure inside the comprehension captures the target of the same name. Give such comprehensions a
    function of their own, both in the program under test and in its plain rendering."""
    return f"(lambda: {text})()" if any(w in text for w in ("lambda", "let", "do[", "do0[")) else text
@ctx
def lcomp(r, sc, H):
    t = f"[{H((comp('a'),) + sc)} for a in ({r.K()}, {r.K()})]"
    return f"({own(t)}, {r.R(sc)})"
@ctx
def lcompiter(r, sc, H): return f"[{r.R((comp('a'),) + sc)} for a in ({H(sc)}, {r.R(sc)})]"
@ctx
def lcompif(r, sc, H): return own(f"[{r.R((comp('a'),) + sc)} for a in ({r.K()}, {r.K()}) if ({H((comp('a'),) + sc)}, True)[1]]")
@ctx
def lcomptup(r, sc, H): return own(f"[{H((comp('a', 'b'),) + sc)} for (a, [*b]) in (({r.K()}, ({r.K()}, {r.R(sc)})),)]")
@ctx
def dcomp(r, sc, H): return own(f"{{str({r.R((comp('b'),) + sc)}): {H((comp('b'),) + sc)} for b in ({r.K()},)}}")
@ctx
def scomp(r, sc, H):
    t = f"{{str({H((comp('a'),) + sc)}) for a in ({r.K()},)}}"
    return f"len({own(t)})"
@ctx
def genexp(r, sc, H): return f"list({H((comp('a'),) + sc)} for a in ({r.K()}, {r.R(sc)}))"
@ctx
def defer(r, sc, H): return f"(lambda f: ({r.R((fn('f'),) + sc)}, f(), {r.R((fn('f'),) + sc)}))(lambda: {H((fn(),) + sc)})"
@ctx
def deferw(r, sc, H): return f"(lambda f: ({r.write('a', r.K(), (fn('f'),) + sc)}, f(), {r.R((fn('f'),) + sc)}))(lambda: {H((fn(),) + sc)})"
@ctx
def deferwb(r, sc, H): return f"(lambda f: (f(), {r.R((fn('f'),) + sc)}))(lambda: ({r.write('b', r.K(), (fn(),) + sc)}, {H((fn(),) + sc)}))"
@ctx
def ifexp(r, sc, H): return f"({H(sc)} if {r.read('a', sc)} else {r.R(sc)})"
@ctx
def attr(r, sc, H): return f"(O({H(sc)}).a, O({r.read('a', sc)}).b, dict(a={r.read('b', sc)})['a'])"
@ctx
def lcompnest(r, sc, H): return f"[{r.R((comp('a', 'b'),) + sc)} for a in ({H(sc)},) for b in (V({r.read('a', (comp('a', 'b'),) + sc)}, 0),)]"

LEAVES = {
    "R": lambda r, sc: r.R(sc),
    "wa": lambda r, sc: f"({r.write('a', r.K(), sc)}, {r.R(sc)})",
    "wb": lambda r, sc: f"({r.write('b', f'({r.R(sc)}, {r.K()})', sc)}, {r.R(sc)})",
}
def render(prog, plain, syntax, walrus, sc):
    """prog: [ctx, ctx, ..., leaf]"""
    r = Render(plain, syntax, walrus)
    def build(i, s):
        if i == len(prog) - 1:
            return LEAVES[prog[i]](r, s)
        return CTX[prog[i]](r, s, lambda s2: build(i + 1, s2))
    return build(0, sc)

PRE = "from unpythonic.syntax import macros, let, letseq, letrec, do, do0, local, delete, where, dlet, dletseq, dletrec, blet, bletseq, bletrec\n"

class World:
    def __init__(self):
        self.log, self.saved = [], []
    def given(self):
        W = self
        def norm(v):
            if callable(v): return "fn"
            if isinstance(v, BaseException): return type(v).__name__
            if type(v).__name__ == "module": return "module"
            if isinstance(v, (tuple, list)): return type(v)(norm(x) for x in v)
            if isinstance(v, dict): return {k: norm(x) for k, x in v.items()}
            return v
        self.norm = norm
        def K(k):
            W.log.append(k)
            return k
        def V(a, b):
            W.log.append((norm(a), norm(b)))
            return (norm(a), norm(b))
        class D(dict):
            pass
        def G(e, n):
            if n not in e: raise AttributeError(n)
            return e[n]
        def S(e, n, v):
            e[n] = v
            return v
        def W_(e, n, v):
            if n not in e: raise AttributeError(n)
            return S(e, n, v)
        def DEL(e, n):
            return e.pop(n)
        def SAVE(f):
            W.saved.append(f)
        def CALL():
            return W.saved.pop()()
        class O:
            def __init__(self, v): self.a = self.b = v
        class CM:
            def __init__(self, v): self.v = v
            def __enter__(self): return self.v
            def __exit__(self, *_): return False
        return dict(K=K, V=V, D=D, G=G, S=S, W=W_, DEL=DEL, SAVE=SAVE, CALL=CALL, O=O, CM=CM, a="glob_a", b="glob_b")

def run_one(f, W, *args):
    del W.log[:], W.saved[:]
    got = mc.outcome(lambda: W.norm(f(*args)))
    return got, list(W.log)

VARIANTS = [(s, w) for s in range(len(SYNTAXES)) for w in (True, False)]
SCOPES = {"glob": ((), "def p{i}():", ()), "param": ((fn("a", "b"),), "def p{i}(a, b):", ("par_a", "par_b"))}

def ex_run(case):
    """case: list of [prog, scope, syntax, walrus]"""
    defs, pdefs, names, items = [], [], [], []
    for it in case:
        prog, scope, syntax, walrus = it
        sc, head, args = SCOPES[scope]
        try:
            m, p = render(prog, False, syntax, walrus, sc), render(prog, True, syntax, walrus, sc)
        except Skip:
            continue
        i = len(defs)
        h = head.format(i=i)
        defs.append(f"{h}\n    r = {m}\n    return r, V(a, b)\n")
        pdefs.append(f"{h}\n    r = {p}\n    return r, V(a, b)\n")
        names.append(f"p{i}")
        items.append((it, args))
    if not defs:
        return
    Wm, Wp = World(), World()
    ns = Wp.given()
    keep, pf = [], []
    for n, d in zip(names, pdefs):
        try:
            exec(compile(d, "<plain>", "exec"), ns)
            pf.append(ns[n])
        except SyntaxError:         # e.g. rebinding a comprehension variable
            pf.append(None)
    sel = [j for j in range(len(names)) if pf[j] is not None]
    if not sel:
        return
    fs = macros.programs(PRE, [defs[j] for j in sel], [names[j] for j in sel], **Wm.given())
    for j, f in zip(sel, fs):
        it, args = items[j]
        if isinstance(f, Exception):
            raise mc.Violation(f"cannot expand\n{defs[j]}\n{f}")
        want, got = run_one(pf[j], Wp, *args), run_one(f, Wm, *args)
        mc.trace()
        mc.step(len(got[1]))
        mc.check(got == want, lambda: f"{defs[j]}\n  gives {got}\n  expected {want}\n  as {pdefs[j]}")
        mc.state((it[0], it[1], want))

def batches(it, n=40):
    it = iter(it)
    while True:
        b = list(itertools.islice(it, n))
        if not b: return
        yield b

def chains(depth):
    for cs in itertools.product(CTX, repeat=depth):
        for l in LEAVES:
            yield list(cs) + [l]

def ex_gen(tier):
    quick = tier == "quick"
    def items():
        for d in (0, 1):
            for prog in chains(d):
                lets = any(c.startswith("let") for c in prog[:-1])
                for s, w in VARIANTS:
                    if s and not lets: continue
                    for scope in SCOPES:
                        yield [prog, scope, s, w]
        for i, prog in enumerate(chains(2)):
            n = sum(c.startswith("let") for c in prog[:-1])
            vs = [VARIANTS[i * 7 % len(VARIANTS)]] if quick or not n else [(s, (s + i) % 2 == 0) for s in range(len(SYNTAXES))]
            for s, w in vs:
                if SYNTAXES[s][0] == "one1" and quick: s = s % 12
                yield [prog, ("glob", "param")[i % 2], s, w]
        if not quick:
            for i, prog in enumerate(chains(3)):
                s, w = VARIANTS[i * 7 % len(VARIANTS)]
                if SYNTAXES[s][0] == "one1": s = s % 12
                yield [prog, ("glob", "param")[i % 2], s, w]
    yield from batches(items())


# ---------------------------------------------------------------- decorator forms: statements in the body of the decorated function
class Fn:
    """Lexical state while rendering one function body: names that are Python locals from here on (documented rule: creations and
    deletions take effect from the next statement, for the lexically remaining part of the scope)."""
    def __init__(self, outer, params=(), declared=()):
        self.outer, self.loc, self.params, self.declared = outer, frozenset(params), frozenset(params), frozenset(declared)
    def sc(self):
        return (("fn", self.loc | self.declared | self.params),) + self.outer
    def bind(self, *names):
        self.loc |= frozenset(names) - self.declared
    def unbind(self, *names):
        self.loc -= frozenset(names)

def wr(r, f, n):
    """an assignment expression as a statement"""
    K = r.K()
    sc = f.sc()
    for i, b in enumerate(sc):
        if n in b[-1]:
            if b[0] == "env":
                if r.plain: return f"W({b[1]}, {n!r}, {K})"
                return f"({n} := {K})" if r.walrus else f"{n} << {K}"
            if not r.walrus: raise Skip
            if i == 0 and n in f.declared and n not in f.loc: return f"({n} := {K})"
            f.bind(n)
            return f"({n} := {K})"
    raise Skip
ind = lambda ls: ["    " + l for l in ls]
ST = {}
def st(f):
    ST[f.__name__] = f
    return f
RD = lambda r, f: r.R(f.sc())
@st
def read(r, f): return [RD(r, f)]
@st
def w_a(r, f): return [wr(r, f, "a")]
@st
def w_b(r, f): return [wr(r, f, "b")]
@st
def asg(r, f):
    v = RD(r, f); f.bind("a"); return [f"a = ({v}, {r.K()})"]
@st
def asgt(r, f):
    v = RD(r, f); f.bind("a", "b"); return [f"(a, [*b]) = ({v}, (1, 2))"]
@st
def aug(r, f):
    k = r.K(); f.bind("a"); return [f"a += {k}"]
@st
def ann(r, f):
    v = RD(r, f)
    if "a" in f.declared: raise Skip
    f.bind("a"); return [f"a: int = {v}"]
@st
def annonly(r, f):
    if "a" in f.declared: raise Skip
    f.bind("a"); return ["a: int"]
@st
def dele(r, f):
    if "a" not in f.loc: raise Skip
    f.unbind("a"); return ["del a"]
@st
def for_(r, f):
    v = RD(r, f); f.bind("a")
    return [f"for a in ({v}, {r.K()}):", f"    {RD(r, f)}", "else:", f"    {RD(r, f)}"]
@st
def forin(r, f):
    out = ["for _ in (1, 2):", f"    {RD(r, f)}"]
    f.bind("_"); f.bind("b")
    return out + [f"    b = {r.K()}", f"    {RD(r, f)}"]
@st
def while_(r, f):
    out = ["n = 2", "while n:", "    n -= 1", f"    {RD(r, f)}"]
    f.bind("a")
    return out + [f"    a = {r.K()}", f"    {RD(r, f)}", "else:", f"    {RD(r, f)}"]
@st
def with_(r, f):
    v = RD(r, f); f.bind("a"); return [f"with CM({v}) as a:", f"    {RD(r, f)}"]
@st
def with2(r, f):
    v = RD(r, f); f.bind("a"); v2 = RD(r, f); f.bind("b"); return [f"with CM({v}) as a, CM({v2}) as b:", f"    {RD(r, f)}"]
@st
def exc(r, f):
    out = ["try:", f"    {RD(r, f)}", "    raise ValueError", "except KeyError:", f"    {RD(r, f)}"]
    f.bind("a")
    return out + ["except ValueError as a:", f"    {RD(r, f)}"]
@st
def tryfin(r, f):
    out = ["try:", f"    {RD(r, f)}"]
    f.bind("a")
    return out + [f"    a = {r.K()}", "except ValueError:", f"    {RD(r, f)}", "else:", f"    {RD(r, f)}", "finally:", f"    {RD(r, f)}"]
@st
def def_(r, f):
    f.bind("a"); return ["def a(): pass"]
@st
def cls(r, f):
    f.bind("b"); return ["class b: pass"]
@st
def imp(r, f):
    f.bind("a"); return ["import os.path as a"]
for name_ in ("a", "a.sub"):
    mod_ = types.ModuleType(name_)
    mod_.__path__ = []
    sys.modules.setdefault(name_, mod_)
@st
def impdot(r, f):
    f.bind("a"); return ["import a.sub"]
@st
def impf(r, f):
    f.bind("b"); return ["from os import sep as b"]
@st
def if_(r, f):
    c, k = r.K(), None
    f2 = f.loc
    f.bind("a")
    return [f"if {c}:", f"    a = {r.K()}", f"    {RD(r, f)}"]
@st
def ifelse(r, f):
    out = [f"if {r.K()} > 0:", f"    {RD(r, f)}", f"    b = {r.K()}"]
    f.bind("b")
    return out + ["else:", f"    {RD(r, f)}"]
@st
def elsefirst(r, f):
    out = [f"if {r.K()} < 0:", f"    a = {r.K()}"]
    f.bind("a")
    return out + ["else:", f"    {RD(r, f)}"]
@st
def ifwal(r, f):
    w = wr(r, f, "a")
    if not r.walrus: w = f"({w})"
    return [f"if {w}:", f"    {RD(r, f)}"]
@st
def match1(r, f):
    v = RD(r, f); f.bind("a")
    return [f"match ({v}, {r.K()}):", "    case (a, 99): pass", f"    case [a, _] if ({RD(r, f)}, True)[1]:", f"        {RD(r, f)}"]
@st
def match2(r, f):
    v = RD(r, f); f.bind("b")
    return [f"match dict(k=1, z=2):", "    case {'k': 1, **b}:", f"        {RD(r, f)}"]
@st
def match3(r, f):
    f.bind("a")
    out = [f"match {r.K()}:", "    case int() as a:", f"        {RD(r, f)}"]
    f.bind("b")
    return out + ["    case (_, *b):", f"        {RD(r, f)}"]
def inner(r, f, params, body, call, declared=(), default=None):
    g = Fn(f.sc(), list(params) + ["inner"], declared)
    d = default(r, f) if default else None
    sig = ", ".join(params) + (f", x={d}" if d and params else f"x={d}" if d else "")
    ls = [f"def inner({sig}):"] + ind([f"global {n}" for n in declared] + body(g)) + [f"    return {RD(r, g)}"]
    f.bind("inner")
    return ls + [f"V(inner({call}), 0)"]
@st
def inner0(r, f): return inner(r, f, (), lambda g: [RD(r, g)], "")
@st
def innerw(r, f): return inner(r, f, (), lambda g: [wr(r, g, "a"), RD(r, g)], "")
@st
def innerp(r, f): return inner(r, f, ("a",), lambda g: [wr(r, g, "b")], r.K())
@st
def innerasg(r, f): return inner(r, f, (), lambda g: [RD(r, g)] + asg(r, g), "")
@st
def innerdel(r, f): return inner(r, f, (), lambda g: asg(r, g) + dele(r, g), "")
@st
def innerdef(r, f): return inner(r, f, ("a",), lambda g: [], r.K(), default=RD)
@st
def innerglob(r, f): return inner(r, f, (), lambda g: [RD(r, g)] + asg(r, g), "", declared=("a",))
@st
def gen_(r, f):
    g = Fn(f.sc(), ["b", "g_"])
    ls = ["def g_(b):", f"    yield {RD(r, g)}", f"    {wr(r, g, 'a')}", f"    yield {RD(r, g)}"]
    f.bind("g_")
    return ls + [f"V(list(g_({r.K()})), 0)"]
@st
def lam_(r, f): return [f"(lambda a: {r.R((fn('a'),) + f.sc())})({r.K()})"]
@st
def lamd(r, f): return [f"(lambda a={RD(r, f)}: {r.R((fn('a'),) + f.sc())})()"]
@st
def comp_(r, f): return [f"[{r.R((comp('a'),) + f.sc())} for a in ({RD(r, f)}, {r.K()})]"]
@st
def let_(r, f): return [CTX["let_body"](r, f.sc(), r.R)]
@st
def do_(r, f): return [CTX["do_del"](r, f.sc(), r.R)]
@st
def dlet_(r, f):
    k = r.K()
    e = r.newenv()
    g = Fn((("env", e, frozenset("a")),) + f.sc(), ["g_"])
    f.bind("g_")
    body = ind([RD(r, g), wr(r, g, "a"), f"return {RD(r, g)}"])
    if r.plain: ls = [f"{e} = D(a={k})", "def g_():"] + body
    else: ls = [f"@dlet[a := {k}]", "def g_():"] + body
    return ls + ["V(g_(), g_())"]
@st
def blet_(r, f):
    k = r.K()
    e = r.newenv()
    g = Fn((("env", e, frozenset("b")),) + f.sc(), ["g_"])
    f.bind("g_")
    body = ind([wr(r, g, "b"), f"return {RD(r, g)}"])
    if r.plain: ls = [f"{e} = D(b={k})", "def g_():"] + body + ["g_ = g_()"]
    else: ls = [f"@blet[b := {k}]", "def g_():"] + body
    return ls + ["V(g_, 0)"]

HEADS = ["plain", "param", "global", "nonlocal", "star", "kwonly"]
DECOS = ["dlet", "dletseq", "dletrec", "blet", "bletseq", "bletrec"]
DSYN = {"walrus": "[{a} := {va}, {b} := {vb}]", "shift": "[{a} << {va}, {b} << {vb}]", "list": "[[{a}, {va}], [{b}, {vb}]]", "ptuple": "(({a}, {va}), ({b}, {vb}))", "pwalrus": "(({a} := {va}), ({b} := {vb}))"}

def dec_render(prog, plain, walrus, deco, head, syn):
    """@deco[a := K, b := K] def f(...): statements interleaved with reads"""
    r = Render(plain, 1, walrus)
    kind = deco[1:]
    ka, e = r.K(), r.newenv()
    env = ("env", e, frozenset("ab"))
    outer = (fn("b", "mk"),)
    if kind == "let": vb = f"({r.R(outer)}, {r.K()})"
    else:
        # sees a
        vb = f"({r.read('a', (('env', e, frozenset('a')),) + outer)}, {r.K()})" if kind == "letseq" or plain is False or True else None
    params = {"plain": "", "param": "a", "global": "", "nonlocal": "", "star": "*a", "kwonly": "*, b=7"}[head]
    pn = {"plain": (), "param": ("a",), "global": (), "nonlocal": (), "star": ("a",), "kwonly": ("b",)}[head]
    decl = {"global": ("a",), "nonlocal": ("b",)}.get(head, ())
    f = Fn((env,) + outer, tuple(pn) + ("f",), decl)
    body = [f"{head} {decl[0]}"] if decl else []
    body += [RD(r, f)]
    for s in prog:
        body += ST[s](r, f) + [RD(r, f)]
    call = deco[0] == "b"
    ls = ["def mk(b='mk_b'):"]
    if plain:
        ls += [f"    {e} = D(); S({e}, 'a', {ka}); S({e}, 'b', {vb})" if kind != "let" else f"    {e} = D({{'a': {ka}, 'b': {vb}}})"]
        ls += [f"    def f({params}):"] + ind(ind(body)) + (["    f = f()"] if call else [])
    else:
        ls += [f"    @{deco}" + DSYN[syn].format(a="a", b="b", va=ka, vb=vb), f"    def f({params}):"] + ind(ind(body))
    ls += ["    return f, V(b, 0)"]
    return ls

def dec_items(tier):
    quick = tier == "quick"
    for deco in DECOS:
        for head in HEADS:
            if deco[0] == "b" and head == "param": continue
            for syn in DSYN:
                for s in ([], ["read"], ["w_a"], ["asg"], ["inner0"]):
                    yield [s, True, deco, head, syn]
                    yield [s, False, deco, head, syn]
    for head in HEADS:
        for s in ST:
            for w in (True, False):
                yield [[s], w, "dlet", head, "walrus"]
                yield [[s], w, "bletrec" if head != "param" else "dletseq", head, "walrus"]
    for p in itertools.product(ST, repeat=2):
        yield [list(p), True, "dlet", "plain", "walrus"]
        if not quick:
            for head in HEADS[1:]:
                yield [list(p), True, "dletrec", head, "walrus"]
    few = ["w_a", "asg", "dele", "for_", "exc", "innerw", "innerasg", "while_", "if_", "elsefirst", "dlet_", "comp_", "match1", "with2"]
    for p in itertools.product(few if quick else list(ST), few, few):
        if quick and not ("dele" in p or "asg" in p): continue
        yield [list(p), True, "dlet", "plain", "walrus"]

def dec_gen(tier):
    yield from batches(dec_items(tier), 30)

def dec_run(case):
    rows = []
    for it in case:
        try:
            rows.append((it, dec_render(it[0], False, *it[1:]), dec_render(it[0], True, *it[1:])))
        except Skip:
            pass
    if not rows: return
    Wm, Wp = World(), World()
    nsp = Wp.given()
    text = lambda ls, i: "\n".join(ls).replace("def mk(", f"def mk{i}(", 1) + "\n"
    sel, pf = [], []
    for i, (it, m, p) in enumerate(rows):
        try:
            exec(compile(text(p, i), "<plain>", "exec"), nsp)
        except SyntaxError:
            continue
        sel.append(i)
        pf.append(nsp[f"mk{i}"])
    if not sel: return
    given = Wm.given()
    fs = macros.programs(PRE, [text(rows[i][1], i) for i in sel], [f"mk{i}" for i in sel], **given)
    for i, f, g in zip(sel, fs, pf):
        it, m, p = rows[i]
        if isinstance(f, Exception):
            raise mc.Violation(f"cannot expand\n{text(m, i)}\n{f}")
        args = ("arg",) if it[3] == "param" else ()
        def drive(mk, W, ns):
            ns["a"], ns["b"] = "glob_a", "glob_b"
            def go():
                fn_, v = mk()
                if not callable(fn_):
                    return fn_, v
                return [mc.outcome(fn_, *args), mc.outcome(fn_, *args)], v, W.norm(ns["a"])
            return run_one(go, W)
        want, got = drive(g, Wp, g.__globals__), drive(f, Wm, f.__globals__)
        mc.trace()
        mc.step(len(got[1]))
        mc.check(got == want, lambda: f"{text(m, i)}\n  gives {got}\n  expected {want}\n  as\n{text(p, i)}")
        mc.state((it, want))

# ---------------------------------------------------------------- forms with many bindings
def wide_gen(tier):
    for n in range(1, 8 if tier == "quick" else 12):
        for form in ("let", "letseq", "letrec"):
            yield [form, n]
        yield ["do", n]
        yield ["params", n]

WIDE_HEAD = "from unpythonic.syntax import macros, let, letseq, letrec, dlet, dletseq, dletrec, blet, bletseq, bletrec, do, do0, local, delete\n"
def wide_run(case):
    form, n = case
    names = [f"v{j}" for j in range(n)]
    allv = "(" + "".join(v + ", " for v in names) + ")"
    outer = [f"m{j}" for j in range(n)]
    head = WIDE_HEAD + "".join(f"{v} = {o!r}\n" for v, o in zip(names, outer))
    log = []
    def I(k, *seen):
        log.append((k,) + seen)
        return ("i", k)
    src, expect = head, []     # expect: (function name, result, log)
    def add(body_lines, result, lg):
        nonlocal src
        f = f"t{len(expect)}"
        src += "".join(l.replace("FN", f) + "\n" for l in body_lines)
        expect.append((f, result, lg, body_lines))
    vals = [("i", j) for j in range(n)]
    if form in ("let", "letseq", "letrec"):
        if form == "let":      # every initializer sees the outer names
            inits = [f"I({j}, {', '.join(names)})" for j in range(n)]
            lg = [(j,) + tuple(outer) for j in range(n)]
        elif form == "letseq": # ... the earlier bindings and the outer values of the rest
            inits = [f"I({j}, {', '.join(names)})" for j in range(n)]
            lg = [(j,) + tuple(vals[:j]) + tuple(outer[j:]) for j in range(n)]
        else:                  # ... the earlier bindings; later ones inside a function
            inits = [f"I({j}{''.join(', ' + v for v in names[:j])})" for j in range(n)]
            lg = [(j,) + tuple(vals[:j]) for j in range(n)]
        binds = ", ".join(f"{v} << {i}" for v, i in zip(names, inits))
        pairs = ", ".join(f"({v}, {i})" for v, i in zip(names, inits))
        brackets = "".join(f"[{v}, {i}]" for v, i in zip(names, inits))
        for b in (f"[{binds}]", f"({pairs})" if n > 1 else f"({pairs},)", ):
            add([f"FN = lambda: {form}[{b} in {allv}]"], tuple(vals), lg)
            add([f"FN = lambda: {form}[{allv}, where({b[1:-1]})]"], tuple(vals), lg)
        add([f"FN = lambda: {form}({pairs})[{allv}]" if n > 1 else f"FN = lambda: {form}(({names[0]}, {inits[0]}),)[{allv}]"], tuple(vals), lg)
        for k in range(n):     # assignment to one of them changes that one only, and nothing outside
            new = vals[:k] + ["new"] + vals[k + 1:]
            add([f"FN = lambda: ({form}[[{binds}] in [{names[k]} << 'new', {allv}]], {allv})"], (tuple(new), tuple(outer)), lg)
            add([f"FN = lambda: {form}[[{binds}] in [(lambda q: {names[k]} << q)('new'), {allv}]]"], tuple(new), lg)
        if form == "letrec":
            fns = ", ".join(f"{v} << (lambda: ({j}, {', '.join('id_(' + w + ') is ' + w for w in names)}))" for j, v in enumerate(names))
            add([f"FN = lambda: letrec[[{fns}] in ({''.join(v + '(), ' for v in names)})]"], tuple((j,) + (True,) * n for j in range(n)), [])
        # decorators: the initializers run once, at definition
        for k in range(n):
            add([f"@d{form}({binds})", "def FN():", f"    {names[k]} << ('c', {names[k]})", f"    return {allv}"],
                [tuple(vals[:k] + [("c", vals[k])] + vals[k + 1:]), tuple(vals[:k] + [("c", ("c", vals[k]))] + vals[k + 1:])], "def")
        add([f"@b{form}({binds})", "def FN():", f"    return {allv}"], tuple(vals), "value")
    elif form == "do":
        items, lg, loc = [], [], {}
        for j in range(n):
            items += [f"I('r{j}', {', '.join(names)})", f"local[{names[j]} << I({j}, {', '.join(names)})]"]
            cur = [loc.get(v, o) for v, o in zip(names, outer)]
            lg += [(f"r{j}",) + tuple(cur), (j,) + tuple(cur)]
            loc[names[j]] = ("i", j)
        add([f"FN = lambda: (do[{', '.join(items)}, {allv}], {allv})"], (tuple(vals), tuple(outer)), lg)
        for k in range(n):
            upd = vals[:k] + ["new"] + vals[k + 1:]
            add([f"FN = lambda: do[{', '.join(items)}, {names[k]} << 'new', {allv}]"], tuple(upd), lg)
            gone = vals[:k] + [outer[k]] + vals[k + 1:]
            add([f"FN = lambda: do[{', '.join(items)}, delete[{names[k]}], {allv}]"], tuple(gone), lg)
    else:   # a parameter of any kind shadows a let variable, the others are still visible
        binds = ", ".join(f"{v} << I({j})" for j, v in enumerate(names))
        for kind in ("pos", "posonly", "kwonly", "default", "vararg"):
            for a in range(n + 1):
                vs = names[:a] if kind != "vararg" else names[max(0, a - 1):a]
                rest = names[:max(0, a - 1)] if kind == "vararg" else []
                if kind == "pos": params, call = ", ".join(vs), ", ".join(f"('p', {v!r})" for v in vs)
                elif kind == "posonly": params, call = ", ".join(vs) + (", /" if vs else ""), ", ".join(f"('p', {v!r})" for v in vs)
                elif kind == "kwonly": params, call = ("*, " + ", ".join(vs)) if vs else "", ", ".join(f"{v}=('p', {v!r})" for v in vs)
                elif kind == "default": params, call = ", ".join(f"{v}=('p', {v!r})" for v in vs), ""
                else: params, call = ", ".join(rest + ["*" + v for v in vs] + ["**" + v for v in names[a:a + 1]]), ", ".join(f"('p', {v!r})" for v in rest)
                want = list(vals)
                for v in vs + rest:
                    want[names.index(v)] = ("p", v)
                if kind == "vararg":
                    for v in vs: want[names.index(v)] = ()
                    for v in names[a:a + 1]: want[names.index(v)] = {}
                lg = [(j,) for j in range(n)]
                add([f"FN = lambda: let[[{binds}] in (lambda {params}: {allv})({call})]"], tuple(want), lg)
                add([f"@dlet({binds})", "def FN():", f"    def inner({params}):", f"        return {allv}", f"    return inner({call})"], [tuple(want)], "def")
    ns = macros.module(src, I=I, id_=lambda x: x)
    defined = list(log)
    for f, result, lg, lines in expect:
        del log[:]
        text = "\n".join(lines)
        mc.step(); mc.trace()
        if lg == "value":
            mc.check(ns[f] == result, lambda: f"{text}\n gives {ns[f]}, expected {result}")
        elif lg == "def":
            for r in result:
                got = ns[f]()
                mc.check(got == r and log == [], lambda: f"{text}\n gives {got}, initializers {log}; expected {r}")
        else:
            for _ in range(2):
                del log[:]
                got = ns[f]()
                mc.check(got == result and log == lg, lambda: f"{text}\n gives {got}, initializers {log}; expected {result}, {lg}")
    mc.check([ns[v] for v in names] == outer, "outer names changed")
    mc.state(case)

SPACES = [
    mc.Space("expressions", ex_gen, ex_run, f"all chains of up to 2 (thorough 3) of {len(CTX)} binding/scope contexts (let, letseq, letrec, do, do0, delete, implicit do, lambdas with every parameter kind, comprehensions, closures) around reads and assignments of two names, from module and function scope; {len(SYNTAXES)} surface syntaxes x 2 assignment syntaxes on single forms, rotated over pairs (thorough: all on pairs)", timeout=300),
    mc.Space("wide", wide_gen, wide_run, "let, letseq, letrec, do and parameter lists with 1 to 7 (11) names: what each initializer sees, order, assignment to each name, shadowing by parameters of every kind", timeout=300),
    mc.Space("decorators", dec_gen, dec_run, f"dlet/dletseq/dletrec/blet/bletseq/bletrec over all bodies of up to 2 of {len(ST)} statement forms (3 over 14; thorough: more), with parameters, global, nonlocal; every read of both names before and after; env kept between two calls", timeout=300),
]
