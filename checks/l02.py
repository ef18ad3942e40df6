"""L02: programs over `with continuations` and `call_cc[]`, and all resume histories, against a reference machine.

A program is data; `Text` renders it as macro-enabled source, `Machine` interprets it directly. In the machine
a continuation is a tuple of frames (saved rest-of-body closures and functions), the empty tuple being `identity`;
capturing takes the rest of the body together with everything that remained to be done after it."""
from lib import mc, macros
from checks import l03
import itertools, sys
from unpythonic import Values, identity
from unpythonic.syntax import iscontinuation, get_cc

# ---------------------------------------------------------------- program data
# expressions: ("v", name) ("k", constant) ("t", [exprs]) ("not", expr)
# calls:       ("c", function name | ["K", i], [exprs], cc function name or None) | None
#              ("cif", expr, call, call)     only inside call_cc
# results:     ("e", expr) ("vals", [exprs]) call ("if", expr, R, R) ("and"|"or", expr, R) ("let", name, expr, R) ("do", expr, R) ("bare",)
# statements:  ("T", tag, [names]) ("set", name, expr) ("cc", [targets], star or None, call) ("ret", R) ("if", expr, [stmts])
#              ("save",) ("setcc", expr) ("def", name, [params], [stmts]) ("lam", name, [params], R) ("nt", name, call) ("raise",)
V = lambda n: ("v", n)
Kc = lambda x: ("k", x)
tup = lambda *es: ("t", list(es))
def C(f, *args, cc=None): return ("c", f, list(args), cc)

class Stop(Exception):
    """fuel exhausted: some histories loop forever (they resume themselves)"""

class Unclaimed(Exception):
    """`identity` is not continuation-enabled: it may be called or used as a cc, but not tail-called"""

FUEL = 40

# ---------------------------------------------------------------- source text
class Text:
    def E(self, e):
        t = e[0]
        if t == "v": return e[1]
        if t == "k": return repr(e[1])
        if t == "t": return "(" + "".join(self.E(x) + ", " for x in e[1]) + ")"
        if t == "not": return f"(not {self.E(e[1])})"
        raise RuntimeError(e)
    def call(self, c):
        if c is None: return "None"
        if c[0] == "cif": return f"{self.call(c[2])} if {self.E(c[1])} else {self.call(c[3])}"
        _, f, args, cc = c
        f = f if isinstance(f, str) else f"K[{f[1]}]"
        return f"{f}({', '.join([self.E(a) for a in args] + ([f'cc={cc}'] if cc else []))})"
    def R(self, r):
        t = r[0]
        if t == "e": return self.E(r[1])
        if t == "vals": return f"Values({', '.join(map(self.E, r[1]))})"
        if t == "c": return self.call(r)
        if t == "if": return f"({self.R(r[2])} if {self.E(r[1])} else {self.R(r[3])})"
        if t in ("and", "or"): return f"({self.E(r[1])} {t} {self.R(r[2])})"
        if t == "let": return f"let[[{r[1]} << {self.E(r[2])}] in {self.R(r[3])}]"
        if t == "do": return f"do[{self.E(r[1])}, {self.R(r[2])}]"
        raise RuntimeError(r)
    def S(self, s):
        t = s[0]
        if t == "T": return [f"T({s[1]!r}{''.join(', ' + n for n in s[2])})"]
        if t == "set": return [f"{s[1]} = {self.E(s[2])}"]
        if t == "cc":
            targets, star, c = s[1:]
            lhs = ", ".join(targets + ([f"*{star}"] if star else [])) + ("," if star and not targets else "")
            return [f"{lhs + ' = ' if lhs else ''}call_cc[{self.call(c)}]"]
        if t == "ret": return ["return" if s[1][0] == "bare" else f"return {self.R(s[1])}"]
        if t == "if": return [f"if {self.E(s[1])}:"] + self.B(s[2])
        if t == "save": return ["SAVE(cc)"]
        if t == "savev": return [f"SAVE({s[1]})"]
        if t == "setcc": return [f"cc = {s[1] if isinstance(s[1], str) else f'K[{s[1][1]}]'}"]
        if t == "def": return self.D(s[1], s[2], s[3])
        if t == "lam": return [f"{s[1]} = lambda {', '.join(s[2])}: {self.R(s[3])}"]
        if t == "nt": return [f"{s[1]} = {self.call(s[2])}"]
        if t == "raise": return ["raise ValueError('planned')"]
        raise RuntimeError(s)
    def B(self, stmts):
        return ["    " + l for s in stmts for l in self.S(s)]
    def D(self, name, params, body):
        return [f"def {name}({', '.join(params)}):"] + self.B(body)

# ---------------------------------------------------------------- reference machine
class Frame:
    """a function (targets = parameters, pcc empty) or a captured rest of a body"""
    def __init__(self, body, env, targets, star=None, pcc=(), cont=False, defaults=0):
        self.body, self.env, self.targets, self.star, self.pcc, self.cont = body, env, targets, star, pcc, cont
        self.label = "k" if cont else "f"
class MV(tuple):
    """multiple return values"""

class Machine:
    def __init__(self, prog):
        self.log, self.K = [], []
        self.g = {"identity": ()}
        for name, params, body in prog:
            self.g[name] = self.fn(params, body, None)
    def fn(self, params, body, env):
        params = [p for p in params if p not in ("cc", "*", "*, cc")]
        return (Frame(body, env, params),)
    def T(self, tag, *vals):
        if len(self.log) >= FUEL:
            raise Stop
        self.log.append((tag,) + tuple(self.norm(v) for v in vals))
    def norm(self, v):
        if isinstance(v, MV): return ("Values",) + tuple(map(self.norm, v))
        if type(v) is tuple and all(isinstance(x, Frame) for x in v) and v: return "callable"
        if type(v) is tuple: return tuple(map(self.norm, v))
        return v
    def look(self, n, env):
        while env is not None:
            d, env = env
            if n in d: return d[n]
        return self.g[n]
    def E(self, e, env):
        t = e[0]
        if t == "v": return self.look(e[1], env)
        if t == "k": return e[1]
        if t == "t": return tuple(self.E(x, env) for x in e[1])
        if t == "not": return not self.E(e[1], env)
    def target(self, f, env, tail=False):
        t = self.look(f, env) if isinstance(f, str) else self.K[f[1]]
        if tail and t == (): raise Unclaimed
        return t
    def normal(self, frames, args):
        """an ordinary (non-tail) call: run until nothing remains"""
        while frames:
            f, cc = frames[0], frames[1:]
            d = self.bind(f, args)
            frames, args = self.body(f.body, (d, f.env), f.pcc, cc)
        return None if not args else args[0] if len(args) == 1 else MV(args)
    def bind(self, f, args):
        if f.cont and not f.targets and not f.star:     # no assignment targets: one value is accepted and ignored
            if len(args) > 1: raise TypeError
            return {}
        n = len(f.targets)
        if len(args) < n or (len(args) > n and not f.star): raise TypeError
        d = dict(zip(f.targets, args))
        if f.star: d[f.star] = tuple(args[n:])
        return d
    def body(self, stmts, env, pcc, cc):
        """run statements until they return or capture; gives (frames to run next, arguments)"""
        i = 0
        stmts = list(stmts)
        while i < len(stmts):
            s = stmts[i]
            t = s[0]
            if t == "T": self.T(s[1], *[self.look(n, env) if n != "cc" else cc for n in s[2]])
            elif t == "set": env[0][s[1]] = self.E(s[2], env)
            elif t == "cc":
                k = Frame(stmts[i + 1:], env, s[1], s[2], pcc + cc, True)
                c = s[3]
                while c is not None and c[0] == "cif":
                    c = c[2] if self.E(c[1], env) else c[3]
                if c is None: return (k,), (None,) * len(s[1])
                if c[1] == "get_cc": return (k,), ((k,),) + tuple(self.E(a, env) for a in c[2])
                return self.target(c[1], env, True) + (k,), tuple(self.E(a, env) for a in c[2])
            elif t == "ret": return self.R(s[1], env, pcc, cc)
            elif t == "if":
                if self.E(s[1], env):
                    r = self.body(s[2] + [("fall",)], env, pcc, cc)
                    if r is not None: return r
            elif t == "fall": return None
            elif t == "save":
                self.T("save")
                self.K.append(cc)
            elif t == "savev":
                self.T("save")
                k = self.look(s[1], env)
                if self.norm(k) == "callable": self.K.append(k)
            elif t == "setcc": cc = self.target(s[1], env)
            elif t == "def": env[0][s[1]] = self.fn(s[2], s[3], env)
            elif t == "lam": env[0][s[1]] = self.fn(s[2], [("ret", s[3])], env)
            elif t == "nt":
                f = self.target(s[2][1], env)
                args = [self.E(a, env) for a in s[2][2]]
                env[0][s[1]] = self.normal(f, args)
            elif t == "raise": raise ValueError
            i += 1
        return pcc + cc, (None,)
    def R(self, r, env, pcc, cc):
        t = r[0]
        rest = pcc + cc
        if t == "bare": return rest, (None,)
        if t == "e":
            v = self.E(r[1], env)
            return rest, (tuple(v) if isinstance(v, MV) else (v,))
        if t == "vals": return rest, tuple(self.E(x, env) for x in r[1])
        if t == "c":
            after = pcc + (self.look(r[3], env) if r[3] else cc)
            f = self.target(r[1], env, True)
            return f + after, tuple(self.E(a, env) for a in r[2])
        if t == "if": return self.R(r[2] if self.E(r[1], env) else r[3], env, pcc, cc)
        if t == "and": return self.R(r[2], env, pcc, cc) if self.E(r[1], env) else (rest, (False,))
        if t == "or":
            v = self.E(r[1], env)
            return (rest, (v,)) if v else self.R(r[2], env, pcc, cc)
        if t == "let": return self.R(r[3], ({r[1]: self.E(r[2], env)}, env), pcc, cc)
        if t == "do": return self.R(r[2], env, pcc, cc)

# ---------------------------------------------------------------- program contexts
# ctx(i, H): body of function f{i}(a); H(expr, cc=None) is a call of the next function
CTX = {}
def ctx(fn):
    CTX[fn.__name__.rstrip("_")] = fn
    return fn
def call_cc(targets, c, star=None): return ("cc", targets, star, c)
def ret(r): return ("ret", r)
def E(*es): return ("e", tup(*es))
A = V("a")
def sub(tag): return tup(A, Kc(tag))

@ctx
def tail(H): return [("T", "tail", ["a"]), ret(H(sub("t")))]
@ctx
def nontail(H): return [("nt", "x", H(A)), ("T", "nt", ["x"]), ret(E(Kc("nt"), V("x")))]
@ctx
def cc1(H): return [call_cc(["x"], H(A)), ("T", "cc1", ["a", "x"]), ret(E(A, V("x")))]
@ctx
def cc0(H): return [call_cc([], H(A)), ("T", "cc0", ["a"]), ret(E(Kc("cc0"), A))]
@ctx
def cc0fall(H): return [call_cc([], H(A)), ("T", "cc0fall", ["a"])]
@ctx
def cc2(H): return [call_cc(["x", "y"], H(A)), ("T", "cc2", ["x", "y"]), ret(("vals", [V("y"), V("x")]))]
@ctx
def ccstar(H): return [call_cc(["x"], H(A), "y"), ("T", "ccstar", ["x", "y"]), ret(E(V("x"), V("y")))]
@ctx
def ccstar0(H): return [call_cc([], H(A), "y"), ("T", "ccstar0", ["y"]), ret(("e", V("y")))]
@ctx
def condT(H): return [call_cc(["x"], ("cif", A, H(A), None)), ("T", "condT", ["x"]), ret(E(A, V("x")))]
@ctx
def condF(H): return [call_cc(["x", "z"], ("cif", A, None, H(A)), "y"), ("T", "condF", ["x", "z", "y"]), ret(H(E(V("x"), V("y"))[1]))]
@ctx
def cond2(H): return [call_cc(["x"], ("cif", ("not", A), H(Kc(1)), H(Kc(2)))), ("T", "cond2", ["x"]), ret(E(A, V("x")))]
@ctx
def twice(H): return [call_cc(["x"], H(A)), ("T", "tw1", ["x"]), call_cc(["y"], H(sub(2))), ("T", "tw2", ["x", "y"]), ret(E(V("x"), V("y")))]
@ctx
def thrice(H): return [call_cc([], H(A)), call_cc([], None), ("T", "th2", []), call_cc(["a"], H(sub(2))), ("T", "th3", ["a"]), ret(("e", A))]
@ctx
def thentail(H): return [call_cc(["x"], H(A)), ("T", "tt", ["x"]), ret(H(sub("tt")))]
@ctx
def thennt(H): return [call_cc(["x"], H(A)), ("nt", "y", H(sub("n"))), ("T", "tn", ["x", "y"]), ret(E(V("x"), V("y")))]
@ctx
def skipped(H): return [call_cc(["x"], None), ("T", "sk", ["x"]), ret(H(V("a")))]
@ctx
def getcc(H): return [call_cc(["k", "x"], C("get_cc", A)), ("T", "gcc", ["k", "x"]), call_cc(["y"], H(V("x"))), ("T", "gcc2", ["x", "y"]), ret(E(V("x"), V("y")))]
@ctx
def getcc2(H): return [call_cc(["k"], C("get_cc")), ("savev", "k"), ret(H(A))]
@ctx
def cond_ret(H): return [ret(("if", A, H(A), ("e", Kc(0))))]
@ctx
def and_(H): return [ret(("and", A, H(A)))]
@ctx
def or_(H): return [ret(("or", ("not", A), H(A)))]
@ctx
def early(H): return [("if", A, [ret(H(A))]), call_cc(["x"], H(Kc(3))), ret(E(V("x")))]
@ctx
def early2(H): return [call_cc(["x"], H(A)), ("if", V("x"), [("T", "e2", []), ret(("e", V("x")))]), call_cc(["y"], H(Kc(3))), ("T", "e3", ["y"]), ret(E(V("y")))]
@ctx
def explicit(H): return [ret(H(A, cc="f2"))]
@ctx
def explicit2(H): return [call_cc(["x"], H(A)), ret(H(V("x"), cc="f2"))]
@ctx
def inner(H): return [("def", "g", ["b"], [call_cc(["x"], H(V("b"))), ("T", "in", ["a", "b", "x"]), ret(E(A, V("x")))]), ret(C("g", A))]
@ctx
def innernt(H): return [("def", "g", ["b"], [call_cc(["x"], H(V("b"))), ("T", "in", ["b", "x"]), ret(E(V("x")))]), call_cc(["y"], C("g", A)), ("nt", "z", C("g", Kc(5))), ret(E(V("y"), V("z")))]
@ctx
def lam(H): return [("lam", "g", ["b"], H(V("b"))), ret(C("g", A))]
@ctx
def lamif(H): return [("lam", "g", ["b"], ("if", V("b"), H(V("b")), E(Kc(0)))), call_cc(["x"], C("g", A)), ("T", "li", ["x"]), ret(E(V("x")))]
@ctx
def save(H): return [("save",), ret(H(A))]
@ctx
def savecc(H): return [("save",), call_cc(["x"], H(A)), ("T", "sc", ["x"]), ("save",), ret(E(V("x")))]
@ctx
def kill(H): return [("setcc", "identity"), ret(H(A))]
@ctx
def killcc(H): return [call_cc(["x"], H(A)), ("setcc", "identity"), call_cc(["y"], H(A)), ("T", "kc", ["x", "y"]), ret(E(V("x"), V("y")))]
@ctx
def over(H): return [("setcc", ["K", 0]), ret(H(A))]
@ctx
def let(H): return [ret(("let", "q", A, H(V("q"))))]
@ctx
def do(H): return [ret(("do", A, H(A)))]

LEAVES = {
    "ret": [("T", "ret", ["a"]), ret(E(A, Kc("r")))],
    "vals": [("T", "vals", ["a"]), ret(("vals", [A, Kc("v")]))],
    "none": [("T", "none", ["a"])],
    "false": [ret(("e", Kc(0)))],
    "save": [("save",), ("T", "sv", ["a", "cc"]), ret(E(A, Kc("s")))],
    "savevals": [("save",), ret(("vals", [A, Kc("sv")]))],
    "savekill": [("save",), ("setcc", "identity"), ret(E(A, Kc("sk")))],
    "resume": [("T", "rs", []), ("save",), ret(C(["K", 0], A))],
    "resument": [("save",), ("nt", "x", C(["K", 0], Kc(9))), ("T", "rn", ["x"]), ret(E(V("x")))],
    "chain": [("save",), ret(C("lf", A))],
    "chaincc": [call_cc(["x"], C("lf", A)), ("save",), ret(E(V("x")))],
    "raise": [("save",), ("raise",)],
}
OPS = {
    "tk1": (["b"], [("T", "tk", []), ret(C(["K", None], V("b")))]),
}

def program(chain):
    """functions of the program: f0 is the entry point"""
    *cs, leaf = chain
    fs = []
    for i, c in enumerate(cs):
        nxt = f"f{i + 1}"
        fs.append((f"f{i}", ["a", "*, cc"] if i % 2 else ["a"], CTX[c](lambda *args, cc=None: C(nxt, *args, cc=cc))))
    fs.append((f"f{len(cs)}", ["a", "cc"], LEAVES[leaf]))
    return fs
COMMON = [
    ("f2", ["b"], [("T", "f2", ["b"]), ret(E(Kc("f2"), V("b")))]),
    ("lf", ["b"], [("T", "lf", ["b"]), ret(E(V("b"), Kc("l")))]),
]
# ways of invoking a saved continuation later, with one or two values
def ops_defs():
    out = []
    for i in range(3):
        for n, ps in ((1, ["b"]), (2, ["b", "c"])):
            args = [V(p) for p in ps]
            out.append((f"tk{i}{n}", ps, [("T", "tk", []), ret(C(["K", i], *args))]))
            out.append((f"ck{i}{n}", ps, [call_cc(["x"], C(["K", i], *args)), ("T", "ck", ["x"]), ret(E(Kc("ck"), V("x")))]))
            out.append((f"fk{i}{n}", ps, [ret(C(["K", i], *args, cc="f2"))]))
            out.append((f"nk{i}{n}", ps, [("nt", "x", C(["K", i], *args)), ("T", "nk", ["x"]), ret(E(Kc("nk"), V("x")))]))
    return out
OPDEFS = ops_defs()

HEADER = """
from unpythonic.syntax import macros, continuations, call_cc, let, do
"""
def rename(fs, suffix):
    """make the function names of a program unique within its module"""
    def walk(x):
        if isinstance(x, (list, tuple)):
            y = [walk(e) for e in x]
            if y and y[0] == "c" and isinstance(y[1], str) and y[1][0] == "f" and y[1][1:].isdigit():
                y[1] = y[1] + suffix
            return type(x)(y) if isinstance(x, list) else tuple(y)
        return x
    return [(n + suffix, ps, walk(b)) for n, ps, b in fs]

class Real:
    def __init__(self):
        self.log, self.K = [], []
    def given(self):
        return {"T": self.T, "SAVE": self.SAVE, "K": self.K, "Values": Values, "identity": identity, "get_cc": get_cc}
    def T(self, tag, *vals):
        if len(self.log) >= FUEL:
            raise Stop
        self.log.append((tag,) + tuple(self.norm(v) for v in vals))
    def SAVE(self, k):
        self.T("save")
        if callable(k): self.K.append(k)
    def norm(self, v):
        if isinstance(v, Values): return ("Values",) + tuple(map(self.norm, v.rets)) + ((("kw",) + tuple(v.kwrets.items()),) if v.kwrets else ())
        if v is identity: return ()
        if type(v) in (tuple, list): return tuple(map(self.norm, v))
        if callable(v): return "callable"
        return v
    def reset(self):
        del self.log[:], self.K[:]

def outcome(w, thunk):
    try:
        return ("ok", w.norm(thunk()))
    except mc.CaseTimeout:
        raise
    except Exception as e:
        return ("exc", type(e).__name__)

def histories(nk, deep):
    """operations available when nk continuations have been saved"""
    for i in range(min(nk, 3)):
        for n in (1, 2):
            for kind in ("call", "tk", "ck", "fk", "nk"):
                yield (kind, i, n)
VALS = (7, 8)

def explore(what, R, ns, fs, entry, depth, narrow):
    """run the entry call and then every history of resumptions up to `depth`, each from a fresh start, on both sides"""
    text = None
    def run(history):
        R.reset()
        M = Machine(fs + COMMON + OPDEFS)
        for step_ in history:
            if step_[0] == "main":
                got = outcome(R, lambda: ns[entry](step_[1]))
                want = outcome(M, lambda: M.normal(M.g[entry], (step_[1],)))
            else:
                kind, i, n = step_
                if kind == "call":
                    got = outcome(R, lambda: R.K[i](*VALS[:n]))
                    want = outcome(M, lambda: M.normal(M.K[i], VALS[:n]))
                else:
                    got = outcome(R, lambda: ns[f"{kind}{i}{n}"](*VALS[:n]))
                    want = outcome(M, lambda: M.normal(M.g[f"{kind}{i}{n}"], VALS[:n]))
            mc.step(len(R.log) + 1)
            if want == ("exc", "Unclaimed"):
                return 0, (want,)
            mc.check(got == want and R.log == M.log and len(R.K) == len(M.K),
                     lambda: f"{what}\nafter {history}:\n  got      {got} {R.log}\n  expected {want} {M.log}")
        mc.trace()
        return len(M.K), (want, tuple(M.log))
    frontier = [[("main", a)] for a in (1, 0)]
    for d in range(depth + 1):
        nxt = []
        for h in frontier:
            nk, st = run(h)
            mc.state((what, h, st))
            if d < depth and st[0][0] != "exc" or d < depth and len(h) == 1:
                for op in histories(nk, d):
                    if narrow and d and op[0] not in ("call", "ck"): continue
                    nxt.append(h + [op])
        frontier = nxt

def chains(tier):
    quick = tier == "quick"
    ctxs, leaves = list(CTX), list(LEAVES)
    for leaf in leaves:
        yield [leaf], 2
    for c in ctxs:
        for leaf in leaves:
            yield [c, leaf], 2
    few = ["ret", "vals", "save", "savevals", "savekill", "chaincc"]
    for c1 in ctxs:
        for c2 in ctxs:
            for leaf in (few if quick else leaves):
                yield [c1, c2, leaf], 1 if quick else 2
    if not quick:
        core = ["tail", "nontail", "cc1", "ccstar", "condT", "twice", "thentail", "skipped", "getcc", "explicit2", "inner", "savecc", "killcc", "lamif"]
        for c in itertools.product(core, repeat=3):
            for leaf in ("save", "savevals", "chaincc"):
                yield list(c) + [leaf], 1

def gen(tier):
    batch, cur = [], None
    for ch, depth in chains(tier):
        batch.append([ch, depth])
        if len(batch) == 24:
            yield batch
            batch = []
    if batch:
        yield batch

def common(R):
    text = HEADER + "with continuations:\n" + "\n".join("    " + l for f in COMMON + OPDEFS for l in Text().D(*f)) + "\n"
    ns = macros.module(text, **R.given())
    return {f[0]: ns[f[0]] for f in COMMON + OPDEFS}

def run(case):
    R = Real()
    head = HEADER
    shared = common(R)
    defs, names, progs = [], [], []
    for j, (ch, depth) in enumerate(case):
        fs = rename(program(ch), f"_{j}")
        lines = [l for f in fs for l in Text().D(*f)]
        defs.append("with continuations:\n" + "\n".join("    " + l for l in lines) + "\n")
        names.append(f"f0_{j}")
        progs.append(fs)
    try:
        ns = [macros.module(head + "\n".join(defs), **R.given(), **shared)] * len(defs)
    except macros.ExpansionError as e:
        ns = []
        for d in defs:
            try:
                ns.append(macros.module(head + d, **R.given(), **shared))
            except macros.ExpansionError as e:
                raise mc.Violation(f"cannot expand: {e}\n{d}")
    for (ch, depth), d, n, fs, name in zip(case, defs, ns, progs, names):
        explore(d, R, n, fs, name, depth, len(ch) > 2)

# ---------------------------------------------------------------- call_cc at the top level of the block
def top_gen(tier):
    for form in range(6):
        for c in [None] + list(CTX):
            for leaf in LEAVES:
                yield [form, ([c] if c else []) + [leaf]]
def top_group(tier, n=24):
    cs = list(top_gen(tier))
    for i in range(0, len(cs), n):
        yield cs[i:i + n]
FORMS = [
    (lambda f: [call_cc(["x"], C(f, Kc(1))), ("T", "top", ["x"])]),
    (lambda f: [call_cc([], C(f, Kc(1))), ("T", "top", [])]),
    (lambda f: [call_cc(["x"], C(f, Kc(1)), "y"), ("T", "top", ["x", "y"])]),
    (lambda f: [call_cc(["x"], C(f, Kc(1))), ("T", "top", ["x"]), call_cc(["y"], C(f, Kc(2))), ("T", "top2", ["x", "y"])]),
    (lambda f: [call_cc(["x"], ("cif", Kc(0), C(f, Kc(1)), None)), ("T", "top", ["x"]), call_cc(["y"], ("cif", Kc(1), C(f, Kc(1)), None)), ("T", "top2", ["x", "y"])]),
    (lambda f: [call_cc(["k"], C("get_cc")), ("T", "top", ["k"]), call_cc(["y"], C(f, Kc(2))), ("T", "top2", ["y"])]),
]
def top_run(case):
    R = Real()
    shared = common(R)
    for form, ch in case:
        R.reset()
        fs = program(ch)
        body = FORMS[form]("f0")
        text = HEADER + "with continuations:\n" + "\n".join("    " + l for f in fs for l in Text().D(*f)) + "\nwith continuations:\n" + "\n".join(Text().B(body)) + "\n"
        what = "\n".join(text.split("with continuations:")[2:])
        M = Machine(COMMON + OPDEFS + fs)
        # the rest of the block is a function without a value
        blk = (Frame(body, ({}, None), []),)
        want = outcome(M, lambda: (M.normal(blk, ()), None)[1])
        res = []
        def go():
            try:
                res.append(macros.module(text, **R.given(), **shared))
            except macros.ExpansionError as e:
                raise mc.Violation(f"{e}\n{text}") if "Syntax" in str(e) else {"ValueError": ValueError, "TypeError": TypeError, "Stop": Stop, "IndexError": IndexError}.get(str(e).split(":")[0], e)()
        got = outcome_(R, go)
        if want == ("exc", "Unclaimed"): continue
        mc.check((got, R.log, len(R.K)) == (want, M.log, len(M.K)), lambda: f"{what}\n  got      {got} {R.log}\n  expected {want} {M.log}")
        mc.trace()
        mc.step(len(R.log))
        mc.state((form, ch, M.log))
        if want[0] != "ok" or not res: continue
        ns = res[0]
        for op in histories(len(M.K), 0):
            kind, i, n = op
            del R.log[:], M.log[:]
            del R.K[len(R.K):], M.K[len(M.K):]
            if kind == "call":
                got, want = outcome(R, lambda: R.K[i](*VALS[:n])), outcome(M, lambda: M.normal(M.K[i], VALS[:n]))
            else:
                got, want = outcome(R, lambda: ns[f"{kind}{i}{n}"](*VALS[:n])), outcome(M, lambda: M.normal(M.g[f"{kind}{i}{n}"], VALS[:n]))
            if want == ("exc", "Unclaimed"): break
            mc.check((got, R.log, len(R.K)) == (want, M.log, len(M.K)), lambda: f"{what}\nthen {op}:\n  got      {got} {R.log}\n  expected {want} {M.log}")
            mc.trace()
            mc.step(len(R.log))
def outcome_(w, thunk):
    try:
        return ("ok", w.norm(thunk()))
    except (mc.CaseTimeout, mc.Violation):
        raise
    except Exception as e:
        return ("exc", type(e).__name__)

# ---------------------------------------------------------------- constant stack through captures
LOOPS = [
    "x = call_cc[g(n)]\nreturn f(n - 1) if n else D()",
    "call_cc[g(n)]\ncall_cc[g(n)]\nreturn f(n - 1) if n else D()",
    "x = call_cc[g(n) if n else None]\nif n:\n    return f(n - 1)\nreturn D()",
    "x = call_cc[None]\nreturn D() if n == 0 else f(n - 1)",
    "x = call_cc[h(n)]\nreturn (lambda: f(n - 1))() if n else D()",
    "x = call_cc[h(n)]\ny = call_cc[h(n)]\nreturn let[[m << n - 1] in f(m)] if n else D()",
    "k, m = call_cc[get_cc(n)]\nreturn k(k, m - 1) if m else D()",
    "k, m = call_cc[get_cc(n)]\ncall_cc[g(m)]\nreturn k(k, m - 1) if m else D()",
    "k, m = call_cc[get_cc(n)]\nx = call_cc[h(m)]\nreturn l(k, m - 1) if m else D()",
]
OUTER = ["return f(n)", "x = call_cc[f(n)]\nreturn (x, 'o')", "x = call_cc[f(n)]\ny = call_cc[f(n)]\nreturn (x, y)", "call_cc[g(1)]\nreturn f(n)", "call_cc[g(1)]\nx = f(n)\nreturn x"]
def loop_gen(tier):
    for i in range(len(LOOPS)):
        yield i
def loop_run(i):
    ind = lambda t, n=2: "".join("    " * n + l + "\n" for l in t.split("\n"))
    src = HEADER + "with continuations:\n    def g(n, cc):\n        SAVE(cc)\n        return n\n    def h(n):\n        x = call_cc[g(n)]\n        return g(x)\n    def l(k, m):\n        return k(k, m)\n"
    src += "    def f(n):\n" + ind(LOOPS[i]) + "".join(f"    def o{j}(n):\n{ind(o)}" for j, o in enumerate(OUTER))
    W = l03.World(True)
    saved = []
    ns = macros.module(src, SAVE=saved.append, get_cc=get_cc, **W.given())
    for fn in ["f"] + [f"o{j}" for j in range(len(OUTER))]:
        if i >= 6 and fn == "o2": continue      # exponential
        depths, resumed = [], []
        for N in (6, 40):
            del saved[:]
            W.depths = []
            keep = i < 6 or fn == "f"    # else each round adds the rest of the caller once more: more work by definition
            r = ns[fn](N)
            mc.trace()
            mc.step(N)
            depths.append((max(W.depths), len(W.depths), r) if keep else max(W.depths))
            W.depths = []
            if saved:
                r = saved[0](3)
                resumed.append((max(W.depths), len(W.depths), r) if keep else max(W.depths))
                mc.trace()
                mc.step(N)
        mc.state((i, fn, depths))
        mc.check(depths[0] == depths[1], lambda: f"{fn}: after 6 rounds {depths[0]}, after 40 rounds {depths[1]}\n{src}")
        mc.check(not resumed or resumed[0] == resumed[1], lambda: f"{fn}, resumed: after 6 rounds {resumed[0]}, after 40 rounds {resumed[1]}\n{src}")

# ---------------------------------------------------------------- values passed by name
# (text of the returned value, how it binds x and y)
RETS = [("Values(1, y=2)", (1, 2)), ("Values(x=1, y=2)", (1, 2)), ("Values(y=2, x=1)", (1, 2)), ("Values(1, 2)", (1, 2)), ("Values(None, y=None)", (None, None)), ("Values(x=0, y=())", (0, ()))]
POSTS = [("return (x, y)", lambda x, y: (x, y)),
         ("return Values(x, y=y)", lambda x, y: Values(x, y=y)),
         ("return Values(y=x, x=y)", lambda x, y: Values(y=x, x=y)),
         ("return h(x, y=y)", lambda x, y: Values("h", x=x, y=y)),
         ("x, y = call_cc[h2(y=x, x=y)]\nreturn (x, y)", lambda x, y: (y, x)),
         ("z, y = call_cc[h3(x, cc2=y)]\nreturn Values(z, k=y, x=x)", lambda x, y: Values(x, k=y, x=x)),
         ("return h2(y=x, x=y, cc=collect)", lambda x, y: ("collect", y, x))]
# how the caller of g gets at the result (None: the result must be two values named or numbered x, y)
OUTERS = [("return g()", None), ("x, y = call_cc[g()]\nreturn ('o', x, y)", ("o",)), ("x, y = call_cc[g()]\nreturn Values(x=x, y=y)", "V"), ("return g(cc=collect)", ("collect",))]
RESUME = [("k(10, 20)", (10, 20)), ("k(10, y=20)", (10, 20)), ("k(y=20, x=10)", (10, 20)), ("k(x=None, y=0)", (None, 0))]
def named_gen(tier):
    for i in range(len(RETS)):
        for j in range(len(POSTS)):
            yield [i, j]
def named_run(case):
    i, j = case
    rsrc, first = RETS[i]
    psrc, post = POSTS[j]
    ind = lambda t: "".join("        " + l + "\n" for l in t.split("\n"))
    src = HEADER + "with continuations:\n    def f0(cc):\n        SAVE(cc)\n        return " + rsrc + "\n    def f1(cc):\n        return f0()\n    def f2(cc):\n        return f1(cc=cc)\n"
    src += "    def f3(cc):\n        x, y = call_cc[f0()]\n        return Values(y=y, x=x)\n"
    src += "    def h(x, y):\n        return Values('h', x=x, y=y)\n    def h2(x, y, cc):\n        return Values(y=y, x=x)\n    def h3(x, cc2, cc):\n        return Values(x, y=cc2)\n"
    src += "    def collect(x, y, cc):\n        return ('collect', x, y)\n"
    for d in range(4):
        src += f"    def g{d}():\n        x, y = call_cc[f{d}()]\n" + ind(psrc)
        for o, (osrc, _) in enumerate(OUTERS):
            src += f"    def o{d}{o}():\n" + ind(osrc.replace("g(", f"g{d}("))
    src += "".join(f"    def r{n}(k):\n        return {t}\n" for n, (t, _) in enumerate(RESUME))
    src += "".join(f"    def q{n}(k):\n        x, y = call_cc[{t}]\n        return ('q', x, y)\n" for n, (t, _) in enumerate(RESUME))
    saved = []
    ns = macros.module(src, SAVE=saved.append, Values=Values, get_cc=get_cc)
    def bind2(r):
        """the two values x, y, or None"""
        if not isinstance(r, Values) or len(r.rets) + len(r.kwrets) != 2: return None
        d = dict(zip("xy", r.rets))
        if set(d) & set(r.kwrets): return None
        d.update(r.kwrets)
        return (d["x"], d["y"]) if set(d) == {"x", "y"} else None
    def outer(o, xy):
        r = post(*xy)
        how = OUTERS[o][1]
        if how is None: return r
        b = bind2(r)
        if b is None: return None
        return Values(x=b[0], y=b[1]) if how == "V" else how + b
    def same(a, b):
        return type(a) is type(b) and (a == b)
    for d in range(4):
        for o in range(len(OUTERS)):
            want = outer(o, first)
            if want is None or j == len(POSTS) - 1 and o:
                continue
            del saved[:]
            got = ns[f"o{d}{o}"]()
            mc.step(); mc.trace()
            mc.check(same(got, want), lambda: f"o{d}{o}() gives {got!r}, expected {want!r}\n{src}")
            mc.check(len(saved) == 1, "continuation saved once")
            k = saved[0]
            if d == 3:
                pass    # the rest of f3 passes the values on unchanged
            for n, (_, xy) in enumerate(RESUME):
                want = outer(o, xy)
                for name in (f"r{n}", "direct"):
                    args = [((10, 20), {}), ((10,), {"y": 20}), ((), {"y": 20, "x": 10}), ((), {"x": None, "y": 0})][n]
                    got = ns[name](k) if name != "direct" else k(*args[0], **args[1])
                    mc.step(); mc.trace()
                    mc.check(same(got, want), lambda: f"resuming o{d}{o}() by {name} gives {got!r}, expected {want!r}\n{src}")
                b = bind2(want)
                if b is not None:
                    got = ns[f"q{n}"](k)
                    mc.step(); mc.trace()
                    mc.check(same(got, ("q",) + b), lambda: f"resuming o{d}{o}() by q{n} gives {got!r}, expected {('q',) + b!r}\n{src}")
    mc.state(case)

SPACES = [
    mc.Space("histories", gen, run, f"all chains of up to 2 (thorough 3 over a subset) of {len(CTX)} function bodies (call_cc with no, one, several, starred and conditional targets, once, twice, before and after tail and non-tail calls, inner functions, lambdas, overridden and saved cc, get_cc) over {len(LEAVES)} called functions; then all histories of up to 2 resumptions (1 on longer chains; thorough 2) of the saved continuations by normal call, tail call, call_cc, explicit cc and from inside another function; results and effects", timeout=600),
    mc.Space("named", named_gen, named_run, f"values returned by name: {len(RETS)} results x {len(POSTS)} uses x 4 ways of returning x {len(OUTERS)} callers, each continuation resumed in {3 * len(RESUME)} ways", timeout=600),
    mc.Space("toplevel", top_group, top_run, "call_cc at the top level of the block, 6 forms, over all single bodies and called functions, then one resumption of each saved continuation in each way", timeout=600),
    mc.Space("uncaptured", l03.cont_gen, l03.eq_run, "functions that capture nothing, against the plain program: 10 leaf calls under all chains of up to 2 of 11 expression forms, 7 leaves under all chains of up to 2 (thorough 3) of 13 statement forms; functions, lambdas, methods, properties, class and static methods, generators, escape blocks; all truth assignments", timeout=600),
    mc.Space("chains", l03.cont_chain_gen, l03.chain_run, "self and mutual recursion through every tail position: equal stack depth after 6 and 40 tail calls", timeout=600),
    mc.Space("loops", loop_gen, loop_run, "loops through 9 forms of capture and tail call: equal stack depth after 6 and 40 rounds, also when resumed", timeout=600),
]
