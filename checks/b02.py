"""B02: forall programs (function and macro form) vs. an independent lexically scoped nested-loop evaluator; list monad laws."""
from lib import mc, macros
import itertools, types
from unpythonic.amb import forall, choice, insist, deny, MonadicList
from unpythonic.llist import nil

# A line: ["ch", name, expr] | ["ins", cond] | ["deny", cond] | ["ex", expr]
# expr over the variables in scope, given as Python source with {x} placeholders.
# (source, needed variables, evaluator on a dict)
EXPRS = {
    "r3": ("range(3)", "", lambda d: range(3)),
    "l2": ("[1, 1]", "", lambda d: [1, 1]),
    "nl": ("[None, 0, (), 5]", "", lambda d: [None, 0, (), 5]),
    "empty": ("()", "", lambda d: ()),
    "scalar": ("7", "", lambda d: 7),
    "str": ("'ab'", "", lambda d: "ab"),
    "none": ("None", "", lambda d: None),
    "rx": ("range({x})", "x", lambda d: range(d["x"])),
    "xy": ("({x}, {y})", "xy", lambda d: (d["x"], d["y"])),
    "x1": ("[{x}, {x} + 1]", "x", lambda d: [d["x"], d["x"] + 1]),
    "y": ("{y}", "y", lambda d: d["y"]),
    "gen": ("(i * ({x} or 1) for i in range(2))", "x", lambda d: [i * (d["x"] or 1) for i in range(2)]),
    "div": ("6 // {x}", "x", lambda d: 6 // d["x"]),
    "cat": ("{x} + 'z'", "x", lambda d: d["x"] + "z"),
    "clos": ("(lambda: ({x}, {y}))", "xy", lambda d: Clos(lambda: (d["x"], d["y"]))),
    "closx": ("(lambda: {x})", "x", lambda d: Clos(lambda: d["x"])),
}
CONDS = {
    "x": ("{x}", "x", lambda d: d["x"]),
    "xgt": ("{x} != {y}", "xy", lambda d: d["x"] != d["y"]),
    "T": ("True", "", lambda d: True),
    "F": ("False", "", lambda d: False),
    "ycat": ("{y} + 'z'", "y", lambda d: d["y"] + "z"),
}
class Clos:
    def __init__(self, f): self.f = f
    def __call__(self): return self.f()

def usable(src, scope):
    return all(v in scope for v in src[1])

def lines(scope, last, quick):
    out = []
    ch = ["r3", "l2", "nl", "empty", "scalar", "rx", "x1", "gen", "div", "cat"] + ([] if quick else ["str", "none", "y"])
    for n in "xy":
        for e in ch:
            if usable(EXPRS[e], scope):
                out.append(["ch", n, e])
    for k in ("ins", "deny"):
        for c in CONDS:
            if usable(CONDS[c], scope) and (k == "ins" or c in ("x", "F")):
                out.append([k, c])
    for e in (["r3", "empty", "scalar", "xy", "y", "div", "cat", "clos", "closx"] if last else ["l2", "empty", "scalar", "div", "cat"]):
        if usable(EXPRS[e], scope):
            out.append(["ex", e])
    return out

def progs(depth, quick, prefix=(), scope=frozenset()):
    """All well-scoped programs of 1..depth lines."""
    def go(p, scope):
        if len(p) + 1 >= len(prefix):
            for l in lines(scope, True, quick):
                q = p + [l]
                if q[:len(prefix)] == list(prefix):
                    yield q
        if len(p) + 1 < depth:
            for l in lines(scope, False, quick):
                q = p + [l]
                if len(q) <= len(prefix) and q != list(prefix)[:len(q)]:
                    continue
                yield from go(q, scope | {l[1]} if l[0] == "ch" else scope)
    yield from go([], frozenset())

def ref(p):
    """Independent reference: nested loops with lexical scoping (a fresh binding per iteration)."""
    out = []
    def unpack(v):
        if isinstance(v, (int, float, type(None), bool, Clos)):
            return [v]
        return list(v)
    def go(i, d):
        l = p[i]
        if l[0] in ("ins", "deny"):
            c = CONDS[l[1]][2](d)
            v = [True] if bool(c) == (l[0] == "ins") else []
            if i == len(p) - 1:
                out.extend(v)
                return
            for _ in v: go(i + 1, d)
            return
        v = EXPRS[l[-1]][2](d)
        if i == len(p) - 1:
            out.append(v)
            return
        for x in unpack(v):
            go(i + 1, {**d, l[1]: x} if l[0] == "ch" else d)
    go(0, {})
    return out

def norm(v):
    if isinstance(v, (Clos,)) or callable(v): return ("closure", norm(v()))
    if isinstance(v, types.GeneratorType): return [norm(x) for x in v]
    if isinstance(v, (tuple, list)): return type(v)(norm(x) for x in v)
    return v

def func_src(p):
    out = []
    for l in p:
        s, vars, _ = (CONDS if l[0] in ("ins", "deny") else EXPRS)[l[-1]]
        s = s.format(x="e.x", y="e.y")
        if l[0] == "ins": s = f"insist({s})"
        if l[0] == "deny": s = f"deny({s})"
        if vars or l[0] != "ch": s = f"lambda e: {s}"
        out.append(f"choice({l[1]}={s})" if l[0] == "ch" else s)
    return "forall(" + ", ".join(out) + ")"

def macro_src(p):
    out = []
    for l in p:
        s, vars, _ = (CONDS if l[0] in ("ins", "deny") else EXPRS)[l[-1]]
        s = s.format(x="x", y="y")
        if l[0] == "ins": s = f"insist({s})"
        if l[0] == "deny": s = f"deny({s})"
        out.append(f"{l[1]} << {s}" if l[0] == "ch" else s)
    return "forall[" + ", ".join(out) + ("," if len(out) == 1 else "") + "]"

def expect(p):
    return mc.outcome(lambda: tuple(norm(v) for v in ref(p)))

def judge(what, p, thunk):
    want = expect(p)
    got = mc.outcome(thunk)
    if got[0] == "ok":
        mc.check(type(got[1]) is tuple, lambda: f"{what}: result is a {type(got[1]).__name__}")
        got = ("ok", tuple(norm(v) for v in got[1]))
    mc.check(got == want, lambda: f"{what}: {got}, expected {want}")
    mc.step(len(p))
    mc.state(want)
    mc.trace()

def fn_gen(tier):
    d = 4
    quick = tier == "quick"
    for l1 in lines(frozenset(), False, quick):
        sc = frozenset([l1[1]]) if l1[0] == "ch" else frozenset()
        yield ["short", [l1]]
        for l2 in lines(sc, False, quick):
            yield ["prog", d, quick, [l1, l2]]

def fn_run(case):
    G = {"forall": forall, "choice": choice, "insist": insist, "deny": deny}
    if case[0] == "short":
        ps = [p for p in progs(1, False) if p] + list(progs(2, False, case[1]))
    else:
        ps = progs(case[1], case[2], case[3])
    n = 0
    for p in ps:
        s = func_src(p)
        judge(s, p, lambda: eval(s, G))
        n += 1
    mc.check(n, "no programs")

def chunks(it, n):
    it = iter(it)
    while True:
        c = list(itertools.islice(it, n))
        if not c: return
        yield c

def mac_progs(tier):
    seen = 0
    for p in progs(4, True):
        # thin the alphabet for the expensive macro form: canonical first line
        if len(p) > 1 and p[0][-1] in ("scalar", "T", "div"):
            continue
        if len(p) >= 4 and (p[0] != ["ch", "x", "r3"] or p[1][0] == "ch" and p[1][-1] in ("scalar", "empty")):
            continue
        yield p

def mac_gen(tier):
    for c in chunks(mac_progs(tier), 60):
        yield c

HEADER = "from unpythonic.syntax import macros, forall\nfrom unpythonic.syntax import insist, deny\n"
def mac_run(case):
    names = [f"f{i}" for i in range(len(case))]
    fs = macros.programs(HEADER, [f"{n} = lambda: {macro_src(p)}" for n, p in zip(names, case)], names)
    for p, f in zip(case, fs):
        mc.check(not isinstance(f, Exception), lambda: f"{macro_src(p)} does not expand: {f}")
        judge(macro_src(p), p, f)

# ---- names, laws
def law_gen(tier):
    yield ["names"]
    yield ["misuse"]
    L = [list(p) for n in range(4) for p in itertools.product((0, 1, 2), repeat=n)]
    for l in L:
        yield ["laws", l]

def law_run(case):
    if case[0] == "names":
        for a, b in itertools.permutations(["e", "set", "names", "assign", "close_over", "begin", "monadify", "bodys", "_", "value", "extend", "self", "x", "env", "k", "v"], 2):
            got = mc.outcome(lambda: forall(choice(**{a: (1, 2)}), choice(**{b: lambda q: (getattr(q, a), 5)}), lambda q: insist(getattr(q, b) != 2), lambda q: (getattr(q, a), getattr(q, b))))
            mc.eq(got, ("ok", ((1, 1), (1, 5), (2, 5))), f"choices named {a}, {b}")
            mc.step()
        mc.state("names")
        return
    if case[0] == "misuse":
        for bad in ({}, {"x": 1, "y": 2}):
            mc.eq(mc.outcome(choice, **bad), ("exc", "ValueError"), f"choice {bad}")
        for bad in (lambda: 1, lambda a, b: 1):
            mc.eq(mc.outcome(forall, bad), ("exc", "TypeError"), "line of wrong arity")
            mc.eq(mc.outcome(forall, choice(x=bad), lambda e: e.x), ("exc", "TypeError"), "choice of wrong arity")
        mc.eq(mc.outcome(forall, choice(**{"a b": (1,)}), lambda e: 1), ("exc", "ValueError"), "invalid name")
        mc.eq(mc.outcome(forall, lambda e: e.x, choice(x=(1,)), lambda e: e.x), ("exc", "AttributeError"), "later name visible earlier")
        mc.eq(mc.outcome(forall, choice(x=lambda e: e.x), lambda e: e.x), ("exc", "AttributeError"), "name visible in its own choice")
        # an iterator is consumed by the first pass over it, like in nested loops; nested forall
        mc.eq(forall(choice(x=(1, 2)), choice(y=lambda e: forall(choice(x=(10, 20)), lambda i: i.x + e.x)), lambda e: (e.x, e.y)), ((1, 11), (1, 21), (2, 12), (2, 22)), "nested forall")
        it = iter((1, 2))
        mc.eq(forall(choice(x=(1, 2)), choice(y=it), lambda e: (e.x, e.y)), ((1, 1), (1, 2)), "shared iterator")
        # side effects happen exactly as often as in the loops, in order
        for guard in (lambda v: True, lambda v: v % 2, lambda v: False):
            log, want = [], []
            r = forall(choice(x=range(3)), lambda e: log.append(("a", e.x)), lambda e: insist(guard(e.x)), choice(y=lambda e: (log.append(("b", e.x)), range(2))[1]), lambda e: (log.append(("c", e.x, e.y)), e.x * 10 + e.y)[1])
            w = []
            for x in range(3):
                want.append(("a", x))
                if not guard(x): continue
                want.append(("b", x))
                for y in range(2):
                    want.append(("c", x, y))
                    w.append(x * 10 + y)
            mc.check(log == want and r == tuple(w), lambda: f"effects {log}, expected {want}")
        mc.eq(mc.outcome(lambda: MonadicList(1).then(5)), ("exc", "TypeError"), "then")
        mc.eq(mc.outcome(lambda: MonadicList(1) + [5]), ("exc", "TypeError"), "add")
        mc.eq(mc.outcome(lambda: MonadicList(1, MonadicList(2)).join()), ("exc", "TypeError"), "join")
        mc.eq(len(MonadicList(nil)), 0, "nil")
        mc.state("misuse")
        return
    l = case[1]
    M = MonadicList
    m = M.from_iterable(l)
    fs = [lambda a: M(a), lambda a: M(), lambda a: M(a, 10 * a), lambda a: M(*range(a)), lambda a: M(a, a, -a), lambda a: M.guard(a), lambda a: M((a, a))]
    mc.check(tuple(m) == tuple(l) and len(m) == len(l) and [m[i] for i in range(len(l))] == l, "contents")
    for f in fs:
        for a in (0, 1, 2):
            mc.check(tuple(M(a) >> f) == tuple(f(a)), "left identity")
        mc.check(tuple(m >> f) == tuple(y for x in l for y in f(x)), lambda: f"{l}: bind")
        for g in fs:
            g2 = lambda v: g(v if isinstance(v, int) else v[0])
            mc.check(tuple((m >> f) >> g2) == tuple(m >> (lambda x: f(x) >> g2)), lambda: f"{l}: associativity")
            mc.step()
    mc.check(tuple(m >> (lambda a: M(a))) == tuple(m), "right identity")
    mc.check(m == m.copy() and m.copy() is not m and not m != m.copy(), "copy")
    mc.check(tuple(m.fmap(lambda x: x + 1)) == tuple(x + 1 for x in l), "fmap")
    mc.check(tuple(m >> M.lift(lambda x: x * 2)) == tuple(x * 2 for x in l), "lift")
    for l2 in ([], [5], [5, 6]):
        m2 = M.from_iterable(iter(l2))
        mc.check(tuple(m + m2) == tuple(l + l2) and tuple(m.then(m2)) == tuple(l2 * len(l)), lambda: f"{l} {l2}: append/then")
        mc.check((m == m2) == (l == l2), "equality")
    mc.check(tuple(M.from_iterable([m, m]).join()) == tuple(l + l), "join")
    l = [(None, (), "")[x] for x in l]      # values without arithmetic
    m = M.from_iterable(l)
    mc.check(tuple(m) == tuple(l) and len(m) == len(l) and [m[i] for i in range(len(l))] == l and tuple(m >> M) == tuple(l), "contents")
    for f in (lambda a: M(a, 1, a), lambda a: M(), lambda a: M((a,)), lambda a: M.guard(a), lambda a: M(1) if a is None else M(None)):
        mc.check(tuple(m >> f) == tuple(y for x in l for y in f(x)), lambda: f"{l}: bind")
    mc.check(tuple(M.from_iterable([m, M(1), m, M()]).join()) == tuple(l + [1] + l) and tuple(m + m) == tuple(l + l) and m == M(*l), "join, append")
    mc.state(l)

SPACES = [
    mc.Space("function", fn_gen, fn_run, "all well-scoped forall programs of up to 4 lines (thorough: a larger alphabet) over choices, dependent choices, rebinding, guards, plain lines, failing lines, closures as results", timeout=300),
    mc.Space("macro", mac_gen, mac_run, "all well-scoped macro programs of up to 3 lines, of 4 lines for a canonical first line", timeout=300),
    mc.Space("laws", law_gen, law_run, "monad laws on all lists of length up to 3 over 3 values x 7 x 7 functions; all pairs of 16 choice names; misuse, effect order"),
]
if __name__ == "__main__":
    print(sum(1 for _ in mac_progs("quick")), sum(1 for _ in mac_progs("thorough")), sum(1 for _ in progs(4, True)))
