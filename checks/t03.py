"""T03: fix / fixtco on all small recursion graphs vs. an explicit evaluator with an in-progress set."""
from lib import mc
import itertools, threading, typing
from unpythonic import fix, fixtco, jump, trampolined

class X(Exception):
    pass

BOT = ("BOTTOM",)
def isbot(x):
    return isinstance(x, tuple) and x[:1] == BOT or x is typing.NoReturn

def mkbottom(kind, calls):
    """-> (decorator kwargs, function(name, k) giving the expected bottom value)"""
    if kind == "default":
        return {}, lambda name, k: typing.NoReturn
    if kind == "const":
        return {"bottom": BOT}, lambda name, k: BOT
    if kind == "callable":
        def b(name, k):
            calls.append((name, k))
            return BOT + (name, k)
        return {"bottom": b}, lambda name, k: BOT + (name, k)
    def b(name, k):
        raise X("bottom", name, k)
    def mb(name, k):
        raise X("bottom", name, k)
    return {"bottom": b}, mb

def interp(op, me, k, call, tail, strict):
    """one body, shared by implementation and model; call(fi, k, kw) / tail(fi, k)"""
    o = op[0]
    if o == "ret":
        return ("v", me, k)
    if o == "raise":
        raise X("body", me, k)
    if o == "call":
        return call(op[1], op[2], False)
    if o == "callkw":
        return call(op[1], op[2], True)
    if o == "jump":
        return tail(op[1], op[2])
    if o == "wrap":
        r = call(op[1], op[2], False)
        return r if strict and isbot(r) else ("w", me, k, r)
    if o == "both":
        a = call(op[1], op[2], False)
        if strict and isbot(a):
            return a
        b = call(op[3], op[4], False)
        return b if strict and isbot(b) else ("b", a, b)
    if o == "calljump":       # non-tail call, then a tail call
        a = call(op[1], op[2], False)
        if strict and isbot(a):
            return a
        return tail(op[3], op[4])
    if o == "try":
        try:
            return call(op[1], op[2], False)
        except X as e:
            return ("caught", me, k) + e.args
    if o == "tryjump":
        try:
            call(op[1], op[2], False)
        except X:
            pass
        return tail(op[1], op[2])
    if o == "isbot":          # non-strict: observes bottom
        return ("isbot", isbot(call(op[1], op[2], False)))
    assert False, o

def real(table, deco, kinds, kw, log, strict):
    nf = len(table)
    fs = [None] * nf
    def mk(i):
        def call(fi, k, named):
            return fs[fi](k=k) if named else fs[fi](k)
        def tail(fi, k):
            return jump(fs[fi], k)
        def f(k):
            log.append((i, k))
            return interp(table[i][k], i, k, call, tail, strict)
        f.__name__ = f.__qualname__ = f"f{i}"
        if kinds[i] == "plain":
            return f
        return deco(**kw)(f)
    for i in range(nf):
        fs[i] = mk(i)
    return fs

def model(table, i, k, visiting, bottom, log, strict):
    if (i, k) in visiting:
        return bottom(f"f{i}", k)
    log.append((i, k))
    v = visiting | {(i, k)}
    call = lambda fi, kk, named: model(table, fi, kk, v, bottom, log, strict)
    return interp(table[i][k], i, k, call, lambda fi, kk: call(fi, kk, False), strict)

def outcome(thunk):
    try:
        return ("ok", thunk())
    except mc.CaseTimeout:
        raise
    except X as e:
        return ("exc",) + e.args

def run(case):
    tco, memo, strict, bkind, kinds, table, tops = case
    deco = fixtco if tco else fix
    for top in tops:
        calls, log = [], []
        kw, mb = mkbottom(bkind, calls)
        fs = real(table, deco, kinds, {**kw, "memo": memo}, log, strict)
        for fi, k in top:
            n0 = len(log)
            got = outcome(lambda: fs[fi](k))
            wlog = []
            want = outcome(lambda: model(table, fi, k, frozenset(), mb, wlog, strict))
            mc.check(got == want, lambda: f"{'fixtco' if tco else 'fix'}(memo={memo}) calls {top}: f{fi}({k}) gave {got}, expected {want}")
            if not memo:
                mc.check(log[n0:] == wlog, lambda: f"calls {top}: body entries {log[n0:]}, expected {wlog}")
            mc.step(len(log) - n0)
            mc.trace()
        if memo and not tco:
            mc.check(len(set(log)) == len(log), lambda: f"memo=True but a body ran twice for one argument: {log}")
        mc.state((got, len(log)))

def ops(targets, names):
    out = []
    for n in names:
        if n in ("ret", "raise"):
            out.append((n,))
        elif n in ("both", "calljump"):
            out += [(n,) + a + b for a in targets for b in targets]
        else:
            out += [(n,) + t for t in targets]
    return out

def gen1(tier):
    """one function, three arguments"""
    t = [(0, k) for k in range(3)]
    tops = [[(0, a), (0, b)] for a in range(3) for b in range(3)]
    base = ["ret", "raise", "call", "wrap", "try"]
    for tco in (False, True):
        for memo in (False, True):
            names = base + (["jump"] if tco else ["callkw"])
            if not memo:
                names = names + ["isbot"]
            for bk in (("default", "const", "callable", "raising") if not memo else ("default", "const")):
                full = bk in ("const", "callable")
                al = ops(t, names + (["calljump"] if tco else ["both"]) if full and tier != "quick" else names)
                for tab in itertools.product(al, repeat=3):
                    yield [tco, memo, memo, bk, ["fix"], [tab], tops]

def gen1b(tier):
    """one function, two arguments, full operation set"""
    t = [(0, k) for k in range(2)]
    tops = [[(0, a), (0, b), (0, c)] for a in range(2) for b in range(2) for c in range(2)]
    for tco in (False, True):
        for memo in (False, True):
            names = ["ret", "raise", "call", "callkw", "wrap", "try", "both"] + (["jump", "calljump", "tryjump"] if tco else []) + ([] if memo else ["isbot"])
            for bk in (("default", "const", "callable", "raising") if not memo else ("default", "const")):
                for tab in itertools.product(ops(t, names), repeat=2):
                    yield [tco, memo, memo, bk, ["fix"], [tab], tops]

def gen2(tier):
    """two mutually recursive functions, two arguments each"""
    t = [(f, k) for f in range(2) for k in range(2)]
    for tco in (False, True):
        for kinds in (["fix", "fix"], ["fix", "plain"]):
            if not tco and kinds[1] == "plain":
                continue
            for memo, bk in ((False, "callable"), (True, "const")):
                n0 = ["ret", "raise", "call", "jump"] if tco else ["ret", "raise", "call"]
                al0 = ops(t if kinds[1] == "fix" else t, n0)
                if tier != "quick":
                    al0 = al0 + ops(t, ["wrap", "try"])
                else:
                    al0 = al0 + ops(t[:1] + t[2:3], ["try"])
                if kinds[1] == "plain":   # the plain function can be reached by jumps only
                    al0 = [o for o in al0 if o[0] in ("ret", "raise", "jump") or o[1] == 0]
                tops = [[a, b] for a in t for b in t[:2] if kinds[a[0]] == "fix" and kinds[b[0]] == "fix"]
                for tab in itertools.product(al0, repeat=4):
                    yield [tco, memo, memo, bk, kinds, [tab[:2], tab[2:]], tops]

def deep_gen(tier):
    for n in (1, 2, 7, 1500 if tier == "quick" else 20000):
        for memo in (False, True):
            for tail in range(0, 3):
                for end in ("cycle", "ret"):
                    yield [n, memo, tail, end]

def deep_run(case):
    """a cycle of n jumps with a lead-in of `tail` jumps"""
    n, memo, tail, end = case
    log, seen = [], []
    @fixtco(bottom=lambda name, k: ("bot", name, k), memo=memo)
    def f(k):
        log.append(k)
        if k < 0:
            return jump(f, k + 1)
        if end == "ret" and k == n - 1:
            return ("done", k)
        return jump(f, (k + 1) % n)
    r = f(-tail)
    mc.check(log == list(range(-tail, n)), lambda: f"entries {log[:5]}..{len(log)}")
    mc.eq(r, ("done", n - 1) if end == "ret" else ("bot", "f", 0), "result")
    log.clear()
    r2 = f(n // 2)
    if not (memo and n // 2 == -tail):
        mc.eq(r2, ("done", n - 1) if end == "ret" else ("bot", "f", n // 2), "second call")
    mc.step(2 * n)
    mc.state((case))

def thr_gen(tier):
    for tco in (False, True):
        for pause in range(3):
            for other in range(3):
                for cyc in (False, True):
                    yield [tco, pause, other, cyc]

def thr_run(case):
    """while one thread is inside the recursion at `pause`, another thread makes a complete call"""
    tco, pause, other, cyc = case
    inside, go = threading.Event(), threading.Event()
    main = threading.get_ident()
    deco = fixtco if tco else fix
    @deco(bottom=lambda name, k: ("bot", k), memo=False)
    def f(k):
        if k == pause and threading.get_ident() != main:
            inside.set()
            go.wait(10)
        if k == 2 and not cyc:
            return ("end", k)
        return jump(f, (k + 1) % 3) if tco else f((k + 1) % 3)
    out = []
    th = threading.Thread(target=lambda: out.append(f(0)))
    th.start()
    assert inside.wait(10)
    try:
        r = f(other)
    finally:
        go.set()
        th.join()
    mc.eq(r, ("bot", other) if cyc else ("end", 2), "call while another thread is inside")
    mc.eq(out, [("bot", 0) if cyc else ("end", 2)], "the interrupted thread")
    mc.step(2)
    mc.state(case)

def sig_gen(tier):
    """equivalent ways of binding the same arguments are the same call"""
    forms = ["f(1, 2)", "f(1)", "f(a=1)", "f(a=1, b=2)", "f(b=2, a=1)", "f(1, b=2)", "f(1, 2, 3)", "f(1, z=3)", "f(2)", "f(*(1,), **{'b': 2})"]
    for tco in (False, True):
        for i, a in enumerate(forms):
            for j, b in enumerate(forms):
                yield [tco, a, b]

def sig_run(case):
    tco, a, b = case
    log = []
    def impl(wrap, fixed):
        def f(a, b=2, *args, **kw):
            log.append((a, b, args, tuple(sorted(kw.items()))))
            if len(log) > 4:
                return "loop"
            if len(log) == 1:
                return eval(case[2], {"f": fixed() if not tco else lambda *x, **k: jump(fixed(), *x, **k)})
            return ("second", log[-1])
        return wrap(f)
    holder = []
    g = impl((fixtco if tco else fix)(bottom=lambda name, *x, **k: "BOT", memo=False), lambda: holder[0])
    holder.append(g)
    r = eval(a, {"f": g})
    def sigof(s):
        return eval(s, {"f": lambda a, b=2, *args, **kw: (a, b, args, tuple(sorted(kw.items())))})
    same = sigof(a) == sigof(b)
    mc.eq(r, "BOT" if same else ("second", sigof(b)), f"{a} re-entered as {b}")
    mc.step(2)
    mc.state((case[1:], r))

SPACES = [
    mc.Space("one-function-3", gen1, run, "all recursion tables over 3 arguments x operations ret/raise/call/wrap/try/jump/bottom test (thorough: also two calls), fix and fixtco, memo on/off, 4 kinds of bottom, all pairs of successive calls"),
    mc.Space("one-function-2", gen1b, run, "all tables over 2 arguments with the full operation set, all triples of successive calls"),
    mc.Space("two-functions", gen2, run, "2 mutually recursive functions x 2 arguments, all tables, all call pairs"),
    mc.Space("deep", deep_gen, deep_run, "jump cycles of 1, 2, 7, 1500 (20000) calls"),
    mc.Space("threads", thr_gen, thr_run, "a second thread calls at every point of another thread's recursion"),
    mc.Space("signatures", sig_gen, sig_run, "10 x 10 ways of writing the outer and the re-entrant call"),
]
