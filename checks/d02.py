"""D02 conditions and restarts: all nested programs of a small grammar vs. a reference interpreter."""
from lib import mc, sched
sched.install()
import itertools, warnings
from unpythonic import unbox
from unpythonic import conditions as cnd
from unpythonic.conditions import (signal, error, cerror, warn, handlers, restarts, with_restarts, invoke, find_restart,
                                   invoker, proceed, muffle, use_value, available_restarts, available_handlers,
                                   ControlError, resignal, resignal_in)

class A(Exception): pass
class B(A): pass
class C(Exception): pass
class W(UserWarning): pass
class Boom(Exception): pass
T = {"A": A, "B": B, "C": C, "W": W, "X": Exception, "AC": (A, C), "CE": ControlError, "BOTH": (B, A)}
PROTO = {"signal": signal, "error": error, "cerror": cerror, "warn": warn}

# --------------------------------------------------------------------------------- real execution
class Real:
    def __init__(self):
        self.log = []
        self.ntok = 0
    def newcond(self, name):
        c = T[name](name)
        self.ntok += 1
        c.tok = self.ntok
        return c
    def tok(self, c):
        return (type(c).__name__, getattr(c, "tok", None))
    def emit(self, *x):
        self.log.append(x)
    def handler(self, action):
        def h(c):
            self.emit("h", self.tok(c))
            return self.act(action, c)
        def h0():
            self.emit("h0")
            return self.act(action, None)
        return h0 if action[0] == "0" else h
    def act(self, action, c):
        k = action[0] if action[0] != "0" else action[1][0]
        a = action if action[0] != "0" else action[1]
        if k == "d":
            return "ignored"
        if k == "i":
            invoke(a[1], 7, k=8)
            self.emit("not reached")
        elif k == "iv":
            invoker(a[1], 7, k=8)(c)
            self.emit("not reached")
        elif k == "p":
            proceed(c)
        elif k == "m":
            muffle(c)
        elif k == "sig":
            self.sig(a[1], a[2])
        elif k == "Hd":
            with handlers((C, lambda: self.emit("inner handler"))):
                self.sig("signal", "C")
        elif k == "fi":
            r = find_restart(a[1])
            self.emit("found", r is not None)
            if r is not None:
                invoke(r, 7, k=8)
        elif k == "x":
            raise Boom("from handler")
    def sig(self, proto, cond):
        r = PROTO[proto](self.newcond(cond))
        self.emit("returned", proto, self.tok(r) if proto == "signal" else None)
    def fn(self, name, n):
        def r(*args, **kw):
            self.emit("restart", name, n, args, sorted(kw))
            return (name, n, args)
        def rr(*args, **kw):
            self.emit("restart", name, n, args, sorted(kw))
            invoke("r", 9)
        def rx(*args, **kw):
            raise Boom("from restart")
        return {"rr": rr, "rx": rx}.get(name, r)
    def run(self, node, n=0):
        k = node[0]
        if k == "sig":
            self.sig(node[1], node[2])
            return "sigval"
        if k == "inv":
            invoke(node[1], 5)
        if k == "raise":
            raise Boom("body")
        if k == "probe":
            self.emit("probe", [x[0] for x in available_restarts()], [x[0].__name__ for x in available_handlers()])
            return "probe"
        if k == "S":
            self.run(node[1], n + 1)
            self.emit("mid")
            return self.run(node[2], n + 1)
        body = lambda: self.run(node[-1], n + 1)
        if k == "H":
            with handlers(*[(T[t], self.handler(a)) for t, a in node[1]]):
                v = body()
            self.emit("afterH", n)
            return v
        if k == "R":
            with restarts(**{("r" if m in ("rr", "rx") else m): self.fn(m, n) for m in node[1]}) as result:
                result << body()
            self.emit("afterR", n, unbox(result))
            return unbox(result)
        if k == "W":
            v = with_restarts(**{m: self.fn(m, n) for m in node[1]})(body)
            self.emit("afterR", n, v)
            return v
        if k == "T":
            try:
                return body()
            except ControlError as e:
                self.emit("caught CE", self.tok(e.__cause__) if e.__cause__ is not None else None)
                return "T"
        if k == "E":
            try:
                return body()
            except Boom as e:
                self.emit("caught", e.args)
                return "E"
        if k == "F":
            try:
                return body()
            finally:
                self.emit("finally", n)
        if k == "RS":
            with resignal({A: C("re")}):
                return body()
        if k == "RI":
            return resignal_in(body, {A: C("re")})
        raise ValueError(k)

# --------------------------------------------------------------------------------- reference interpreter
class Unwind(Exception):
    pass
class MCE(Exception):        # model of a raised ControlError
    pass
class MBoom(Exception):
    pass
SUP = {"A": {"A", "X", "AC", "BOTH"}, "B": {"A", "B", "X", "AC", "BOTH"}, "C": {"C", "X", "AC"}, "W": {"X", "W"}, "CE": {"CE", "X"}}
NAMES = {"A": ("A",), "B": ("B",), "C": ("C",), "W": ("W",), "X": ("Exception",), "AC": ("A", "C"), "CE": ("ControlError",), "BOTH": ("B", "A"),
         "ALL": ("BaseException",)}

class Model:
    def __init__(self):
        self.log = []
        self.H, self.R = [], []          # innermost last
        self.ntok = 0
        self.ids = itertools.count()
    def emit(self, *x):
        self.log.append(x)
    def signal(self, cname, tok, proto):
        for block in reversed(list(self.H)):
            for t, action in block:
                if t == "ALL" or t in SUP[cname]:
                    self.handle(action, (cname, tok), proto)
        return (cname, tok)
    def handle(self, action, c, proto):
        if action[0] == "resig":
            if c[0] in ("A", "B"):
                self.proto(proto, "C", None)
            return
        if action[0] == "0":
            self.emit("h0")
            action = action[1]
        else:
            self.emit("h", (c[0] if c[0] != "CE" else "ControlError", c[1]))
        k = action[0]
        if k in ("i", "iv"):
            self.invoke(action[1], (7,), ["k"])
        elif k == "p":
            self.invoke("proceed", (), [])
        elif k == "m":
            self.invoke("muffle", (), [])
        elif k == "sig":
            self.sig(action[1], action[2])
        elif k == "Hd":
            self.H.append([("C", ["innerh"])])
            try:
                self.sig("signal", "C")
            finally:
                self.H.pop()
        elif k == "innerh":
            self.log.pop()
            self.emit("inner handler")
        elif k == "fi":
            f = self.find(action[1])
            self.emit("found", f is not None)
            if f is not None:
                raise Unwind(f, action[1], (7,), ["k"])
        elif k == "x":
            raise MBoom("from handler")
    def find(self, name):
        for rid, names in reversed(self.R):
            if name in names:
                return rid
    def invoke(self, name, args, kw):
        rid = self.find(name)
        if rid is None:
            self.proto("error", "CE", None)
        raise Unwind(rid, name, args, kw)
    def proto(self, proto, cname, tok):
        if proto == "signal":
            return self.signal(cname, tok, proto)
        if proto == "error":
            self.signal(cname, tok, proto)
            raise MCE(("ControlError" if cname == "CE" else cname, tok))
        if proto == "cerror":
            rid = next(self.ids)
            self.R.append((rid, ["proceed"]))
            try:
                self.signal(cname, tok, proto)
                raise MCE((cname, tok))
            except Unwind as u:
                if u.args[0] != rid:
                    raise
            finally:
                self.R.pop()
        else:
            mid, pid = next(self.ids), next(self.ids)
            self.R += [(mid, ["muffle"]), (pid, ["_proceed"])]
            depth = len(self.R)
            try:
                self.signal(cname, tok, proto)
                self.emit("warning", "W" if cname == "W" else "Warning", "re" if tok is None else cname)
            except Unwind as u:
                if u.args[0] != mid:
                    raise
            finally:
                del self.R[depth - 2:]
    def sig(self, proto, cond):
        self.ntok += 1
        tok = self.ntok
        self.proto(proto, cond, tok)
        self.emit("returned", proto, (cond, tok) if proto == "signal" else None)
    def run(self, node, n=0):
        k = node[0]
        if k == "sig":
            self.sig(node[1], node[2])
            return "sigval"
        if k == "inv":
            self.invoke(node[1], (5,), [])
        if k == "raise":
            raise MBoom("body")
        if k == "probe":
            rs = sorted({x for _, names in self.R for x in names})
            hs = []
            for block in reversed(self.H):
                for t, _ in block:
                    for x in NAMES[t]:
                        if x not in hs:
                            hs.append(x)
            self.emit("probe", rs, sorted(hs))
            return "probe"
        if k == "S":
            self.run(node[1], n + 1)
            self.emit("mid")
            return self.run(node[2], n + 1)
        body = lambda: self.run(node[-1], n + 1)
        if k in ("H", "RS", "RI"):
            self.H.append(node[1] if k == "H" else [("ALL", ["resig"])])
            try:
                v = body()
            finally:
                self.H.pop()
            if k == "H":
                self.emit("afterH", n)
            return v
        if k in ("R", "W"):
            rid = next(self.ids)
            depth, hdepth = len(self.R), len(self.H)
            self.R.append((rid, ["r" if m in ("rr", "rx") else m for m in node[1]]))
            u = None
            try:
                v = body()
            except Unwind as e:
                if e.args[0] != rid:
                    raise
                u = e
            finally:
                del self.R[depth:]
            if u is not None:
                _, name, args, kw = u.args
                variant = [m for m in node[1] if m == name or (name == "r" and m in ("rr", "rx"))][0]
                if variant == "rx":
                    raise MBoom("from restart")
                self.emit("restart", variant, n, args, kw)
                if variant == "rr":
                    self.invoke("r", (9,), [])
                v = (variant, n, args)
            self.emit("afterR", n, v)
            return v
        if k == "T":
            try:
                return body()
            except MCE as e:
                self.emit("caught CE", e.args[0])
                return "T"
        if k == "E":
            try:
                return body()
            except MBoom as e:
                self.emit("caught", e.args)
                return "E"
        if k == "F":
            try:
                return body()
            finally:
                self.emit("finally", n)

def run_model(prog):
    m = Model()
    try:
        out = ("ok", m.run(prog))
    except MCE as e:
        out = ("CE", e.args[0])
    except MBoom as e:
        out = ("Boom", e.args)
    return m.log, out

def run_real(prog):
    r = Real()
    old = warnings.showwarning
    try:
        out = ("ok", r.run(prog))
    except ControlError as e:
        out = ("CE", r.tok(e.__cause__))
    except Boom as e:
        out = ("Boom", e.args)
    return r.log, out

def install_warnings(real):
    def show(message, category, filename, lineno, file=None, line=None):
        real.log.append(("warning", category.__name__, str(message)))
    return show

def judge(prog):
    r = Real()
    with warnings.catch_warnings():
        warnings.simplefilter("always")
        warnings.showwarning = install_warnings(r)
        try:
            out = ("ok", r.run(prog))
        except ControlError as e:
            out = ("CE", r.tok(e.__cause__))
        except Boom as e:
            out = ("Boom", e.args)
    mlog, mout = run_model(prog)
    norm = lambda out: out
    mc.check(available_restarts() == [] and available_handlers() == [], "stacks not restored")
    mc.check(out == mout and r.log == mlog,
             lambda: f"program {prog}: got {out} log {r.log}; expected {mout} log {mlog}")
    mc.step(len(mlog) + 1)
    mc.state((mout, tuple(map(str, mlog))))

# --------------------------------------------------------------------------------- spaces
def H(*b):
    return ["H", [list(x) for x in b]]
WRAP = [H(("A", ["d"])), H(("A", ["i", "r"])), H(("A", ["iv", "s"])), H(("B", ["i", "r"])), H(("AC", ["i", "r"])), H(("X", ["d"])),
        H(("A", ["d"]), ("A", ["i", "r"])), H(("B", ["d"]), ("A", ["i", "r"]), ("A", ["d"])), H(("A", ["sig", "signal", "C"])),
        H(("A", ["sig", "cerror", "C"]), ("C", ["p"])), H(("A", ["Hd"])), H(("C", ["i", "r"])), H(("A", ["p"])), H(("A", ["m"])),
        H(("A", ["x"])), H(("A", ["fi", "r"])), H(("A", ["0", ["i", "r"]])), H(("CE", ["fi", "s"])), H(("BOTH", ["d"])),
        ["R", ["r"]], ["R", ["s"]], ["R", ["r", "s"]], ["R", ["rr"]], ["R", ["rx"]], ["W", ["r"]],
        ["T"], ["E"], ["F"], ["RS"], ["RI"], ["S>"]]
LEAF = [["sig", "signal", "A"], ["sig", "signal", "B"], ["sig", "signal", "C"], ["sig", "error", "A"], ["sig", "error", "B"],
        ["sig", "cerror", "A"], ["sig", "warn", "A"], ["sig", "warn", "W"], ["inv", "r"], ["raise"], ["probe"]]

def compose(ws, leaf):
    node = LEAF[leaf]
    for w in reversed(ws):
        w = WRAP[w]
        node = ["S", node, ["sig", "signal", "A"]] if w[0] == "S>" else w + [node]
    return node

def nest_gen(tier):
    D = 3 if tier == "quick" else 4
    for ws in mc.seqs(range(len(WRAP)), D):
        for leaf in range(len(LEAF)):
            yield [list(ws), leaf]

def nest_run(case):
    judge(compose(*case))

# types given instead of instances; bad arguments
def misc_gen(tier):
    for p in PROTO:
        for t in ("A", "B", "W"):
            for how in ("type", "instance"):
                for act in ("none", "decline", "restart"):
                    for cause in (False, True):
                        yield [p, t, how, act, cause]

def misc_run(case):
    p, t, how, act, cause = case
    seen, warned = [], []
    def h(c):
        seen.append(c)
        if act == "restart":
            use_value(41)
    hs = [(T["X"], h)] if act != "none" else []
    cz = ValueError("cause") if cause else None
    with warnings.catch_warnings():
        warnings.simplefilter("always")
        warnings.showwarning = lambda message, category, *a, **k: warned.append((category, message))
        with handlers(*hs):
            with restarts(use_value=lambda x: x + 1) as result:
                try:
                    v = PROTO[p](T[t] if how == "type" else T[t]("m"), cause=cz)
                    result << ("returned", v)
                except ControlError as e:
                    result << ("CE", e.__cause__)
    r = unbox(result)
    mc.step()
    if act == "restart":
        mc.check(r == 42 and not warned, lambda: f"{case}: {r} {warned}")
    elif p == "signal":
        mc.check(r[0] == "returned" and type(r[1]) is T[t], lambda: f"{case}: {r}")
    elif p in ("error", "cerror"):
        mc.check(r[0] == "CE" and type(r[1]) is T[t], lambda: f"{case}: {r}")
    else:
        mc.check(r == ("returned", None) and len(warned) == 1 and warned[0][0] is (W if t == "W" else Warning), lambda: f"{case}: {r} {warned}")
    if act != "none":
        mc.check(len(seen) == 1 and type(seen[0]) is T[t] and seen[0].__cause__ is cz, lambda: f"{case}: handler got {seen}")
        if p == "signal" and act == "decline":
            mc.check(r[1] is seen[0], "signal returns the instance handlers saw")
    mc.state((case, str(r)))

# thread isolation: each thread's run equals its run alone, for every schedule
PROGS = [compose([1, 19], 0), compose([0, 25], 3), compose([6, 21, 19], 5), compose([19, 1, 24], 0), compose([10, 20], 1), ["S", ["probe"], compose([3, 19, 0], 10)]]
def thr_gen(tier):
    b = 1 if tier == "quick" else 2
    for i, j in itertools.combinations_with_replacement(range(len(PROGS)), 2):
        for part in range(2):
            yield [i, j, b, part, 2]

def thr_run(case):
    i, j, b, part, n = case
    want = [run_model(PROGS[k]) for k in (i, j)]
    def make():
        rs = [Real(), Real()]
        def body(k, prog):
            def run():
                try:
                    return ("ok", rs[k].run(prog))
                except ControlError as e:
                    return ("CE", rs[k].tok(e.__cause__))
            return run
        def judge(ex):
            for k in (0, 1):
                r = ex.results[k]
                mc.check(r[0] == "ok" and r[1] == want[k][1] and rs[k].log == want[k][0],
                         lambda: f"thread {k}: {r} {rs[k].log}, expected {want[k]}")
        return [body(0, PROGS[i]), body(1, PROGS[j])], judge
    sched.start(("/conditions.py",))
    sched.explore(make, b, part, n)

SPACES = [
    mc.Space("nested_programs", nest_gen, nest_run, f"all nestings of depth <=3 (thorough 4) of {len(WRAP)} handler/restart/try/resignal blocks around {len(LEAF)} leaves"),
    mc.Space("protocol_arguments", misc_gen, misc_run, "4 protocols x types/instances x causes x handler reaction"),
    mc.Space("threads", thr_gen, thr_run, "all pairs of 6 programs in two threads, all schedules with <=1 (2) preemptions", timeout=300),
]
