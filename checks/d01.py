"""D01 dynamic assignment."""
from lib import mc, sched
sched.install()
import itertools, threading, queue
from unpythonic import dyn, make_dynvar
from unpythonic import dynassign

BASE = dict(dyn.items())            # library's own dynvars
make_dynvar(g=0)
NAMES = ("a", "b", "g", "n")
_real_main = threading._main_thread

class Blk(Exception):
    pass

class Model:
    """scopes: list of dicts, innermost last; glob: shared dict"""
    def __init__(self, glob, scopes=()):
        self.glob = glob
        self.scopes = [dict(s) for s in scopes]
    def find(self, k):
        for s in reversed(self.scopes):
            if k in s:
                return s
        return self.glob if k in self.glob else None
    def flat(self):
        d = dict(self.glob)
        for s in self.scopes:
            d.update(s)
        return d

def clear_views():
    """the library keeps every live view registered for the rest of the thread; drop them between cases (speed only)"""
    obs = getattr(dynassign, "_getobservers", None)
    if obs is not None:
        try:
            obs().clear()
        except Exception:
            pass

def own(d):
    return {k: v for k, v in d.items() if k not in BASE}

def observe(m, views, tag):
    flat = own(m.flat())
    for k in NAMES:
        have = k in flat
        try:
            v = getattr(dyn, k)
            mc.check(have and v == flat[k], lambda: f"{tag}: dyn.{k} = {v!r}, expected {flat.get(k, 'unbound')!r}")
        except AttributeError:
            mc.check(not have, lambda: f"{tag}: dyn.{k} unbound, expected {flat.get(k)!r}")
        mc.check((k in dyn) == have, lambda: f"{tag}: membership of {k}")
        mc.check(dyn.get(k, "dflt") == flat.get(k, "dflt"), lambda: f"{tag}: get({k})")
        if have:
            mc.check(dyn[k] == flat[k], lambda: f"{tag}: dyn[{k!r}]")
    mc.check(own(dict(dyn.items())) == flat, lambda: f"{tag}: items() = {own(dict(dyn.items()))}, expected {flat}")
    mc.check({k for k in dyn if k not in BASE} == set(flat) == {k for k in dyn.keys() if k not in BASE}, lambda: f"{tag}: iteration")
    mc.check(len(dyn) == len(flat) + len(BASE), lambda: f"{tag}: len")
    for n, v in enumerate(views):
        mc.check(own(dict(v)) == flat, lambda: f"{tag}: view {n} shows {own(dict(v))}, expected {flat}")

# ---------------------------------------------------------------- single-thread histories
OPS = [["push", {"a": 1}], ["push", {"b": 2}], ["push", {"a": 3, "g": 4}], ["push", {}], ["pop"], ["popx"], ["set", "a"], ["set", "g"], ["set", "n"],
       ["item", "b"], ["upd", ["a", "b"]], ["upd", ["a", "n"]], ["upd", ["g"]], ["view"], ["mk"]]
def hist_gen(tier):
    L = 5 if tier == "quick" else 6
    for h in itertools.product(range(len(OPS)), repeat=L):
        # prune: no pops of an empty stack, first op not view
        depth = 0
        ok = True
        for i in h:
            k = OPS[i][0]
            if k == "push":
                depth += 1
            elif k in ("pop", "popx"):
                depth -= 1
                if depth < 0:
                    ok = False
                    break
        if ok and tier == "quick" and OPS[h[0]][0] not in ("push", "view"):
            ok = False
        if ok:
            yield list(h)

def apply(op, m, cms, fresh, views):
    k = op[0]
    if k == "push":
        cm = dyn.let(**op[1])
        cm.__enter__()
        cms.append(cm)
        m.scopes.append(dict(op[1]))
    elif k == "pop":
        cms.pop().__exit__(None, None, None)
        m.scopes.pop()
    elif k == "popx":
        e = Blk()
        mc.check(not cms.pop().__exit__(Blk, e, None), "binding block swallowed an exception")
        m.scopes.pop()
    elif k in ("set", "item"):
        v = next(fresh)
        s = m.find(op[1])
        try:
            if k == "set":
                setattr(dyn, op[1], v)
            else:
                dyn[op[1]] = v
            mc.check(s is not None, f"rebinding created {op[1]}")
            s[op[1]] = v
        except AttributeError:
            mc.check(s is None, f"rebinding of bound {op[1]} failed")
    elif k == "upd":
        new = {x: next(fresh) for x in op[1]}
        ss = [m.find(x) for x in op[1]]
        try:
            dyn.update(**new)
            mc.check(None not in ss, "update created a name")
            for x, s in zip(op[1], ss):
                s[x] = new[x]
        except AttributeError:
            mc.check(None in ss, "update of bound names failed")
    elif k == "view":
        views.append(dyn.asdict())
    elif k == "mk":
        v = next(fresh)
        make_dynvar(g=v)
        m.glob["g"] = v

def hist_run(h):
    make_dynvar(g=0)
    m = Model({**BASE, "g": 0})
    cms, views = [], []
    fresh = itertools.count(100)
    try:
        for n, i in enumerate(h):
            mc.step()
            apply(OPS[i], m, cms, fresh, views)
            observe(m, views, f"history {[OPS[j] for j in h[:n + 1]]}")
            mc.state((len(views), str(m.scopes), m.glob["g"]))
        while cms:
            apply(["pop"], m, cms, fresh, views)
        observe(m, views, "after leaving all blocks")
        mc.state(tuple(sorted(m.flat().items(), key=str)))
    finally:
        while cms:
            cms.pop().__exit__(None, None, None)
        clear_views()

# with-statement form, nested exits
def with_gen(tier):
    for depth in (1, 2, 3):
        for exits in itertools.product(("ok", "exc", "ret", "brk", "gen"), repeat=depth):
            yield list(exits)
def with_run(exits):
    make_dynvar(g=0)
    m = Model({**BASE, "g": 0})
    def level(n):
        m0 = [dict(s) for s in m.scopes]
        def body():
            for _ in (0,):
                with dyn.let(a=n, **({"b": n} if n % 2 else {})):
                    m.scopes.append({"a": n, **({"b": n} if n % 2 else {})})
                    observe(m, [], f"{exits} inside {n}")
                    if n + 1 < len(exits):
                        level(n + 1)
                    observe(m, [], f"{exits} inside {n} after inner")
                    dyn.a = ("rebound", n)
                    m.scopes[-1]["a"] = ("rebound", n)
                    m.scopes.pop()
                    if exits[n] == "exc":
                        raise Blk
                    if exits[n] == "ret":
                        return 5
                    if exits[n] == "brk":
                        break
            return 6
        if exits[n] == "gen":
            def g():
                with dyn.let(a=n):
                    yield dyn.a
            it = g()
            mc.check(next(it) == n, "generator")
            it.close()
            observe(m, [], f"{exits} after closing generator {n}")
        try:
            r = body()
        except Blk:
            r = "exc"
        mc.check(r == {"exc": "exc", "ret": 5}.get(exits[n], 6), "control flow")
        mc.check(m.scopes == m0, "model")
        observe(m, [], f"{exits} after {n}")
    level(0)
    mc.step(len(exits)); mc.state(exits)

# ---------------------------------------------------------------- two threads, operation interleavings
TOPS_MAIN = [["push", {"a": 1}], ["push", {"b": 2}], ["set", "a"], ["set", "g"], ["upd", ["a", "b"]], ["pop"]]
TOPS_WORK = [["read"], ["push", {"a": 7}], ["set", "a"], ["set", "g"], ["upd", ["a", "b"]], ["pop"]]
def thr_gen(tier):
    # main prefix (before the thread starts), then all interleavings of main and worker programs
    pre = list(itertools.product(range(5), repeat=2)) + [(0, 1, 2)]
    nm, nw = (1, 2) if tier == "quick" else (2, 3)
    for p in pre:
        for mo in itertools.product(range(len(TOPS_MAIN)), repeat=nm):
            for wo in itertools.product(range(len(TOPS_WORK)), repeat=nw):
                for pos in itertools.combinations(range(nm + nw), nm):
                    yield [list(p), list(mo), list(wo), list(pos)]

class Remote:
    """A real thread executing closures one at a time."""
    def __init__(self):
        self.q, self.r = queue.Queue(), queue.Queue()
        self.t = threading.Thread(target=self.loop, daemon=True)
        self.t.start()
    def loop(self):
        while True:
            f = self.q.get()
            if f is None:
                return
            try:
                self.r.put(("ok", f()))
            except BaseException as e:
                self.r.put(("exc", e))
    def call(self, f):
        self.q.put(f)
        k, v = self.r.get()
        if k == "exc":
            raise v
        return v
    def end(self):
        self.q.put(None)
        self.t.join()

def thr_run(case):
    p, mo, wo, pos = case
    make_dynvar(g=0)
    glob = {**BASE, "g": 0}
    m = Model(glob)
    cms, wcms = [], []
    fresh = itertools.count(100)
    r = None
    try:
        for i in p:
            if TOPS_MAIN[i][0] == "pop" and not cms:
                return
            apply(TOPS_MAIN[i], m, cms, fresh, [])
        r = Remote()
        w = Model(glob, m.scopes)
        r.call(lambda: observe(w, [], f"{case}: inherited"))
        depth = len(m.scopes)
        mi, wi = iter(mo), iter(wo)
        for k in range(len(mo) + len(wo)):
            mc.step()
            if k in pos:
                op = TOPS_MAIN[next(mi)]
                if op[0] == "pop" and not cms:
                    continue
                apply(op, m, cms, fresh, [])
            else:
                op = TOPS_WORK[next(wi)]
                if op[0] == "read" or (op[0] == "pop" and not wcms):
                    continue
                r.call(lambda: apply(op, w, wcms, fresh, []))
            what = f"main {[TOPS_MAIN[i] for i in p]} then {[TOPS_MAIN[i] for i in mo]} worker {[TOPS_WORK[i] for i in wo]} order {pos}"
            observe(m, [], what + ": main")
            r.call(lambda: observe(w, [], what + ": worker"))
        mc.state((str(m.scopes), str(w.scopes)))
    finally:
        if r is not None:
            r.call(lambda: [c.__exit__(None, None, None) for c in reversed(wcms)])
            r.end()
        while cms:
            cms.pop().__exit__(None, None, None)
        clear_views()

# when a thread inherits: at its start, per the manual; the code copies at the thread's first use of dyn
def inh_gen(tier):
    yield "immediately"
    yield "after main left the block"
def inh_run(case):
    make_dynvar(g=0)
    cm = dyn.let(a=1)
    cm.__enter__()
    try:
        r = Remote()
        if case == "immediately":
            mc.check(r.call(lambda: dyn.get("a")) == 1, "thread does not inherit")
            cm.__exit__(None, None, None); cm = None
            mc.check(r.call(lambda: dyn.get("a")) == 1, "inherited binding lost")
        else:
            cm.__exit__(None, None, None); cm = None
            got = r.call(lambda: dyn.get("a"))
            r.end()
            mc.check(got == 1, lambda: f"thread started inside the block sees {got} after main left it", key="lazy-inherit")
    finally:
        if cm:
            cm.__exit__(None, None, None)
    mc.step(); mc.state(case)

# ---------------------------------------------------------------- bytecode-level schedules
# one of the scheduled threads plays the main thread
def sch_gen(tier):
    for i, (_, _, b) in enumerate(SCEN):
        for part in range(8):
            yield [i, b if tier == "quick" else b + 1, part, 8]

def s_update(log):
    with dyn.let(a=0, b=0):
        for v in (1, 2):
            dyn.update(a=v, b=v)
    return None
def s_pushpop(log):
    with dyn.let(a=1):
        with dyn.let(b=2):
            dyn.a = 5
        mc.check("b" not in dyn and dyn.a == 5, "main's own bindings")
    mc.check("a" not in dyn, "main's binding leaked")
def w_snapshot(log):
    got = (dyn.get("a"), dyn.get("b"))
    again = (dyn.get("a"), dyn.get("b"))
    mc.check(got == again or got[0] is None, lambda: f"inherited bindings changed: {got} {again}")
    log.append(again)
def w_own(log):
    with dyn.let(a=10):
        mc.check(dyn.a == 10, "own binding")
        dyn.a = 11
        mc.check(dyn.a == 11, "own rebinding")
    with dyn.let(b=20):
        mc.check(dyn.b == 20, "own binding")
def w_view(log):
    v = dyn.asdict()
    with dyn.let(a=10):
        mc.check(v["a"] == 10, "view")
    del v
SCEN = [([s_update, w_snapshot], {(None, None), (0, 0), (1, 1), (2, 2)}, 2),
        ([s_pushpop, w_snapshot], {(None, None), (1, None), (1, 2), (5, 2), (5, None)}, 2),
        ([s_pushpop, w_own], None, 1), ([None, w_own, w_own], None, 1), ([s_update, w_own], None, 1),
        ([None, w_view, w_own], None, 1)]

def sch_run(case):
    i, b, part, n = case
    progs, allowed, _ = SCEN[i]
    def make():
        log = []
        def body(k, f):
            def run():
                if k == 0:
                    threading._main_thread = threading.current_thread()
                if f is not None:
                    f(log)
            return run
        bodies = [body(k, f) for k, f in enumerate(progs)]
        def judge(ex):
            for r in ex.results:
                if r[0] == "exc" and isinstance(r[1], mc.Violation):
                    raise r[1]
                mc.check(r[0] == "ok", lambda: f"{r}")
            if allowed is not None:
                for x in log:
                    mc.check(x in allowed, lambda: f"thread inherited {x}, a mix of different moments of the main thread")
        return bodies, judge
    sched.start(("/dynassign.py",))
    try:
        sched.explore(make, b, part, n)
    finally:
        threading._main_thread = _real_main
        for s in list(getattr(dynassign, "_mainthread_stack", ())):
            dynassign._mainthread_stack.pop()

SPACES = [
    mc.Space("histories", hist_gen, hist_run, "all histories of 5 (6) operations: push/pop/exception exit/set/update/make_dynvar/view; full observation after each"),
    mc.Space("with_blocks", with_gen, with_run, "with-blocks nested <=3, all exit routes per level"),
    mc.Space("thread_histories", thr_gen, thr_run, "all interleavings of main and worker operations after every main prefix of 2-3"),
    mc.Space("inheritance", inh_gen, inh_run, "moment of inheritance"),
    mc.Space("schedules", sch_gen, sch_run, "2-3 threads, all schedules with <=2/1 (+1) preemptions", timeout=300),
]
