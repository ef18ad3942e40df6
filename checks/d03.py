"""D03 escapes: all nestings of catch points, cleanups and throws vs. a reference interpreter."""
from lib import mc, sched
sched.install()
import itertools
from unpythonic import catch, throw, call_ec
from unpythonic.ec import Escape

class Boom(Exception):
    pass

# catch point kinds: (tags, catch_untagged)
CATCH = [(None, True), (None, False), ("s", True), ("s", False), ("t", True), ("t", False), (["s", "t"], True), (["s", "t"], False)]
# throws: (tag, allow_catchall)
THROW = [(None, True), (None, False), ("s", True), ("s", False), ("u", True), ("u", False)]
DEFAULT = object()

def caught(cp, th):
    (tags, untagged), (tag, catchall) = cp, th
    if tag is None:
        return untagged or (tags is None and catchall)
    if tags is None:
        return catchall
    return tag in (tags if isinstance(tags, (list, tuple)) else [tags])

# program: list of wrappers outermost first + leaf
#  ["c", i] catch point i     ["ec"] call_ec, binds ec number = depth    ["fin"] finally   ["try"] try/except Boom
#  ["thr-in-fin", t] finally clause that itself throws t      ["with"] context manager logging
# leaf: ["throw", i] / ["ec", k] call k-th outer ec (0 = innermost) / ["ret"] / ["raise"] / ["lateec"]
class Real:
    def __init__(self):
        self.log, self.ecs, self.dead = [], [], []
    def run(self, ws, leaf, n=0):
        if not ws:
            return self.leaf(leaf)
        w, rest = ws[0], ws[1:]
        sub = lambda: self.run(rest, leaf, n + 1)
        if w[0] == "c":
            tags, unt = CATCH[w[1]]
            kw = {}
            if tags is not None:
                kw["tags"] = tuple(tags) if isinstance(tags, list) else tags
            if not unt:
                kw["catch_untagged"] = False
            @catch(**kw)
            def block(a, *, b):
                v = sub()
                self.log.append(("after", n))
                return v
            v = block(1, b=2)
        elif w[0] == "ec":
            def block(ec):
                self.ecs.append(ec)
                try:
                    v = sub()
                finally:
                    self.dead.append(self.ecs.pop())
                self.log.append(("after", n))
                return v
            v = call_ec(block)
        elif w[0] == "fin":
            try:
                v = sub()
            finally:
                self.log.append(("fin", n))
        elif w[0] == "finthrow":
            try:
                v = sub()
            finally:
                self.log.append(("fin", n))
                self.throw(w[1])
        elif w[0] == "try":
            try:
                v = sub()
            except Exception as e:
                self.log.append(("exc", type(e).__name__))
                v = "handled"
        self.log.append(("exit", n, v))
        return v
    def throw(self, i):
        tag, allow = THROW[i]
        kw = {}
        if tag is not None:
            kw["tag"] = tag
        if not allow:
            kw["allow_catchall"] = False
        throw(("thrown", i), **kw)
    def leaf(self, leaf):
        k = leaf[0]
        if k == "throw":
            self.throw(leaf[1])
        elif k == "ec":
            if leaf[1] < len(self.ecs):
                self.ecs[-1 - leaf[1]](("ec", leaf[1]))
        elif k == "raise":
            raise Boom
        elif k == "lateec":
            r = call_ec(lambda ec: ec)
            r("late")
        self.log.append("leaf end")
        return "normal"

# reference: outcomes are values, no exceptions
def model(ws, leaf):
    log = []
    def run(ws, n, ecs):
        """-> ('ok', v) | ('throw', th, v) | ('ec', id, v) | ('exc', name)"""
        if not ws:
            k = leaf[0]
            if k == "throw":
                return ("throw", THROW[leaf[1]], ("thrown", leaf[1]))
            if k == "ec" and leaf[1] < len(ecs):
                return ("ec", ecs[-1 - leaf[1]], ("ec", leaf[1]))
            if k == "raise":
                return ("exc", "Boom")
            if k == "lateec":
                return ("exc", "RuntimeError")
            log.append("leaf end")
            return ("ok", "normal")
        w, rest = ws[0], ws[1:]
        r = run(rest, n + 1, ecs + [n] if w[0] == "ec" else ecs)
        if w[0] in ("c", "ec"):
            if r[0] == "ok":
                log.append(("after", n))
            elif w[0] == "c" and r[0] == "throw" and caught(CATCH[w[1]], r[1]):
                r = ("ok", r[2])
            elif w[0] == "ec" and r[0] == "ec" and r[1] == n:
                r = ("ok", r[2])
        elif w[0] == "fin":
            log.append(("fin", n))
        elif w[0] == "finthrow":
            log.append(("fin", n))
            r = ("throw", THROW[w[1]], ("thrown", w[1]))
        elif w[0] == "try" and r[0] == "exc":
            log.append(("exc", r[1]))
            r = ("ok", "handled")
        if r[0] == "ok":
            log.append(("exit", n, r[1]))
        return r
    r = run(ws, 0, [])
    if r[0] == "throw" or r[0] == "ec":
        return ("uncaught",), log
    return r, log

WRAP = [["c", i] for i in range(len(CATCH))] + [["ec"], ["fin"], ["try"], ["finthrow", 0], ["finthrow", 3]]
LEAF = [["throw", i] for i in range(len(THROW))] + [["ec", 0], ["ec", 1], ["ec", 2], ["ret"], ["raise"], ["lateec"]]

def gen(tier):
    D = 4 if tier == "quick" else 5
    for ws in mc.seqs(range(len(WRAP)), D):
        for l in range(len(LEAF)):
            yield [list(ws), l]

def run(case):
    ws, l = [WRAP[i] for i in case[0]], LEAF[case[1]]
    want, wlog = model(ws, l)
    r = Real()
    try:
        got = ("ok", r.run(ws, l))
    except Escape:
        got = ("uncaught",)
    except (Boom, RuntimeError) as e:
        got = ("exc", type(e).__name__)
    mc.check(got == want and r.log == wlog, lambda: f"program {ws} {l}: got {got} {r.log}; expected {want} {wlog}")
    # every escape continuation created by the program is dead by now
    for ec in r.dead:
        try:
            ec("zombie")
        except RuntimeError:
            pass
        else:
            raise mc.Violation("escape continuation returned after its extent")
    mc.step(len(wlog) + 1)
    mc.state((want, tuple(map(str, wlog))))

# reused catch points and recursion: the innermost *activation* catches
def rec_gen(tier):
    for depth in range(1, 5):
        for at in range(depth + 1):
            for kind in ("catch", "ec"):
                for target in range(depth):
                    yield [depth, at, kind, target]

def rec_run(case):
    depth, at, kind, target = case
    log = []
    if kind == "catch":
        @catch()
        def f(k):
            if k == at:
                throw(("v", k))
            r = f(k + 1) if k < depth else "bottom"
            log.append((k, r))
            return r
        r = f(0)
        # f(at) throws inside its own activation
        want = [(k, ("v", at)) for k in reversed(range(at))]
        mc.check(r == ("v", at) and log == want, lambda: f"{case}: {r} {log}")
    else:
        ecs = []
        def f(k):
            @call_ec
            def r(ec):
                ecs.append(ec)
                if k == depth - 1:
                    ecs[target](("v", target))
                return f(k + 1)
            log.append((k, r))
            return r
        r = f(0)
        want = [(k, ("v", target)) for k in reversed(range(target + 1))]
        mc.check(r == ("v", target) and log == want, lambda: f"{case}: {r} {log}")
    mc.step(depth)
    mc.state(case)

# two threads use the same catch-decorated function concurrently
def thr_gen(tier):
    for kind in ("catch", "ec", "mixed"):
        for part in range(2):
            yield [kind, 2 if tier == "quick" else 3, part, 2]

def thr_run(case):
    kind, b, part, n = case
    def make():
        @catch("s")
        def f(v):
            throw(v, tag="s")
        def g(v):
            @call_ec
            def r(ec):
                @catch()
                def inner():
                    ec(v)
                inner()
                return "not reached"
            return r
        bodies = {"catch": [lambda: f(1), lambda: f(2)], "ec": [lambda: g(1), lambda: g(2)], "mixed": [lambda: f(1), lambda: g(2)]}[kind]
        def judge(ex):
            mc.check([r for r in ex.results] == [("ok", 1), ("ok", 2)], lambda: f"{ex.results}")
        return bodies, judge
    sched.start(("/ec.py",))
    sched.explore(make, b, part, n)

# ---- tag and value objects of all truth values; equality, not identity, decides
TAGS = [0, "", 0.5, "s", frozenset(), "none", b"", 7]
VALUES = [None, 0, "", (), "v", StopIteration("x")]
def tags_gen(tier):
    specs = [None] + TAGS + [[0, "s"], ["", 7], [frozenset(), 0]]
    for o in range(len(specs)):
        for i in range(len(specs)):
            for unt in itertools.product((True, False), repeat=2):
                for t in [None] + list(range(len(TAGS))):
                    for ca in (True, False):
                        yield [o, i, unt, t, ca]

def tags_run(case):
    o, i, (uo, ui), t, ca = case
    specs = [None] + TAGS + [[0, "s"], ["", 7], [frozenset(), 0]]
    def deco(k, unt):
        sp = specs[k]
        return catch(tags=tuple(sp) if isinstance(sp, list) else sp, catch_untagged=unt)
    tag = None if t is None else TAGS[t]
    for v in VALUES:
        @deco(o, uo)
        def outer():
            @deco(i, ui)
            def inner():
                throw(v, tag=tag, allow_catchall=ca)
            return ("inner", inner())
        try:
            got = outer()
        except Escape:
            got = "uncaught"
        if caught((specs[i], ui), (tag, ca)):
            want = ("inner", v)
        elif caught((specs[o], uo), (tag, ca)):
            want = v
        else:
            want = "uncaught"
        mc.check(got is want or got == want, lambda: f"throw({v!r}, {tag!r}, {ca}) in catch({specs[o]!r}, {uo}) > catch({specs[i]!r}, {ui}): {got!r}, expected {want!r}")
        mc.step()
        got = call_ec(lambda ec: [ec(v), "wrong"])
        mc.check(got is v, "call_ec value")
    mc.state((case, str(got)))

SPACES = [
    mc.Space("tags", tags_gen, tags_run, "all pairs of nested catch points over 12 tag specifications incl. falsy tags, 9 thrown tags, 6 values"),
    mc.Space("nested_programs", gen, run, f"all nestings of depth <=4 (5) of {len(WRAP)} catch/cleanup blocks around {len(LEAF)} leaves"),
    mc.Space("recursion", rec_gen, rec_run, "recursive activations of one catch point, depth <=4"),
    mc.Space("threads", thr_gen, thr_run, "2 threads, all schedules with <=2 (3) preemptions", timeout=300),
]
