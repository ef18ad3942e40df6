"""X01: the test framework: all programs of test constructs in nested test sets, against a reference counter."""
from lib import mc, macros
import itertools, re, warnings
from unpythonic.test import fixtures as fx
from unpythonic.conditions import signal, cerror, error as cond_error, warn as cond_warn, handlers, restarts, invoke
from unpythonic.collections import unbox
warnings.simplefilter("ignore")
import inspect
inspect.getmodule = lambda *a, **k: None     # speed: the outcome for dynamically created modules, without scanning sys.modules

SRC = """
from unpythonic.syntax import macros, test, test_raises, test_signals, fail, error, warn, the
from unpythonic.test.fixtures import returns_normally, terminate
from unpythonic.conditions import signal, cerror, warn as cwarn, error as cerr, handlers, restarts, invoke
class E1(Exception): pass
class E1sub(E1): pass
class E2(Exception): pass
class W1(Warning): pass
def rais(e): raise e
class Awkward:
    def __init__(self, *bad): self.bad = bad
    def __bool__(self):
        if "bool" in self.bad: raise E1("bool")
        return "true" in self.bad
    def __repr__(self):
        if "repr" in self.bad: raise E1("repr")
        return "Awkward"
    def __str__(self):
        if "str" in self.bad: raise E1("str")
        return "Awkward"
def use(e, restart="r"):
    with restarts(r=lambda: 5) as b:
        signal(e)
        b << 0
    return b.x if hasattr(b, "x") else b
"""
# name -> (source of a function body, outcome, condition attributes)
# outcome: P(ass) F(ail) E(rror) W(arn) N(othing) X(stray exception) T(erminate) S(stray signal)
ITEMS = {}
def item(name, body, out, origin=None, mode=None, msg=None, captured=None, result=None):
    ITEMS[name] = (body, out, origin, mode, msg, captured)
COMPLETED, SIGNALED, RAISED = "completed", "signaled", "raised"
# expression tests
item("t", "test[1 + 1 == 2]", "P")
item("tmsg", "test[2, 'm']", "P")
item("tf", "test[1 + 1 == 3]", "F", "test", COMPLETED, None, ["2"])
item("tfmsg", "test[[], 'oops']", "F", "test", COMPLETED, "oops", [])
item("tnone", "test[None]", "F", "test", COMPLETED, None, [])
item("tthe", "test[the[2] > the[3]]", "F", "test", COMPLETED, None, ["2", "3"])
item("tthep", "test[the[2] < 3]", "P")
item("traise", "test[rais(E1('a'))]", "E", "test", RAISED, None, [])
item("traisem", "test[the[rais(E1('a'))], 'm']", "E", "test", RAISED, "m", [])
item("tsig", "test[signal(E1('a'))]", "E", "test", SIGNALED, None, [])
item("tcerr", "test[cerror(E1('a'))]", "E", "test", SIGNALED, None, [])
item("terr", "test[cerr(E1('a'))]", "E", "test", SIGNALED, None, [])
item("twarn", "test[cwarn(W1('a'))]", "E", "test", SIGNALED, None, [])
item("tnorm", "test[returns_normally(signal)]", "P")
item("tnormr", "test[returns_normally(rais(E2))]", "E", "test", RAISED, None, [])
item("tuple3", "test[(1, 2, 3)]", "P")
# values with no truth value or no text form
item("tnobool", "test[Awkward('bool')]", "E", "test", RAISED, None, [])
item("tnorepr", "test[the[Awkward('repr')] == 1, 'm']", "F", "test", COMPLETED, "m", ["?"])
item("tnoreprp", "test[the[Awkward('repr')] != 1]", "P")
item("tnostr", "test[Awkward('repr', 'str')]", "F", "test", COMPLETED, None, [])
item("tnostrp", "test[Awkward('repr', 'str', 'true')]", "P")
item("bnobool", "with test:\n    return Awkward('bool')", "E", "test", RAISED, None, [])
# unconditional
item("fail", "fail['x']", "F", "fail", COMPLETED, "x", [])
item("error", "error['x']", "E", "error", COMPLETED, "x", [])
item("warn", "warn['x']", "W", "warn", COMPLETED, "x", [])
# block tests
item("b", "with test:\n    x = 1", "P")
item("bret", "with test['m']:\n    x = 1\n    return x == 1", "P")
item("bf", "with test['m']:\n    x = 1\n    return x == 2", "F", "test", COMPLETED, "m", ["1"])
item("bnest", "with test:\n    x = 1\n    if x:\n        return False", "F", "test", COMPLETED, None, [])
item("bnestp", "with test:\n    x = 0\n    if x:\n        return False", "P")
item("braise", "with test:\n    x = 1\n    raise E2('b')", "E", "test", RAISED, None, [])
item("bthe", "with test:\n    x = the[7]\n    return the[x + 1] is None", "F", "test", COMPLETED, None, ["7", "8"])
item("bsig", "with test:\n    signal(E2('b'))\n    raise RuntimeError", "E", "test", SIGNALED, None, [])
item("braiselate", "with test['mm']:\n    the[4]\n    raise E2('b')\n    return True", "E", "test", RAISED, "mm", ["4"])
# test_raises
item("r", "test_raises[E1, rais(E1('a'))]", "P")
item("rsub", "test_raises[E1, rais(E1sub('a')), 'm']", "P")
item("rtuple", "test_raises[(E2, E1), rais(E1('a'))]", "P")
item("rnone", "test_raises[E1, 5, 'm']", "F", "test_raises", COMPLETED, "m", [])
item("rwrong", "test_raises[E1sub, rais(E1('a'))]", "E", "test_raises", RAISED, None, [])
item("rsig", "test_raises[E1, signal(E1('a'))]", "E", "test_raises", SIGNALED, None, [])
item("rb", "with test_raises[E1]:\n    rais(E1sub('a'))", "P")
item("rbnone", "with test_raises[E1, 'm']:\n    x = 1", "F", "test_raises", COMPLETED, "m", [])
item("rbwrong", "with test_raises[E1]:\n    raise E2", "E", "test_raises", RAISED, None, [])
# test_signals
item("s", "test_signals[E1, signal(E1('a'))]", "P")
item("ssub", "test_signals[E1, cerror(E1sub('a')), 'm']", "P")
item("serr", "test_signals[E1, cerr(E1('a'))]", "P")
item("swarn", "test_signals[W1, cwarn(W1('a'))]", "P")
item("snone", "test_signals[E1, 5, 'm']", "F", "test_signals", COMPLETED, "m", [])
item("swrong", "test_signals[E1sub, signal(E1('a'))]", "E", "test_signals", SIGNALED, None, [])
item("sraise", "test_signals[E1, rais(E1('a'))]", "E", "test_signals", RAISED, None, [])
item("sb", "with test_signals[E1]:\n    signal(E1sub('a'))\n    raise RuntimeError", "P")
item("sbnone", "with test_signals[E1, 'm']:\n    x = 1", "F", "test_signals", COMPLETED, "m", [])
item("sbwrong", "with test_signals[E1]:\n    signal(E2)", "E", "test_signals", SIGNALED, None, [])
# signal handled inside the test: not the framework's business
item("thandled", "with test:\n    with handlers((E1, lambda c: invoke('r'))):\n        use(E1('a'))", "P")
item("tdeclined", "with test:\n    with handlers((E1, lambda c: None)):\n        signal(E1('a'))", "E", "test", SIGNALED, None, [])
item("rcaught", "with test:\n    try:\n        raise E1\n    except E1:\n        pass", "P")
# stray
item("sig", "signal(E1('a'))", "S")
item("cerr", "cerror(E1('a'))", "S")
item("wsig", "cwarn(W1('a'))", "S")
item("exc", "raise E1('a')", "X")
item("term", "terminate()", "T")
item("nothing", "pass", "N")
# with uncaught-signal catching off, these behave differently
OFF = {"tsig": ("P", None), "tcerr": ("E", RAISED), "terr": ("E", RAISED), "twarn": ("F", COMPLETED), "bsig": ("E", RAISED),
       "rsig": ("F", COMPLETED), "s": ("F", COMPLETED), "ssub": ("E", RAISED), "serr": ("E", RAISED), "swarn": ("F", COMPLETED),
       "swrong": ("F", COMPLETED), "sb": ("E", RAISED), "sbwrong": ("F", COMPLETED), "tdeclined": ("P", None),
       "sig": ("N", None), "cerr": ("X", None), "wsig": ("N", None)}
ORIGIN = {"s": ("test_signals", None), "ssub": ("test_signals", "m"), "serr": ("test_signals", None), "swarn": ("test_signals", None), "sb": ("test_signals", None)}
MSG = {}
for k_, v_ in list(ITEMS.items()):
    ORIGIN.setdefault(k_, (v_[2], v_[4]))

# enclosing constructs; the body thunk K runs the sub-program
WRAPS = {
    "in_test": "with test:\n    K()",                         # passes if the body completes
    "in_testf": "with test:\n    K()\n    return False",       # fails if the body completes
    "in_expr": "test[[K()]]",
    "in_raises": "with test_raises[E1]:\n    K()",
    "in_signals": "with test_signals[E1]:\n    K()",
}
_ns = None
def ns():
    global _ns
    if _ns is None:
        src = SRC
        for k, v in ITEMS.items():
            src += f"def i_{k}():\n" + "".join("    " + l + "\n" for l in v[0].split("\n"))
        for k, v in WRAPS.items():
            src += f"def w_{k}(K):\n" + "".join("    " + l + "\n" for l in v.split("\n"))
        _ns = macros.module(src)
    return _ns

# ---------------------------------------------------------------- programs
# node: item name | ["set", postproc, [nodes]] | ["catch", bool, [nodes]] | [wrap, [nodes]] | ["try", [nodes]]
def execute(prog, log):
    for node in prog:
        if isinstance(node, str):
            log.append(node)
            ns()["i_" + node]()
            log.append("/" + node)
        elif node[0] == "set":
            _, pp, body = node
            with fx.testset(f"s{id(node)}", postproc=make_pp(pp, log) if pp else None):
                execute(body, log)
            log.append("/set")
        elif node[0] == "catch":
            with fx.catch_signals(node[1]):
                execute(node[2], log)
            log.append("/catch")
        elif node[0] == "try":
            try:
                execute(node[1], log)
            except fx.TestSessionExit:
                raise
            except Exception as e:
                log.append("caught " + type(e).__name__)
            log.append("/try")
        else:
            ns()["w_" + node[0]](lambda: execute(node[1], log))
            log.append("/" + node[0])

def text(v):
    try:
        return repr(v)
    except Exception:
        return "?"

def describe(c):
    if isinstance(c, fx.TestingException):
        caps = tuple(text(v) for _, v in c.captured_values)
        return (type(c).__name__, c.origin, str(c.mode).split('"')[1] if '"' in str(c.mode) else str(c.mode), c.custom_message, caps, isinstance(c.lineno, int), isinstance(c.filename, str))
    return (type(c).__name__,)

def make_pp(pp, log):
    def callback(condition):
        log.append(("pp", pp, describe(condition)))
        if pp == "term":
            fx.terminate(condition)
    return callback

SUMMARY = re.compile(r"END: Pass (\d+), Fail (\d+), Error (\d+), Total (\d+) \((\d+)% pass\)(?: \+ (\d+) Warn)?$")
def run_real(mode, glob, prog):
    out, log = [], []
    cfg = fx.TestConfig
    saved = (cfg.printer, cfg.use_color, cfg.postproc)
    cfg.printer, cfg.use_color = out.append, False
    cfg.postproc = make_pp(glob, log) if glob else None
    for b in (fx.tests_run, fx.tests_failed, fx.tests_errored, fx.tests_warned):
        fx._reset(b)
    try:
        with (fx.session("z") if mode == "session" else fx.testset("z")):
            execute(prog, log)
        log.append("END")
    finally:
        cfg.printer, cfg.use_color, cfg.postproc = saved
        state = (fx._threadlocals.nesting_level, list(fx._threadlocals.postproc_stack), list(fx._threadlocals.catch_uncaught_signals))
        fx._threadlocals.nesting_level = 0
        fx._threadlocals.postproc_stack.clear()
        fx._threadlocals.catch_uncaught_signals.clear()
        fx._threadlocals.catch_uncaught_signals.append(True)
    ends, problems = [], []
    for l in out:
        m = SUMMARY.search(l)
        if m:
            ends.append(tuple(int(x or 0) for x in m.groups()))
        elif "terminated by exception outside" in l:
            problems.append("X")
        elif "received signal outside" in l:
            problems.append("S")
        else:
            for t in ("FAIL", "ERROR", "WARNING"):
                if re.match(rf"\**\s?{t}: ", l):
                    problems.append(t[0])
    counts = tuple(unbox(b) for b in (fx.tests_run, fx.tests_failed, fx.tests_errored, fx.tests_warned))
    return dict(ends=ends, problems=problems, counts=counts, log=log, state=state)

# ---------------------------------------------------------------- reference
class Stray(Exception): pass      # an exception (name) travelling up the reference program
class Term(Exception): pass
class Sig(Exception): pass        # unwinding to the enclosing test construct that intercepted a signal

class Ref:
    def __init__(self, glob, flaws=()):
        """flaws: known findings to reproduce"""
        self.flaws = flaws
        self.n = [0, 0, 0, 0]
        self.log, self.ends, self.problems = [], [], []
        self.pps, self.catch, self.glob = [], [True], glob
        self.tests = []            # stack of markers: "set" or a test construct (whose extent intercepts signals)
    def postproc(self, desc):
        pp = self.pps[-1] if self.pps else self.glob
        if pp:
            self.log.append(("pp", pp, desc))
            if pp == "term":
                raise Term
    def test_result(self, out, origin, mode, msg, caps):
        if out == "P":
            self.n[0] += 1
            return
        if out == "W":
            self.n[3] += 1
        else:
            self.n[0] += 1
            self.n[1 if out == "F" else 2] += 1
        self.problems.append({"F": "F", "E": "E", "W": "W"}[out])
        self.postproc(({"F": "TestFailure", "E": "TestError", "W": "TestWarning"}[out], origin, mode, msg, tuple(caps or ()), True, True))
    def signal(self, name, plain):
        """a signal outside the framework's own constructs"""
        assert self.catch[-1]
        if self.tests and self.tests[-1] != "set":
            raise Sig(name)
        times = 1
        if "stray-signal" in self.flaws and plain:
            times = len(self.tests) - max([i for i, t in enumerate(self.tests) if t != "set"], default=-1) - 1
        for _ in range(times):
            self.n[0] += 1
            self.n[2] += 1
            self.problems.append("S")
            self.postproc((name,))
    def run(self, prog):
        for node in prog:
            if isinstance(node, str):
                self.item(node)
            elif node[0] == "set":
                self.set(node[1], node[2])
                self.log.append("/set")
            elif node[0] == "catch":
                self.catch.append(node[1])
                try:
                    self.run(node[2])
                finally:
                    self.catch.pop()
                self.log.append("/catch")
            elif node[0] == "try":
                try:
                    self.run(node[1])
                except Stray as e:
                    self.log.append("caught " + e.args[0])
                self.log.append("/try")
            else:
                self.wrap(*node)
                self.log.append("/" + node[0])
    def item(self, name):
        self.log.append(name)
        _, out, origin, mode, msg, caps = ITEMS[name]
        if not self.catch[-1] and name in OFF:
            out, mode = OFF[name]
            origin, msg = ORIGIN[name]
            caps = ()
        if out == "T":
            raise Term
        if out == "X":
            raise Stray("E1" if name == "exc" else "ControlError")
        if out == "S":
            self.signal("W1" if name == "wsig" else "E1", name == "sig")
        elif out != "N":
            self.test_result(out, origin, mode, msg, caps)
        self.log.append("/" + name)
    def wrap(self, kind, body):
        depth = len(self.tests)
        self.tests.append(kind)
        origin = {"in_raises": "test_raises", "in_signals": "test_signals"}.get(kind, "test")
        try:
            self.run(body)
            mode, name = COMPLETED, None
        except Sig as e:
            mode, name = SIGNALED, e.args[0]
        except Stray as e:
            mode, name = RAISED, e.args[0]
        finally:
            del self.tests[depth:]
        if kind in ("in_test", "in_expr"):
            out = "P" if mode == COMPLETED else "E"
        elif kind == "in_testf":
            out = "F" if mode == COMPLETED else "E"
        else:
            want = RAISED if kind == "in_raises" else SIGNALED
            out = "F" if mode == COMPLETED else "P" if mode == want and name == "E1" else "E"
        self.test_result(out, origin, mode, None, ())
    def set(self, pp, body, top=False):
        start = list(self.n)
        if pp:
            self.pps.append(pp)
        depth = len(self.tests)
        self.tests.append("set")
        try:
            self.run(body)
        except Term:
            if not top and "terminate" not in self.flaws:
                raise
        except Stray:
            self.n[0] += 1
            self.n[2] += 1
            self.problems.append("X")
        finally:
            if pp:
                self.pps.pop()
            del self.tests[depth:]
            r, f, e, w = (b - a for a, b in zip(start, self.n))
            p = r - f - e
            self.ends.append((p, f, e, r, int(100 * (1 - (f / r if r else 0.0) - (e / r if r else 0.0))), w))

KNOWN = {"terminate": "terminate-nested", "stray-signal": "stray-signal-nested"}
def expected(glob, prog, flaws=()):
    ref = Ref(glob, flaws)
    try:
        ref.set(None, prog, top=True)
    except Sig:
        raise RuntimeError("harness: signal left its test")
    return dict(counts=tuple(ref.n), ends=ref.ends, problems=ref.problems, log=ref.log + ["END"], state=(0, [], [True]))

def run(case):
    known = None
    for mode, glob, prog in case:
        want = expected(glob, prog)
        got = run_real(mode, glob, prog)
        mc.trace()
        mc.step(len(got["log"]))
        mc.state((got["ends"], got["problems"], [x for x in got["log"] if isinstance(x, tuple)]))
        if got == want:
            continue
        what = f"program {prog} (in a {mode}, global postproc {glob}): "
        what += "; ".join(f"{k} {got[k]}, expected {want[k]}" for k in want if got[k] != want[k])
        what += "   (counts: run, failed, errored, warned; ends: pass, fail, error, total, %, warn of each set as it ends)"
        for flaws in (["terminate"], ["stray-signal"], ["terminate", "stray-signal"]):
            if got == expected(glob, prog, flaws):
                known = mc.Violation(what, KNOWN[flaws[0]])
                break
        else:
            raise mc.Violation(what)
    if known:
        raise known

# ---------------------------------------------------------------- enumeration
ALL = list(ITEMS)
FEW = ["t", "tf", "traise", "warn", "sig", "cerr", "exc", "term", "tsig", "sb", "tthe"]
TINY = ["t", "fail", "braise", "warn", "cerr", "exc", "term"]
def valid(prog, intest=False, setintest=False):
    """a plain signal in a test set inside a test construct is reported by the set and then seen by the test: not specified"""
    for node in prog:
        if isinstance(node, str):
            if node == "sig" and setintest:
                return False
        else:
            wrap = node[0] in WRAPS
            if not valid(node[-1], intest or wrap, setintest or (node[0] == "set" and intest)):
                return False
    return True

def shapes1(a, tier):
    """every one-item shape"""
    yield [a]
    for pp in (None, "log", "term"):
        yield [["set", pp, [a]]]
    yield [["catch", False, [a]]]
    yield [["catch", True, [a]]]
    yield [["try", [a]]]
    for w in WRAPS:
        yield [[w, [a]]]
        yield [["set", "log", [[w, [a]]]]]
        yield [["catch", False, [[w, [a]]]]]
        yield [[w, [["catch", False, [a]]]]]
        yield [[w, [["set", None, [a]]]]]

def shapes2(a, b):
    yield [a, b]
    for pp in (None, "log", "term"):
        yield [["set", pp, [a, b]]]
        yield [["set", pp, [a]], b]
        yield [a, ["set", pp, [b]]]
        for pp2 in (None, "log2"):
            yield [["set", pp, [a]], ["set", pp2, [b]]]
            yield [["set", pp, [["set", pp2, [a]], b]]]
            yield [["set", pp, [a, ["set", pp2, [b]]]]]
    yield [["catch", False, [a]], b]
    yield [["catch", False, [a, ["catch", True, [b]]]]]
    yield [["catch", False, [["set", None, [a]]]], b]
    yield [["set", "log", [["catch", False, [a]], b]]]
    yield [["try", [a, b]]]
    for w in WRAPS:
        yield [[w, [a]], b]
        yield [[w, [a, b]]]
        yield [a, [w, [b]]]
        yield [["set", "log", [[w, [["set", "log2", [a]], b]]]]]

def shapes3(a, b, c):
    yield [a, b, c]
    yield [["set", "log", [a, ["set", None, [b]], c]]]
    yield [["set", "log", [a, ["set", "term", [b]], c]]]
    yield [["set", None, [a]], ["set", "log", [b]], c]
    yield [["set", "log", [["set", "log2", [["set", None, [a]], b]], c]]]
    yield [["in_test", [["in_testf", [a]], b]], c]
    yield [["set", None, [["catch", False, [a, ["set", None, [b]]]], c]]]
    yield [["in_raises", [["set", "log", [a, b]], c]]]

def gen(tier):
    def cases():
        for a in ALL:
            for s in shapes1(a, tier):
                for mode in ("session", "set"):
                    for g in (None, "glob", "term"):
                        yield [mode, g, s]
        two = itertools.product(ALL, FEW) if tier == "quick" else itertools.product(ALL, ALL)
        for a, b in two:
            for x, y in ((a, b), (b, a)) if a != b and b in FEW else ((a, b),):
                for s in shapes2(x, y):
                    yield ["session", None, s]
        for a, b in itertools.product(FEW, repeat=2):
            for s in shapes2(a, b):
                yield ["set", "glob", s]
        for t in itertools.product(TINY if tier == "quick" else FEW, repeat=3):
            for s in shapes3(*t):
                yield ["session", None, s]
                yield ["session", "glob", s]
        if tier != "quick":
            for t in itertools.product(TINY, repeat=4):
                yield ["session", None, list(t)]
                yield ["session", "glob", [["set", "log", [t[0], ["set", None, [t[1]]], t[2]]], t[3]]]
                yield ["session", None, [["set", "log", [t[0], ["set", "term", [t[1], t[2]]]]], t[3]]]
    batch = []
    for c in cases():
        if not valid(c[2]):
            continue
        batch.append(c)
        if len(batch) == 200:
            yield batch
            batch = []
    if batch:
        yield batch

SPACES = [mc.Space("programs", gen, run, "63 test constructs / stray events in every nesting shape of up to 2 (thorough: all pairs; quick: pairs with 11), 3 over 7 (thorough 11), 4 over 7 (thorough): nested sets, post-processing callbacks (log, terminate), uncaught-signal switch, tests inside tests; per-set summaries, totals, reports, callbacks and their data, executed statements, restored state", timeout=300)]
