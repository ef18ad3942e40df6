"""D04 raisef / tryf / reraise / reraise_in vs. the actual Python statements."""
from lib import mc
import itertools
from unpythonic import raisef, tryf, reraise, reraise_in

class A(Exception): pass
class B(A): pass
class N(Exception): pass
class K(BaseException): pass
TYPES = {"A": A, "B": B, "N": N, "K": K, "Base": BaseException, "Exc": Exception}
def spec(s):
    return tuple(TYPES[x] for x in s[1:]) if isinstance(s, (list, tuple)) else TYPES[s]

def describe(e, seen=None, depth=0):
    """type, args, cause chain, context chain, suppress flag"""
    if e is None or depth > 4:
        return None
    return (type(e).__name__, e.args, describe(e.__cause__, None, depth + 1), describe(e.__context__, None, depth + 1), e.__suppress_context__)

def outcome(thunk, log):
    try:
        r = ("ok", thunk())
    except BaseException as e:
        if isinstance(e, mc.CaseTimeout):
            raise
        r = ("exc", describe(e))
    return r, list(log)

SPECS = ["A", "B", "N", "Base", ("t", "A", "N"), ("t", "N", "B"), ("t",), "K"]
ACTS = ["ret1", "ret0", "raiseN", "reraise", "raisefrom", "none"]
BODY = ["ok", "A", "B", "N", "K", "none"]
ELSE = ["-", "ok", "raise", "raiseA"]
FIN = ["-", "ok", "raise"]

def make(bodyk, hs, elsek, fink, log):
    def body():
        log.append("body")
        if bodyk == "ok":
            return "bodyval"
        if bodyk == "none":
            return None
        raise TYPES[bodyk]("body")
    def handler(i, act):
        def one(e):
            log.append(("h", i, describe(e)))
            if act == "raiseN":
                raise N("handler")
            if act == "reraise":
                raise e
            if act == "raisefrom":
                raise N("handler") from e
            if act == "none":
                return None
            return ("h", i)
        def zero():
            log.append(("h0", i))
            return ("h0", i)
        return (zero, True) if act == "ret0" else (one, False)
    def elsef():
        log.append("else")
        if elsek == "raise":
            raise N("else")
        if elsek == "raiseA":
            raise A("else")
        return "elseval"
    def finallyf():
        log.append("finally")
        if fink == "raise":
            raise N("finally")
        return "ignored"
    return body, [(spec(s),) + handler(i, a) for i, (s, a) in enumerate(hs)], (elsef if elsek != "-" else None), (finallyf if fink != "-" else None)

_cache = {}
def stmt(nh, has_else, has_fin):
    key = (nh, has_else, has_fin)
    if key not in _cache:
        src = ["def f(body, hs, elsef, finallyf):", "  try:", "    ret = body()"]
        for i in range(nh):
            src += [f"  except hs[{i}][0] as e:", f"    return hs[{i}][1]() if hs[{i}][2] else hs[{i}][1](e)"]
        if has_else and nh:
            src += ["  else:", "    return elsef()"]
        if has_fin:
            src += ["  finally:", "    finallyf()"]
        if not nh and not has_fin:
            src = ["def f(body, hs, elsef, finallyf):", "  ret = body()"]
        if not nh and has_else:
            # else without except is not expressible; it runs after a successful body, under the same finally
            src = ["def f(body, hs, elsef, finallyf):", "  try:", "    try:", "      ret = body()", "    except ():", "      pass", "    else:", "      return elsef()",
                   "  finally:", "    finallyf() if finallyf else None"]
        src += ["  return ret"]
        ns = {}
        exec("\n".join(src), ns)
        _cache[key] = ns["f"]
    return _cache[key]

def try_gen(tier):
    hl = [()]
    one = list(itertools.product(SPECS, ACTS))
    hl += [(h,) for h in one]
    acts2 = ["ret1", "raiseN"] if tier == "quick" else ACTS
    hl += list(itertools.product(one, itertools.product(SPECS, acts2)))
    if tier != "quick":
        hl += list(itertools.product(itertools.product(SPECS, ["ret0", "reraise"]), repeat=3))
    for hs in hl:
        for b in BODY:
            for e in ELSE:
                for f in FIN:
                    yield [b, hs, e, f]

def try_run(case):
    b, hs, e, f = case
    log = []
    body, hl, elsef, finallyf = make(b, hs, e, f, log)
    kw = {}
    if elsef:
        kw["elsef"] = elsef
    if finallyf:
        kw["finallyf"] = finallyf
    got = outcome(lambda: tryf(body, *[(t, h) for t, h, _ in hl], **kw), log)
    log.clear()
    want = outcome(lambda: stmt(len(hl), bool(elsef), bool(finallyf))(body, hl, elsef, finallyf), log)
    mc.check(got == want, lambda: f"tryf {case}: got {got}, statement gives {want}")
    mc.step(len(log))
    mc.state(str(got))

def nest_gen(tier):
    """tryf inside body / handler / else / finally of tryf"""
    for where in ("body", "handler", "else", "finally"):
        for b1, b2 in itertools.product(["ok", "A", "B", "K"], repeat=2):
            for s1, s2 in itertools.product(["A", "B", "N", "Base"], repeat=2):
                for a1, a2 in itertools.product(["ret1", "raiseN", "reraise"], repeat=2):
                    yield [where, b1, b2, s1, s2, a1, a2]

def nest_run(case):
    where, b1, b2, s1, s2, a1, a2 = case
    log = []
    ib, ih, ie, if_ = make(b2, [(s2, a2)], "ok", "ok", log)
    ob, oh, oe, of = make(b1, [(s1, a1)], "ok", "ok", log)
    def build(t):
        inner = lambda *a: t(ib, ih, ie, if_)
        body, handler, elsef, fin = ob, oh[0][1], oe, of
        if where == "body":
            body = lambda: (inner(), ob())[1]
        elif where == "handler":
            handler = lambda e: (inner(), oh[0][1](e))[1]
        elif where == "else":
            elsef = lambda: (inner(), oe())[1]
        else:
            fin = lambda: (inner(), of())[1]
        return lambda: t(body, [(oh[0][0], handler, False)], elsef, fin)
    real = lambda body, hs, elsef, fin: tryf(body, *[(t, h) for t, h, _ in hs], elsef=elsef, finallyf=fin)
    py = lambda body, hs, elsef, fin: stmt(1, True, True)(body, hs, elsef, fin)
    got = outcome(build(real), log); log.clear()
    want = outcome(build(py), log)
    mc.check(got == want, lambda: f"nested tryf {case}: got {got}, statement gives {want}")
    mc.step(len(log)); mc.state(str(got))

# ------------------------------------------------------------------ raisef
def raise_gen(tier):
    for exc in ("type", "inst", "base"):
        for cause in ("-", "None", "type", "inst", "falsy"):
            for ctx in (False, True):
                yield [exc, cause, ctx]

class Falsy(Exception):
    def __bool__(self):
        return False
def raise_run(case):
    exc, cause, ctx = case
    mk = {"type": A, "inst": A("x"), "base": K("x")}[exc]
    cz = {"-": None, "None": None, "type": N, "inst": N("c"), "falsy": Falsy()}[cause]
    def real():
        return raisef(mk) if cause == "-" else raisef(mk, cause=cz)
    def py():
        if cz is None:
            raise mk
        raise mk from cz
    def run(f):
        if isinstance(mk, BaseException):
            mk.__cause__ = mk.__context__ = None
            mk.__suppress_context__ = False
        def th():
            if not ctx:
                return f()
            try:
                raise KeyError("ctx")
            except KeyError:
                return f()
        return outcome(th, [])
    got, want = run(real), run(py)
    mc.check(got == want, lambda: f"raisef {case}: {got}, statement gives {want}")
    mc.step(); mc.state(str(got))

# ------------------------------------------------------------------ reraise
RSPEC = ["A", "B", ("t", "B", "N"), "Exc", "K", "Base"]
RTGT = ["type", "inst", "selfA"]
def re_gen(tier):
    n = 2 if tier == "quick" else 3
    ent = list(itertools.product(RSPEC, RTGT))
    for m in mc.seqs(ent, n):
        if len({str(s) for s, _ in m}) < len(m):
            continue
        for b in ("ok", "A", "B", "N", "K"):
            for form in ("in", "with", "nested"):
                yield [m, b, form]

def re_run(case):
    m, b, form = case
    log = []
    body, _, _, _ = make(b, [], "-", "-", log)
    def mapping():
        return {spec(s): {"type": KeyError, "inst": KeyError("mapped", i), "selfA": A}[t] for i, (s, t) in enumerate(m)}
    mp = mapping()
    def real():
        if form == "in":
            return reraise_in(body, mp)
        if form == "with":
            with reraise(mp):
                return body()
        with reraise({KeyError: LookupError}):
            with reraise(mp):
                return body()
    mp2 = mapping()
    def py1():
        try:
            return body()
        except BaseException as e:
            for s, t in mp2.items():
                if isinstance(e, s):
                    raise t from e
            raise
    def py():
        if form != "nested":
            return py1()
        try:
            return py1()
        except KeyError as e:
            raise LookupError from e
    got = outcome(real, log); log.clear()
    want = outcome(py, log)
    mc.check(got == want, lambda: f"reraise {case}: got {got}, expected {want}")
    mc.step(len(m) + 1); mc.state(str(got))

SPACES = [
    mc.Space("tryf", try_gen, try_run, "all body outcomes x handler lists of <=2 (3) x else x finally"),
    mc.Space("tryf_nested", nest_gen, nest_run, "one tryf nested in each clause of another"),
    mc.Space("raisef", raise_gen, raise_run, "exception/cause forms, with and without active exception"),
    mc.Space("reraise", re_gen, re_run, "all mappings of <=2 (3) entries x body outcomes x 3 forms"),
]
