"""S06: sequence specifications vs. exact closed forms, termwise arithmetic, diagonal reductions, integer partitions."""
from lib import mc
import itertools, operator, math
from fractions import Fraction
import mpmath
from unpythonic import (s, imathify, gmathify, take, sadd, ssub, sabs, spos, sneg, sinvert, smul, spow, struediv, sfloordiv, smod, sdivmod,
                        sround, strunc, sfloor, sceil, slshift, srshift, sand, sxor, sor, cauchyprod, diagonal_reduce,
                        fibonacci, triangular, primes, partition_int, partition_int_triangular, partition_int_custom)

def close(a, b, tiny=0):
    if isinstance(a, complex) or isinstance(b, complex):
        return False
    return a == b or abs(a - b) <= max(1e-7 * max(abs(a), abs(b)), tiny)

def logratio(a, b, c):
    """p with |b| = |a|^p and |c| = |b|^p, or None. High precision decides coincidences of logarithms of small integers."""
    with mpmath.workdps(60):
        la, lb, lc = (mpmath.log(abs(mpmath.mpf(x.numerator) / x.denominator)) for x in (a, b, c))
        if abs(lb * lb - la * lc) > mpmath.mpf(10) ** -45:
            return None
        p = lb / la
        q = mpmath.nint(p * 720)
        if abs(p * 720 - q) < mpmath.mpf(10) ** -40:
            return Fraction(int(q), 720)
        return float(p)

def classify(spec):
    """Reference: ('const', a), ('arith', a, d), ('geom', a, r), ('power', a, p), None (not a sequence), 'skip' (ambiguous: roots of negatives)."""
    n = len(spec)
    F = [Fraction(x) for x in spec]
    if n == 1:
        return ("const", F[0])
    if n == 2:
        return ("arith", F[0], F[1] - F[0]) if F[0] != F[1] else ("const", F[0])
    if n > 3:
        parts = [classify(spec[j:j + 3]) for j in range(n - 2)]
        if "skip" in parts:
            return "skip"
        if None in parts or len({p[0] for p in parts}) > 1 or len({p[2:] for p in parts}) > 1:
            return None
        return parts[0]
    a, b, c = F
    if a == b == c:
        return ("const", a)
    if b - a == c - b:
        return ("arith", a, b - a)
    if a and b and c and b * b == a * c:
        return ("geom", a, b / a)
    if a and b and c and abs(a) != 1 and abs(b) != 1:
        p = logratio(a, b, c)
        if p is not None:
            if a < 0 or b < 0 or c < 0:
                if isinstance(p, Fraction) and p.denominator == 1 and p > 0:
                    return ("power", a, p) if a ** int(p) == b and b ** int(p) == c else None
                if a > 0:
                    return None
                return "skip"
            return ("power", a, p)
    return None

def terms(desc, n):
    kind, a = desc[:2]
    out = []
    for j in range(n):
        if kind == "const": out.append(a)
        elif kind == "arith": out.append(a + j * desc[2])
        elif kind == "geom": out.append(a * desc[2] ** j)
        else:
            e = desc[2] ** j
            if isinstance(e, Fraction) and e.denominator == 1 and e > 0: out.append(a ** int(e))
            else: out.append(float(a) ** float(e))
            if abs(math.log(abs(out[-1]))) > 200 if out[-1] else False:
                break
    return out

def check_terms(got, want, what):
    mc.check(len(got) == len(want) and all(close(g, w, 1e-12) for g, w in zip(got, want)), lambda: f"{what}: {got}, expected {[float(w) for w in want]}")

def run_inf(spec, desc):
    """Infinite form."""
    what = f"s({', '.join(map(str, spec))}, ...)"
    got = mc.outcome(lambda: s(*spec, ...))
    mc.step()
    if desc == "skip":
        return
    if desc is None:
        mc.check(got == ("exc", "SyntaxError"), lambda: f"{what} accepted or wrong error: {got if got[0] == 'exc' else list(take(5, got[1]))}")
        return
    mc.check(got[0] == "ok", lambda: f"{what} raised {got[1]}")
    want = terms(desc, 7)
    out = list(take(len(want), got[1]))
    check_terms(out, want, what)

def run_fin(spec, desc, lasts):
    if desc == "skip":
        return
    seq = terms(desc, 9) if desc else []
    for last in lasts:
        what = f"s({', '.join(map(str, spec))}, ..., {last})"
        got = mc.outcome(lambda: list(take(50, s(*spec, ..., last))))
        mc.step()
        if desc is None or desc[0] == "const" or (desc[0] == "geom" and abs(desc[2]) == 1):
            mc.check(got == ("exc", "SyntaxError"), lambda: f"{what}: {got}, expected to be rejected")
            continue
        if close(last, seq[0]):
            continue    # the documentation does not say whether a sequence may end at its first term
        # position in the exact sequence (monotone in absolute value or alternating: search far enough)
        far = terms(desc, 45)
        idx = next((j for j, t in enumerate(far) if close(t, last)), None)
        if idx is None:
            mc.check(got == ("exc", "SyntaxError"), lambda: f"{what}: {got}, expected to be rejected")
        else:
            mc.check(got[0] == "ok", lambda: f"{what}: {got}, expected {idx + 1} terms")
            check_terms(got[1], far[:idx + 1], what)

def sp_gen(tier):
    m = 8 if tier == "quick" else 14
    R = range(-m, m + 1)
    for a in R:
        yield [[a]]
        for b in R:
            yield [[a, b], list(R)]
    q = 4 if tier == "quick" else 6
    for t in itertools.product(range(-q, q + 1), repeat=2):
        yield ["quad", list(t), q]

def sp_run(case):
    mc.state(case)
    if case[0] == "quad":
        _, pre, q = case
        for t in itertools.product(range(-q, q + 1), repeat=2):
            spec = pre + list(t)
            run_inf(spec, classify(spec))
        return
    spec = case[0]
    d = classify(spec)
    run_inf(spec, d)
    run_fin(spec, d, range(-12, 13))
    if len(spec) == 2:
        for c in case[1]:
            sp = spec + [c]
            d = classify(sp)
            run_inf(sp, d)
            run_fin(sp, d, [-1, 0, 1, 2, 5, -7])

# ---- generated sequences: every spec length, every end, exact and float
def ge_gen(tier):
    nums = ["0", "1", "-1", "2", "-3", "1/2", "-1/4", "7"]
    ds = ["1", "-1", "3", "-2", "1/2", "-1/4", "1/10", "100"]
    rs = ["2", "-2", "3", "-3", "1/2", "-1/2", "1/3", "-1/3", "10", "-1"]
    for a in nums:
        for d in ds:
            yield ["arith", a, d]
        for r in rs:
            if a != "0":
                yield ["geom", a, r]
    for a in ("2", "3", "-2", "-3", "1/2", "16", "10", "5"):
        for p in ("2", "3", "1/2"):
            if a[0] == "-" and p == "1/2":
                continue
            yield ["power", a, p]

def num(x, fl):
    if isinstance(x, Fraction) and x.denominator == 1 and not fl:
        return int(x)
    return float(x)

def ge_run(case):
    kind, a, k = case
    desc = (kind, Fraction(a), Fraction(k))
    full = terms(desc, 13 if kind != "power" else 5)
    mc.state(case)
    for fl in (False, True):
        T = [num(t, fl) for t in full]
        for n in range(2 if kind == "arith" else 3, 6):
            if n > len(T):
                continue
            spec = T[:n]
            what = f"s({spec}, ...)"
            out = mc.outcome(lambda: list(take(len(full), s(*spec, ...))))
            mc.check(out[0] == "ok", lambda: f"{what} raised {out[1]}")
            check_terms(out[1], full, what)
            for j in range(1, len(T)):
                what = f"s({spec}, ..., {T[j]})"
                out = mc.outcome(lambda: list(take(len(full) + 5, s(*spec, ..., T[j]))))
                if kind == "geom" and abs(desc[2]) == 1:
                    mc.check(out == ("exc", "SyntaxError"), lambda: f"{what}: {out}")
                    continue
                mc.check(out[0] == "ok", lambda: f"{what} raised {out[1]}")
                check_terms(out[1], full[:j + 1], what)
                mc.step()
            # ends that are not in the sequence: between terms, wrong sign, before the start
            for j in range(0, len(T) - 1):
                bad = [(T[j] * 3 + T[j + 1] * 2) / 5]
                if kind != "arith":
                    bad.append(-T[j + 1])
                for x in bad:
                    if any(close(x, t) for t in full):
                        continue
                    what = f"s({spec}, ..., {x})"
                    out = mc.outcome(lambda: list(take(50, s(*spec, ..., x))))
                    mc.check(out == ("exc", "SyntaxError"), lambda: f"{what}: {out}, expected to be rejected")
                    mc.step()
            # inconsistent: disturb one given term
            if n >= 4:
                for j in range(n):
                    sp = list(spec)
                    sp[j] = sp[j] * 2 + 1
                    d = classify([Fraction(x) for x in sp]) if not fl else None
                    if fl or d == "skip" or sp == spec or not all(isinstance(x, int) for x in sp):
                        continue
                    if d is None:
                        mc.check(mc.outcome(lambda: s(*sp, ...)) == ("exc", "SyntaxError"), lambda: f"s({sp}, ...) accepted")
                        mc.step()

# ---- other kinds of numbers, and symbolic expressions
import sympy
def kinds_gen(tier):
    for kind in ("frac", "mpf", "sym"):
        for c in ge_gen(tier):
            if c[0] == "power" and (kind == "frac" or kind == "sym" and c[2] != "2"):    # fractional powers of fractions become floats
                continue
            yield [kind] + c
    for kind in ("arith", "geom", "power"):
        for x0 in ("x", "2*x", "x*y", "3") if kind != "power" else ("x",):   # logarithms of products of symbols are not simplified
            for k in ("y", "-y", "2", "-3", "x") if kind != "power" else ("2", "3"):
                yield ["symbolic", kind, x0, k]

def conv(x, kind):
    if isinstance(x, float): return x
    if kind == "frac": return x
    if kind == "mpf": return mpmath.mpf(x.numerator) / x.denominator
    return sympy.Rational(x.numerator, x.denominator)

def kinds_run(case):
    mc.state(case)
    numtype, kind, a, k = case
    if numtype == "symbolic":
        x, y = sympy.symbols("x y", positive=True)
        x0, kk = (eval(e, {"x": x, "y": y}) for e in (a, k))
        full = [x0 + j * kk if kind == "arith" else x0 * kk**j if kind == "geom" else x0**(kk**j) for j in range(7 if kind != "power" else 5)]
        for n in range(2 if kind == "arith" else 3, 5):
            spec = full[:n]
            got = mc.outcome(lambda: list(take(len(full), s(*spec, ...))))
            mc.check(got[0] == "ok" and len(got[1]) == len(full) and all(sympy.simplify(g - t) == 0 for g, t in zip(got[1], full)), lambda: f"s({spec}, ...): {got}, expected {full}")
            mc.step()
            for bad in (full[1] + 1, full[1] * 7, full[0]):
                sp = spec[:2] + [bad] + spec[3:]
                if n < 4 or len(set(map(str, sp[:3]))) < 3:
                    continue
                got = mc.outcome(lambda: list(take(3, s(*sp, ...))))
                mc.check(got == ("exc", "SyntaxError"), lambda: f"s({sp}, ...): {got}, expected to be rejected")
                mc.step()
        return
    desc = (kind, Fraction(a), Fraction(k))
    full = terms(desc, 9 if kind != "power" else 5)
    T = [conv(t, numtype) for t in full]
    exact = numtype in ("frac", "sym") and kind != "power"
    def same(got, want, what):
        if exact:
            mc.check(len(got) == len(want) and all(sympy.simplify(g - w) == 0 if numtype == "sym" else g == w for g, w in zip(got, want)), lambda: f"{what}: {got}, expected {want}")
        else:
            check_terms([float(g) for g in got], [float(w) for w in want], what)
    for n in range(2 if kind == "arith" else 3, 5):
        if n > len(T):
            continue
        spec = T[:n]
        what = f"s({spec}, ...)"
        out = mc.outcome(lambda: list(take(len(T), s(*spec, ...))))
        mc.check(out[0] == "ok", lambda: f"{what} raised {out[1]}")
        same(out[1], T, what)
        mc.step()
        for j in range(1, len(T)):
            if kind == "power" and numtype == "sym" and n > 3:
                continue
            what = f"s({spec}, ..., {T[j]})"
            out = mc.outcome(lambda: list(take(len(T) + 5, s(*spec, ..., T[j]))))
            mc.step()
            if kind == "geom" and abs(desc[2]) == 1:
                mc.check(out == ("exc", "SyntaxError"), lambda: f"{what}: {out}")
                continue
            mc.check(out[0] == "ok", lambda: f"{what} raised {out[1]}")
            same(out[1], T[:j + 1], what)
            bad = (T[j - 1] * 3 + T[j] * 2) / 5
            if not any(close(float(bad), float(t)) for t in full):
                what = f"s({spec}, ..., {bad})"
                out = mc.outcome(lambda: list(take(50, s(*spec, ..., bad))))
                mc.check(out == ("exc", "SyntaxError"), lambda: f"{what}: {out}, expected to be rejected")

# ---- syntax of specifications
TOK = {"1": 1, "2": 2, "4": 4, "E": ..., "L": [7, 8], "M": []}
def sy_gen(tier):
    for t in mc.seqs(TOK, 4 if tier == "quick" else 6, 1):
        yield "".join(t)

def sy_run(spec):
    xs = [TOK[c] for c in spec]
    mc.state(spec)
    got = mc.outcome(lambda: list(take(8, s(*xs))))
    mc.step()
    def expect(want):
        mc.check(got == want if want[0] == "exc" else (got[0] == "ok" and len(got[1]) == len(want[1]) and all(close(a, b) for a, b in zip(got[1], want[1]))), lambda: f"s({spec}): {got}, expected {want}")
    bad = ("exc", "SyntaxError")
    if "E" not in spec:
        if spec[-1] in "LM":
            expect(bad)
        elif not set(spec) & set("LM"):
            expect(("ok", xs))
        return
    if spec.count("E") > 1 or spec == "E":
        return expect(bad)
    if spec.endswith("E"):
        body = spec[:-1]
        if body[-1] == "M":
            return expect(bad)
        if body[-1] == "L":
            if set(body[:-1]) & set("LM"):
                return          # list-valued initial terms: unspecified
            return expect(("ok", ([TOK[c] for c in body[:-1]] + [7, 8] * 8)[:8]))
        if set(body) & set("LM"):
            return expect(bad)
        d = classify([TOK[c] for c in body])
        if d == "skip":
            return
        return expect(bad if d is None else ("ok", [float(x) for x in terms(d, 8)]))
    if spec[-2] != "E" or len(spec) < 3 or set(spec) & set("LM"):
        return expect(bad)
    run_fin([TOK[c] for c in spec[:-2]], classify([TOK[c] for c in spec[:-2]]), [xs[-1]])

# ---- termwise operations
class T:
    """Uninterpreted operand: records the operation tree."""
    def __init__(self, t): self.t = t
def _mk(name):
    def op(self, *o): return T((name, self.t) + tuple(x.t if isinstance(x, T) else x for x in o))
    return op
def _mkr(name):
    def op(self, o): return T((name, o.t if isinstance(o, T) else o, self.t))
    return op
BIN = {"add": (sadd, operator.add), "sub": (ssub, operator.sub), "mul": (smul, operator.mul), "truediv": (struediv, operator.truediv), "floordiv": (sfloordiv, operator.floordiv),
       "mod": (smod, operator.mod), "divmod": (sdivmod, divmod), "pow": (spow, pow), "lshift": (slshift, operator.lshift), "rshift": (srshift, operator.rshift),
       "and": (sand, operator.and_), "xor": (sxor, operator.xor), "or": (sor, operator.or_)}
CMP = {"lt": operator.lt, "le": operator.le, "eq": operator.eq, "ne": operator.ne, "ge": operator.ge, "gt": operator.gt}
UN = {"abs": (sabs, abs), "pos": (spos, operator.pos), "neg": (sneg, operator.neg), "invert": (sinvert, operator.invert), "trunc": (strunc, math.trunc), "floor": (sfloor, math.floor), "ceil": (sceil, math.ceil), "round": (sround, round)}
for n in BIN:
    setattr(T, f"__{n}__", _mk(n))
    setattr(T, f"__r{n}__", _mkr(n))
for n in CMP:
    setattr(T, f"__{n}__", _mk(n))
for n in UN:
    setattr(T, f"__{n}__", _mk(n))
T.__hash__ = None

def tr(x):
    if isinstance(x, T): return x.t
    if isinstance(x, (tuple, list)): return tuple(tr(y) for y in x)
    return x

def op_gen(tier):
    for n in BIN:
        for la in range(4):
            for lb in range(4):
                yield ["bin", n, la, lb]
    for n in CMP:
        for la in range(4):
            for lb in range(4):
                yield ["cmp", n, la, lb]
    for n in UN:
        for la in range(4):
            yield ["un", n, la, 0]

class Reads:
    def __init__(self, items): self.items, self.n = items, 0
    def __iter__(self):
        for x in self.items:
            self.n += 1
            yield x

def op_run(case):
    kind, n, la, lb = case
    mc.state(case)
    A = [T(f"a{j}") for j in range(la)]
    B = [T(f"b{j}") for j in range(lb)]
    nm = n
    def same(got, want, what):
        mc.check(isinstance(got, imathify), lambda: f"{what}: the result does not support infix math")
        g = [tr(x) for x in got]
        mc.check(g == want, lambda: f"{what}: {g}, expected {want}")
        mc.step()
    if kind == "un":
        f, prim = UN[n]
        want = [(nm, a.t) for a in A]
        same(f(A), want, f"s{n}")
        same(f(iter(A)), want, f"s{n}")
        same(prim(imathify(A)), want, f"infix {n}")
        mc.check(tr(f(T("x"))) == (nm, "x"), "scalar")
        same(imathify([[tr(y) for y in x] for x in f([A, A])]), [tuple(want)] * 2, f"nested s{n}")
        if n == "round":
            same(sround(A, 2), [("round", a.t, 2) for a in A], "sround digits")
            same(round(imathify(A), 3), [("round", a.t, 3) for a in A], "round digits")
        return
    if kind == "cmp":
        prim = CMP[n]
        flip = {"lt": "gt", "le": "ge", "gt": "lt", "ge": "le", "eq": "eq", "ne": "ne"}
        same(prim(imathify(A), imathify(B)), [(nm, a.t, b.t) for a, b in zip(A, B)], f"infix {n}")
        same(prim(imathify(A), B), [(nm, a.t, b.t) for a, b in zip(A, B)], f"infix {n}")
        same(prim(imathify(A), 5), [(nm, a.t, 5) for a in A], f"infix {n} scalar")
        got = [tr(x) for x in prim(5, imathify(B))]
        mc.check(got in ([(nm, 5, b.t) for b in B], [(flip[n], b.t, 5) for b in B]), lambda: f"scalar {n} stream: {got}")
        return
    f, prim = BIN[n]
    S = T("S")
    pairs = [(nm, a.t, b.t) for a, b in zip(A, B)]
    for x, y in ((A, B), (iter(A), B), (A, iter(B)), (imathify(A), B), (A, imathify(B)), (imathify(iter(A)), imathify(iter(B)))):
        same(f(x, y), pairs, f"s{n}")
    same(prim(imathify(A), imathify(B)), pairs, f"infix {n}")
    same(prim(imathify(A), B), pairs, f"infix {n}")
    if n not in ("add", "mul", "mod"):      # list + imathify etc. are tried by list first, but fail and fall back
        pass
    same(prim(tuple(A), imathify(B)) if n not in () else None, pairs, f"reflected infix {n}")
    same(f(A, S), [(nm, a.t, "S") for a in A], f"s{n} scalar right")
    same(f(S, B), [(nm, "S", b.t) for b in B], f"s{n} scalar left")
    same(prim(imathify(A), 5), [(nm, a.t, 5) for a in A], f"infix {n} scalar right")
    same(prim(5, imathify(B)), [(nm, 5, b.t) for b in B], f"infix {n} scalar left")
    mc.check(tr(f(T("x"), T("y"))) == (nm, "x", "y"), "scalars")
    if n == "pow":
        same(spow(A, B, 7), [("pow", a.t, b.t, 7) for a, b in zip(A, B)], "spow mod")
        same(pow(imathify(A), 2, 7), [("pow", a.t, 2, 7) for a in A], "pow mod")
    # laziness: k results need k items of each
    ra, rb = Reads(A), Reads(B)
    g = iter(f(ra, rb))
    mc.check(ra.n == rb.n == 0, lambda: f"s{n} reads eagerly")
    for k in range(1, len(pairs) + 1):
        next(g)
        mc.check(ra.n <= k and rb.n <= k, lambda: f"s{n}: read {ra.n}, {rb.n} items for {k} results")
    # nested: a stream of streams broadcasts termwise
    got = [[tr(y) for y in x] for x in f([A, A], S)]
    mc.check(got == [[(nm, a.t, "S") for a in A]] * 2, lambda: f"nested s{n}: {got}")
    @gmathify
    def gen():
        yield from A
    same(prim(gen(), S), [(nm, a.t, "S") for a in A], f"gmathify {n}")

# ---- diagonal reductions
def dg_gen(tier):
    m = 5 if tier == "quick" else 8
    for la in list(range(m)) + ["inf"]:
        for lb in list(range(m)) + ["inf"]:
            for req in ("any", "all", None):
                yield [la, lb, req]

def dg_run(case):
    la, lb, req = case
    mc.state(case)
    kw = {} if req is None else dict(require=req)
    rq = req or "any"
    CAP = 9
    def want_idx():
        out = []
        for n in range(CAP):
            pairs = [(j, n - j) for j in range(n + 1) if (la == "inf" or j < la) and (lb == "inf" or n - j < lb)]
            if rq == "all" and len(pairs) < n + 1:
                break
            if not pairs:
                break
            out.append(pairs)
        return out
    W = want_idx()
    def mk(name, ln):
        return (T(f"{name}{j}") for j in (itertools.count() if ln == "inf" else range(ln)))
    def combine(xs, ys):
        return [("c", tr(x), tr(y)) for x, y in zip(list(xs), list(ys))]
    for rewrap in (lambda x: x, list, imathify):
        if rewrap is list and "inf" in (la, lb):
            continue
        g = diagonal_reduce(rewrap(mk("a", la)), rewrap(mk("b", lb)), combine=combine, reduce=tuple, **kw)
        got = list(take(CAP, g))
        want = [tuple(("c", f"a{i}", f"b{j}") for i, j in ps) for ps in W]
        mc.check(got == want, lambda: f"diagonal_reduce of lengths {la}, {lb}, require={req}: {got}, expected {want}")
        mc.check(isinstance(g, imathify), "diagonal_reduce result supports infix math")
    nums = lambda k, ln: (k * j + 1 for j in (itertools.count() if ln == "inf" else range(ln)))
    got = list(take(CAP, cauchyprod(nums(2, la), nums(3, lb), **kw)))
    want = [sum((2 * i + 1) * (3 * j + 1) for i, j in ps) for ps in W]
    mc.check(got == want, lambda: f"cauchyprod of lengths {la}, {lb}, require={req}: {got}, expected {want}")
    # laziness
    ra, rb = Reads(nums(2, la)), Reads(nums(3, lb))
    g = iter(cauchyprod(ra, rb, **kw))
    for k in range(1, len(W) + 1):
        next(g)
        mc.check(ra.n <= k and rb.n <= k, lambda: f"cauchyprod read {ra.n}, {rb.n} items for {k} terms")
    mc.step(3 * len(W))
    mc.check(mc.outcome(cauchyprod, 1, [1]) == ("exc", "TypeError") and mc.outcome(lambda: cauchyprod([1], [1], require="some")) == ("exc", "ValueError"), "validation")

# ---- special sequences: interleaved consumers
def ss_gen(tier):
    for sched in itertools.product("abc", repeat=6 if tier == "quick" else 8):
        yield "".join(sched)
PR = [n for n in range(2, 400) if all(n % d for d in range(2, n))]
def ss_run(sched):
    mc.state(sched)
    fib = [1, 1]
    while len(fib) < 40: fib.append(fib[-1] + fib[-2])
    tri = [k * (k + 1) // 2 for k in range(1, 41)]
    for a, b, c, wa, wb, wc in ((primes(), primes("memory"), primes(optimize="speed"), PR, PR, PR), (fibonacci(), triangular(), fibonacci(), fib, tri, fib)):
        its = {"a": (iter(a), wa), "b": (iter(b), wb), "c": (iter(c), wc)}
        cnt = dict.fromkeys("abc", 0)
        for w in sched:
            got = [next(its[w][0]) for _ in range(3)]
            want = its[w][1][cnt[w]:cnt[w] + 3]
            mc.check(got == want, lambda: f"special sequence, schedule {sched}: {got}, expected {want}")
            cnt[w] += 3
            mc.step()
    mc.check(list(take(60, primes())) == PR[:60] and list(take(3, primes() + 1)) == [3, 4, 6], "primes")
    mc.check(mc.outcome(primes, "x") == ("exc", "ValueError"), "validation")

# ---- partitions
def pt_gen(tier):
    m = 8 if tier == "quick" else 11
    for n in range(1, m + 1):
        for lo in range(1, n + 1):
            for up in [None] + list(range(lo, n + 1)):
                yield ["int", n, lo, up]
    for n in range(1, 13 if tier == "quick" else 18):
        for lo in range(1, n + 1):
            for up in [None] + list(range(lo, n + 1)):
                yield ["tri", n, lo, up]
    for n in range(1, 7 if tier == "quick" else 9):
        for k in range(0, n + 1):
            for comps in itertools.combinations(range(1, n + 1), k):
                for order in (comps, comps[::-1]):
                    yield ["cus", n, list(order), None]
    yield ["bad", 0, 0, 0]

def d_part(n, comps):
    if n == 0:
        return {()}
    return {(k,) + r for k in comps if k <= n for r in d_part(n - k, comps)}

def pt_run(case):
    kind, n, lo, up = case
    mc.state(case)
    if kind == "bad":
        for f in (partition_int, partition_int_triangular):
            for args in ((0,), (-1,), (3, 0), (3, 4), (3, 1, 4), (3, 2, 1), (3, 1, 0)):
                mc.check(mc.outcome(lambda: tuple(f(*args))) == ("exc", "ValueError"), lambda: f"{f.__name__}{args}")
            for args in ((1.5,), (3, 1.5), (3, 1, "x")):
                mc.check(mc.outcome(lambda: tuple(f(*args))) == ("exc", "TypeError"), lambda: f"{f.__name__}{args}")
        for args, e in (((0, [1]), "ValueError"), ((3, [4]), "ValueError"), ((3, [0]), "ValueError"), ((3, [1.0]), "TypeError"), (("3", [1]), "TypeError")):
            mc.check(mc.outcome(lambda: tuple(partition_int_custom(*args))) == ("exc", e), lambda: f"partition_int_custom{args}")
        return
    u = up if up is not None else n
    if kind == "cus":
        comps = lo
        got = list(partition_int_custom(n, iter(comps)))
        mc.check(sorted(got) == sorted(partition_int_custom(n, tuple(comps))), "iterable kinds")
    elif kind == "int":
        comps = range(lo, u + 1)
        got = list(partition_int(n, lo, up) if up is not None else partition_int(n, lower=lo))
    else:
        comps = [t for t in (k * (k + 1) // 2 for k in range(1, n + 1)) if lo <= t <= u]
        got = list(partition_int_triangular(n, lower=lo, upper=up))
    want = d_part(n, list(comps))
    mc.check(len(got) == len(set(got)), lambda: f"partition {case}: duplicates")
    mc.check(set(got) == want, lambda: f"partition {case}: missing {want - set(got)}, extra {set(got) - want}")
    mc.step(len(got))

SPACES = [
    mc.Space("specs", sp_gen, sp_run, "all integer specifications: triples over [-8,8] (thorough [-14,14]), quadruples over [-4,4] ([-6,6]); infinite form and every final element in range; exact rational classification as oracle"),
    mc.Space("generated", ge_gen, ge_run, "arithmetic, geometric, power sequences over grids of start and parameter (exact and float), every specification length, every end, disturbed terms"),
    mc.Space("kinds", kinds_gen, kinds_run, "the same grids over fractions, mpmath floats and SymPy rationals; SymPy expressions in two positive symbols"),
    mc.Space("syntax", sy_gen, sy_run, "all token sequences of length up to 4 (6) over numbers, ellipsis, repeat lists"),
    mc.Space("termwise", op_gen, op_run, "all operators x all operand lengths up to 3, uninterpreted operands, scalar/stream/reflected/nested forms, reads"),
    mc.Space("diagonal", dg_gen, dg_run, "all pairs of lengths up to 4 (7) and infinite, require any/all, uninterpreted combine and reduce"),
    mc.Space("special", ss_gen, ss_run, "all interleavings of three consumers"),
    mc.Space("partitions", pt_gen, pt_run, "all integers up to 8 (11) with all bounds, triangular up to 12 (17), all component sets up to 6 (8)"),
]
