"""S01: views, functional update, slice membership, vs. Python's own list semantics."""
from lib import mc
import itertools
from collections import namedtuple
from unpythonic import view, roview, fupdate, fup, frozendict, in_slice, index_in_slice, imemoize
from unpythonic.collections import ShadowedSequence, SequenceView, MutableSequenceView

def S(a=None, b=None, c=None):
    return [a, b, c]
def sl(s):
    return slice(*s)

# ---- views under histories of mutations
ALL = [[a, b, c] for a in (None, -3, -2, -1, 0, 1, 2, 5) for b in (None, -3, -2, -1, 0, 1, 3, 5) for c in (None, 2, -1, -2)]
MID = [S(), S(1), S(-2), S(None, 2), S(None, -1), S(1, 3), S(-3, -1), S(1, -1), S(None, None, 2), S(1, None, 2), S(None, None, -1), S(-2, None, -1), S(None, -2, -1), S(None, None, -2), S(3, 0, -1), S(0, 0), S(-1, None)]
FEW = [S(1), S(-2), S(None, -1), S(None, None, 2), S(None, None, -1), S(None, 2)]

def v_gen(tier):
    for s in ALL:
        yield [[s], 2]
    for a, b in itertools.product(MID, repeat=2):
        yield [[a, b], 2]
    for c in itertools.product(FEW if tier == "quick" else MID[:12], repeat=3):
        yield [c, 2]
    if tier != "quick":
        for a, b in itertools.product(MID, repeat=2):
            yield [[a, b], 3]
        for s in ALL:
            yield [[s], 3]

BIG = [S(), S(9), S(-25), S(3, -4), S(None, 20), S(-18, -5), S(2, 30, 7), S(None, None, -1), S(None, None, -5), S(35, 3, -3), S(-2, None, -1)]
def vl_gen(tier):
    """long lists"""
    for k in (1, 2) if tier == "quick" else (1, 2, 3):
        for c in itertools.product(BIG, repeat=k):
            for n in (12, 40) if tier == "quick" else (12, 17, 40, 300):
                yield [c, 1, n]

BASEOPS = ["append", "pop", "insert0", "del0", "grow3", "set0", "clear"]
VIEWOPS = ["vset0", "vset-1", "vslice", "vpart", "vscalar", "vreverse", "voverlap", "vbad"]

def observe(vs, chain, base, what):
    r = range(len(base))
    ranges = [r]
    for s in chain:
        r = r[sl(s)]
        ranges.append(r)
    for lvl, (v, r) in enumerate(zip(vs, ranges)):
        want = [base[j] for j in r]
        n = len(want)
        w = lambda: f"{what}, level {lvl}"
        mc.check(len(v) == n, lambda: f"{w()}: len {len(v)}, expected {want}")
        got = [x for x in v]
        mc.check(got == want, lambda: f"{w()}: iteration gives {got}, expected {want}")
        for k in range(-n, n):
            mc.check(v[k] == want[k], lambda: f"{w()}: [{k}] gives {v[k]}, expected {want[k]}")
        mc.check(v == want and not (v != want) and v != want + [0], lambda: f"{w()}: equality")
    mc.step(len(vs))
    return ranges[-1]

def fullobserve(v, want, what):
    n = len(want)
    for k in (n, n + 1, -n - 1, -n - 2):
        mc.check(mc.outcome(lambda: v[k]) == ("exc", "IndexError"), lambda: f"{what}: [{k}] of {want}")
    for s in (S(1), S(None, None, -1), S(-2, None), S(None, None, 2)):
        got = v[sl(s)]
        mc.check(isinstance(got, type(v)) and list(got) == want[sl(s)], lambda: f"{what}: slice {s} gives {list(got)}, expected {want[sl(s)]}")
    mc.check(list(reversed(v)) == want[::-1], lambda: f"{what}: reversed")
    for x in set(want) | {"no"}:
        mc.check((x in v) == (x in want), lambda: f"{what}: containment of {x}")
        mc.check(v.count(x) == want.count(x), lambda: f"{what}: count of {x}")
        mc.check(mc.outcome(lambda: v.index(x)) == mc.outcome(lambda: want.index(x)), lambda: f"{what}: index of {x}")
    mc.check(repr(v) == f"{type(v).__name__}({want!r})", lambda: f"{what}: repr {v!r}")
    mc.check((v == 5) is False and (v == None) is False, "comparison with a non-container")   # noqa: E711

def v_run(case):
    chain, depth, *ns = case
    for n in ns or ((0, 1, 3, 4) if depth == 2 else (2, 4)):
        for hist in itertools.product(BASEOPS + VIEWOPS, repeat=depth):
            base = [f"e{i}" for i in range(n)]
            vs = [view(base)]
            ros = [roview(base)]
            for s in chain:
                vs.append(vs[-1][sl(s)])
                ros.append(ros[-1][sl(s)])
            fresh = itertools.count()
            what = f"n={n} chain={chain}"
            r = observe(vs, chain, base, what)
            ok = True
            for op in hist:
                what += " " + op
                v = vs[-1]
                nx = lambda: f"x{next(fresh)}"
                model = list(base)
                if op == "append": base.append(nx()); model = list(base)
                elif op == "pop":
                    if not base: ok = False; break
                    base.pop(); model = list(base)
                elif op == "insert0": base.insert(0, nx()); model = list(base)
                elif op == "del0":
                    if not base: ok = False; break
                    del base[0]; model = list(base)
                elif op == "grow3": base.extend([nx(), nx(), nx()]); model = list(base)
                elif op == "set0":
                    if not base: ok = False; break
                    base[0] = nx(); model = list(base)
                elif op == "clear": base.clear(); model = []
                elif op in ("vset0", "vset-1"):
                    k = 0 if op == "vset0" else -1
                    x = nx()
                    if len(r):
                        v[k] = x
                        model[r[k]] = x
                    else:
                        def f():
                            v[k] = x
                        mc.check(mc.outcome(f) == ("exc", "IndexError"), lambda: f"{what}: assignment to an item of an empty view")
                elif op == "vslice":
                    xs = [nx() for _ in r]
                    v[:] = iter(xs)
                    for j, x in zip(r, xs): model[j] = x
                elif op == "vpart":
                    xs = [nx() for _ in r[1::2]]
                    v[1::2] = xs
                    for j, x in zip(r[1::2], xs): model[j] = x
                elif op == "vscalar":
                    v[:] = 7
                    for j in r: model[j] = 7
                elif op == "vreverse":
                    v.reverse()
                    for j, x in zip(r, [model[j] for j in reversed(r)]): model[j] = x
                elif op == "voverlap":
                    src = v[::-1]
                    xs = [model[j] for j in reversed(r)]
                    v[:] = src
                    for j, x in zip(r, xs): model[j] = x
                else:
                    def f():
                        v[len(r)] = 1
                    mc.check(mc.outcome(f) == ("exc", "IndexError"), lambda: f"{what}: assignment out of range")
                mc.check(base == model, lambda: f"{what}: underlying sequence {base}, expected {model}")
                r = observe(vs, chain, base, what)
            if not ok:
                continue
            observe(ros, chain, base, what + " (read-only)")
            want = [base[j] for j in r]
            fullobserve(vs[-1], want, what)
            fullobserve(ros[-1], want, what + " (read-only)")
            mc.trace()
    mc.check(mc.outcome(lambda: view(ros[-1])) == ("exc", "TypeError") and mc.outcome(lambda: view((1, 2))) == ("exc", "TypeError"), "writable view of a read-only sequence")
    def f():
        ros[-1][0] = 1
    mc.check(mc.outcome(f) == ("exc", "TypeError"), "assignment through a read-only view")
    mc.state(case)

# ---- functional update
class L(list): pass
NT = {n: namedtuple(f"NT{n}", [f"f{i}" for i in range(n)]) for n in range(0, 7)}
def mk(kind, n):
    xs = [10 * i for i in range(n)]
    return {"tuple": tuple, "list": list, "sub": L, "nt": lambda ys: NT[n]._make(ys)}[kind](xs)

def u_gen(tier):
    hi = 7 if tier == "quick" else 9
    for kind in ("tuple", "list", "sub", "nt"):
        for n in range(0, 6):
            for step in (None, 1, 2, 3, -1, -2, -3):
                yield [kind, n, step, hi]
        if kind != "nt":
            for n in (12, 40):
                for step in (None, 1, 2, 7, -1, -3, -10):
                    yield [kind, n, step, hi]

class Pull:
    """iterator that records how far it was read"""
    def __init__(self, limit):
        self.n, self.limit = 0, limit
    def __iter__(self): return self
    def __next__(self):
        if self.limit is not None and self.n >= self.limit: raise StopIteration
        self.n += 1
        return f"r{self.n - 1}"

def u_run(case):
    kind, n, step, hi = case
    rng = [None] + list(range(-hi, hi + 1)) if n < 8 else [None, 0, 1, n // 2, n - 3, n, n + 5, -1, -5, -n // 2, -n, -n - 5]
    for a in rng:
        for b in rng:
            s = slice(a, b, step)
            target = mk(kind, n)
            snap = list(target)
            idx = list(range(n)[s])
            k = len(idx)
            want = list(target)
            for i, j in enumerate(idx):
                want[j] = f"r{i}"
            fwd = k < 2 or idx == sorted(idx)
            for repl in ("exact", "longer", "lst", "iter", "infinite", "memo", "short", "shortiter"):
                vals = [f"r{i}" for i in range(k)]
                p = None
                if repl == "exact": v = tuple(vals)
                elif repl == "longer": v = tuple(vals) + ("extra",)
                elif repl == "lst": v = vals
                elif repl == "iter": v = p = Pull(k)
                elif repl == "infinite": v = p = Pull(None)
                elif repl == "memo":
                    p = Pull(None)
                    v = imemoize(p)()
                elif repl == "short":
                    v = tuple(vals[:-1])
                else:
                    v = p = Pull(k - 1)
                short = repl.startswith("short") and k > 0
                if repl.startswith("short") and not k:
                    continue
                for form in ("fupdate", "fup", "multi"):
                    if p is not None and form != "fupdate" and repl != "infinite":
                        continue
                    if form != "fupdate" and p is not None:
                        v = p = Pull(None)
                    got = mc.outcome(lambda: fupdate(target, s, v) if form == "fupdate" else (fup(target)[s] << v if form == "fup" else fupdate(target, [s], [v])))
                    mc.step()
                    what = f"{form}({target!r})[{a}:{b}:{step}] << {repl}"
                    if short or (not fwd and repl in ("iter", "infinite")):
                        mc.check(got == ("exc", "IndexError"), lambda: f"{what}: {got}, expected IndexError")
                    else:
                        mc.check(got[0] == "ok" and type(got[1]) is type(target) and list(got[1]) == want, lambda: f"{what}: {got}, expected {want}")
                        if p is not None:
                            mc.check(p.n == k, lambda: f"{what}: {p.n} replacement items read, {k} needed")
                    mc.check(list(target) == snap and (got[0] == "exc" or isinstance(target, tuple) or got[1] is not target), lambda: f"{what}: the original was touched")
            # the underlying shadowed sequence
            ss = ShadowedSequence(target, s, tuple(f"r{i}" for i in range(k)))
            mc.check(len(ss) == n and list(ss) == want and list(ss) == want and [ss[i] for i in range(-n, n)] == want + want, lambda: f"ShadowedSequence {target} {s}")
            for s2 in (slice(1, None), slice(None, None, -1), slice(-2, None, 1), slice(0, 9, 2)):
                mc.check(list(ss[s2]) == want[s2], lambda: f"slice {s2} of ShadowedSequence {target} {s}")
            if n:
                s3 = ShadowedSequence(ss, 0, "top")
                mc.check(list(s3) == ["top"] + want[1:] and list(s3[0:2]) == (["top"] + want[1:])[0:2] and s3 == ["top"] + want[1:], lambda: f"nested ShadowedSequence {target} {s}")
            # membership
            if n:
                for i in range(-n, n):
                    j = i % n
                    mc.check(in_slice(i, s, n) is (j in idx), lambda: f"in_slice({i}, {s}, {n})")
                    mc.check(index_in_slice(i, s, n) == (idx.index(j) if j in idx else None), lambda: f"index_in_slice({i}, {s}, {n})")
                    mc.step(2)
                if a is not None and a >= 0 and ((b is not None and b >= 0) or (b is None and (step or 1) < 0)):
                    r = range(a, b if b is not None else -1, step or 1)
                    for i in range(0, hi + 2):
                        mc.check(in_slice(i, s) is (i in r) and index_in_slice(i, s) == (r.index(i) if i in r else None), lambda: f"in_slice({i}, {s}) without length")
    if step is None:
        for i in range(-n - 3, n + 3):
            target = mk(kind, n)
            w = list(target)
            try:
                w[i] = "new"
                want = w
            except IndexError:
                want = None
            for form in (lambda: fupdate(target, i, "new"), lambda: fup(target)[i] << "new", lambda: fupdate(target, (i,), ("new",))):
                got = mc.outcome(form)
                mc.step()
                if want is None:
                    mc.check(got == ("exc", "IndexError"), lambda: f"functional update of {target} at {i}: {got}, expected IndexError")
                else:
                    mc.check(got[0] == "ok" and type(got[1]) is type(target) and list(got[1]) == want, lambda: f"functional update of {target} at {i}: {got}, expected {want}")
                    mc.check(list(target) == list(mk(kind, n)), "the original was touched")
        cp = fupdate(target)
        mc.check(cp == target and type(cp) is type(target) and (kind in ("tuple", "nt") or cp is not target), "no-op functional update")
    mc.state(case)

# ---- several update specifications
SPECS = [(0, "i"), (-1, "i"), (2, "i"), (S(None, None, 2), "t"), (S(1, 3), "t"), (S(None, None, -1), "t"), (S(1), "g"), (S(-2), "g"), (S(), "g")]
def m_gen(tier):
    for k in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        for specs in itertools.product(range(len(SPECS)), repeat=k):
            yield [specs]

def m_run(case):
    (specs,) = case
    for kind in ("tuple", "list"):
        for n in (3, 5):
            target = mk(kind, n)
            want = list(target)
            ixs, vals = [], []
            for t, q in enumerate(specs):
                ix, how = SPECS[q]
                if how == "i":
                    ixs.append(ix)
                    vals.append(("one", t))
                    want[ix] = ("one", t)
                else:
                    s = sl(ix)
                    xs = [(t, i) for i in range(len(range(n)[s]))]
                    want[s] = xs
                    ixs.append(s)
                    vals.append(tuple(xs) if how == "t" else iter(xs))
            # an iterator is only guaranteed to be readable where no later update shadows part of it
            gens = [i for i, q in enumerate(specs) if SPECS[q][1] == "g"]
            got = mc.outcome(lambda: fupdate(target, ixs, vals))
            mc.step()
            mc.check(got[0] == "ok" and list(got[1]) == want and type(got[1]) is type(target), lambda: f"fupdate({target}, {ixs}): {got}, expected {want}")
            mc.check(list(target) == list(mk(kind, n)), "the original was touched")
    # mappings
    for t in (dict, frozendict):
        m = t({"a": 1, "b": 2})
        new = {k: (i, q) for i, (k, q) in enumerate(zip("abc", specs))}
        got = fupdate(m, **new)
        mc.check(type(got) is t and dict(got.items()) == {**{"a": 1, "b": 2}, **new} and dict(m.items()) == {"a": 1, "b": 2} and got is not m, lambda: f"functional update of a mapping: {got}")
    mc.check(mc.outcome(lambda: fupdate([1], 0, 2, a=3)) == ("exc", "ValueError"), "indices and bindings")
    mc.state(case)

SPACES = [
    mc.Space("views", v_gen, v_run, "chains of 1 slice (256), 2 (17x17), 3 (6^3; thorough 12^3) on lists of length 0,1,3,4, all histories of 2 (thorough also 3) of 15 operations on the list or through the view", timeout=120),
    mc.Space("views-long", vl_gen, v_run, "chains of 1, 2 (3) of 11 slices on lists of length 12, 40 (300), 15 operations", timeout=120),
    mc.Space("update", u_gen, u_run, "4 sequence types, length 0..5 (and 12 starts/stops at length 12, 40), all slices with start/stop in None,-7..7 (9), 7 steps, 8 kinds of replacement, 3 forms; all indices", timeout=120),
    mc.Space("multi", m_gen, m_run, "all lists of <=3 (4) update specifications of 9"),
]
