"""S05: iterator utilities: output, amount of input read after every output, errors of the source, interleavings."""
from lib import mc
import itertools, queue
from collections import deque
from unpythonic import (uniqify, uniq, take, drop, split_at, unpack, tail, butlast, butlastn, first, second, nth, last, lastn, scons, pad,
                        flatten, flatten1, flatten_in, iterate, iterate1, partition, inn, iindex, find, window, chunked, within, interleave,
                        subset, powerset, allsame, islice, Values, Popper, CountingIterator, slurp)

class Boom(Exception):
    pass

class Src:
    def __init__(self, items, boom=False):
        self.items, self.read, self.boomed, self.ended = list(items), 0, False, 0
        self.it = self._gen(boom)
    def _gen(self, boom):
        for x in self.items:
            self.read += 1
            yield x
        if boom:
            self.boomed = True
            raise Boom()
        self.ended += 1

def d_uniq(xs, key):
    out = []
    for n, x in enumerate(xs):
        if n == 0 or key(x) != key(xs[n - 1]):
            out.append((x, n))
    return out
def d_uniqify(xs, key):
    out, seen = [], []
    for n, x in enumerate(xs):
        if key(x) not in seen:
            seen.append(key(x))
            out.append((x, n))
    return out
def d_powerset(xs):
    """Subsets by increasing last item, in the documented order."""
    out = []
    for x in xs:
        t = [c + (x,) for c in out]
        out = out + [(x,)] + t
    return out
def d_within(tol, xs):
    out = []
    for k, x in enumerate(xs):
        out.append(x)
        if k and abs(xs[k - 1] - x) <= tol:
            break
    return out
mod2 = lambda x: x % 2 if type(x) is int else (None if not x and type(x) is not str else 0)
# what the abstract items 0, 1, 2 stand for: numbers; pairwise different false values; equal but distinguishable values
ALPHA = {"num": (0, 1, 2), "false": (None, "", ()), "equal": (1, True, 1.0)}
def ident_eq(a, b):
    """Same items (by identity), in the same structure."""
    if type(a) in (list, tuple) and type(a) is type(b) and len(a) == len(b) and (a or b):
        return all(ident_eq(x, y) for x, y in zip(a, b))
    return a is b or (a == b and type(a) is type(b) and type(a) in (list, tuple))
ident = lambda x: x

# Each entry: name -> (params(tier, n), call(param, iterator), definition(param, list), reads(param, k, list) = max items read after k outputs)
def by_pos(d):
    """Reads for utilities whose k-th output is decided by reading the item at a known position."""
    def reads(p, k, xs):
        o = d(p, xs)
        return 0 if k == 0 else o[k - 1][1] + 1
    return reads
def slices():
    for a in (None, 0, 1, 2, 4, -1, -2, -3, -6):
        for b in (None, 0, 1, 3, 5, -1, -2, -5):
            for c in (None, 1, 2, 3):
                yield [a, b, c]
def sl_reads(p, k, xs):
    a, b, c = p
    if (a is not None and a < 0):
        return len(xs)
    if b is not None and b < 0:
        return len(xs) if k == 0 and False else min(len(xs), (a or 0) + (max(k, 1) - 1) * (c or 1) + 1 + (-b)) if k else 0
    return 0 if k == 0 else (a or 0) + (k - 1) * (c or 1) + 1

N = range(0, 6)
U = {
    "take": (lambda: N, lambda p, it: take(p, it), lambda p, xs: xs[:p], lambda p, k, xs: k),
    "drop": (lambda: N, lambda p, it: drop(p, it), lambda p, xs: xs[p:], lambda p, k, xs: p + k),
    "dropall": (lambda: [None], lambda p, it: drop(None, it), lambda p, xs: [], lambda p, k, xs: len(xs)),
    "tail": (lambda: [0], lambda p, it: tail(it), lambda p, xs: xs[1:], lambda p, k, xs: 1 + k),
    "butlast": (lambda: [0], lambda p, it: butlast(it), lambda p, xs: xs[:-1], lambda p, k, xs: 0 if k == 0 else k + 1),
    "butlastn": (lambda: N, lambda p, it: butlastn(p, it), lambda p, xs: xs[:len(xs) - p] if p <= len(xs) else [], lambda p, k, xs: 0 if k == 0 else k + p),
    "lastn": (lambda: N, lambda p, it: lastn(p, it), lambda p, xs: xs[-p:] if p else [], lambda p, k, xs: len(xs)),
    "scons": (lambda: ["h", None], lambda p, it: scons(p, it), lambda p, xs: [p] + xs, lambda p, k, xs: max(0, k - 1)),
    "pad": (lambda: N, lambda p, it: pad(p, "F", it), lambda p, xs: xs + ["F"] * (p - len(xs)), lambda p, k, xs: k),
    "uniqify": (lambda: [0], lambda p, it: uniqify(it), lambda p, xs: [x for x, _ in d_uniqify(xs, ident)], by_pos(lambda p, xs: d_uniqify(xs, ident))),
    "uniqify_key": (lambda: [0], lambda p, it: uniqify(it, key=mod2), lambda p, xs: [x for x, _ in d_uniqify(xs, mod2)], by_pos(lambda p, xs: d_uniqify(xs, mod2))),
    "uniq": (lambda: [0], lambda p, it: uniq(it), lambda p, xs: [x for x, _ in d_uniq(xs, ident)], by_pos(lambda p, xs: d_uniq(xs, ident))),
    "uniq_key": (lambda: [0], lambda p, it: uniq(it, key=mod2), lambda p, xs: [x for x, _ in d_uniq(xs, mod2)], by_pos(lambda p, xs: d_uniq(xs, mod2))),
    "window": (lambda: (2, 3, 4), lambda p, it: window(p, it), lambda p, xs: list(zip(*(xs[j:] for j in range(p)))), lambda p, k, xs: p + max(0, k - 1)),
    "chunked": (lambda: (2, 3, 4), lambda p, it: (tuple(c) for c in chunked(p, it)), lambda p, xs: [tuple(xs[j:j + p]) for j in range(0, len(xs), p)], lambda p, k, xs: p * k),
    "within": (lambda: (0, 1), lambda p, it: within(p, it), d_within, lambda p, k, xs: k + 1),
    "powerset": (lambda: [0], lambda p, it: powerset(it), lambda p, xs: d_powerset(xs), lambda p, k, xs: k.bit_length()),
    "islice": (lambda: list(slices()), lambda p, it: islice(it)[slice(*p)], lambda p, xs: xs[slice(*p)], sl_reads),
    "interleave1": (lambda: [0], lambda p, it: interleave(it), lambda p, xs: list(xs), lambda p, k, xs: k),
    "counting": (lambda: [0], lambda p, it: CountingIterator(it), lambda p, xs: list(xs), lambda p, k, xs: k),
}

def it_gen(tier):
    m = 5 if tier == "quick" else 7
    for name in U:
        for n in range(m + 1):
            for xs in itertools.product(range(3) if n <= 5 else range(2), repeat=n):
                for mode in ALPHA:
                    if mode == "num" or name != "within" and not (name == "islice" and n > 3):
                        yield [name, list(xs), mode]
        # long inputs, beyond any small buffer
        if name not in ("within", "powerset"):
            for n in (17, 40):
                for mode in ALPHA:
                    yield [name, [k * k % 3 for k in range(n)], mode]
                yield [name, list(range(n)), "long"]

def it_run(case):
    name, xs, mode = case
    params, call, define, maxread = U[name]
    xs = [ALPHA[mode][x] for x in xs] if mode in ALPHA else xs
    ps = list(params())
    if ps == list(N) and len(xs) > 10:
        ps += [9, 16, 17, 18, 33, 39, 40, 41]
    if name in ("window", "chunked") and len(xs) > 10:
        ps += [9, 16, 17, 18]
    if name == "islice" and len(xs) > 10:
        ps += [[a, b, c] for a in (None, 16, -18, -35) for b in (None, 30, -17) for c in (None, 7)]
    for p in ps:
        want = define(p, xs)
        w = lambda: f"{name}({p}) over {xs}"
        # full output, reads after every output
        s = Src(xs)
        g = call(p, s.it)
        mc.check(iter(g) is g or name in ("x",), lambda: f"{w()}: not an iterator")
        mc.check(s.read <= maxread(p, 0, xs), lambda: f"{w()}: {s.read} items read before any was requested")
        got = []
        for k in range(1, len(want) + 2):
            try:
                got.append(next(g))
            except StopIteration:
                break
            lim = maxread(p, k, xs)
            mc.check(s.read <= lim, lambda: f"{w()}: {s.read} items read after {k} outputs, {lim} suffice")
        mc.check(ident_eq(got, want), lambda: f"{w()}: {got}, expected {want}")
        mc.check(mc.outcome(lambda: next(g, "END")) == ("ok", "END"), lambda: f"{w()}: does not stay exhausted")
        if name == "take":
            mc.check(ident_eq(list(s.it), xs[p:]), lambda: f"{w()}: take consumed too much")
        if name == "within" and len(want) < len(xs):
            mc.check(s.read <= len(want), lambda: f"{w()}: the rest of the input was read")
        if name == "islice" and p[1] is not None and p[1] >= 0 and (p[0] is None or p[0] >= 0):
            mc.check(s.read <= max(p[1], p[0] or 0), lambda: f"{w()}: read beyond the slice")
        # all prefixes: stop requesting after k outputs, the iterator can be dropped
        # non-iterator input
        mc.check(ident_eq(list(call(p, list(xs))), want) and ident_eq(list(call(p, tuple(xs))), want), lambda: f"{w()}: given a sequence")
        # erroring source: the error reaches the consumer, outputs before it are a prefix
        s = Src(xs, boom=True)
        got, res = [], None
        try:
            g = call(p, s.it)
            while True:
                got.append(next(g))
                if len(got) > len(want) + 8:
                    break
        except Boom:
            res = "Boom"
        except StopIteration:
            res = "end"
        mc.check(res == ("Boom" if s.boomed else "end"), lambda: f"{w()} with an error at the end of the input: {res} after {got}")
        mc.check(got == want[:len(got)], lambda: f"{w()} with an erroring source: {got}")
        if res == "Boom" and name not in ("lastn", "dropall", "islice", "butlast", "butlastn", "window", "drop", "tail", "chunked", "pad"):
            mc.check(got == want, lambda: f"{w()} with an erroring source: items lost: {got}")
        mc.step(len(want) + 3)
    mc.state(case)

# ---- one-shot queries: value and what remains of the source
def q_gen(tier):
    m = 4 if tier == "quick" else 6
    for xs in mc.seqs(range(3), m):
        for mode in ALPHA:
            yield [list(xs), mode]

def q_run(case):
    xs, mode = case
    mc.state(case)
    al = ALPHA[mode] + ((3,) if mode == "num" else ("absent",))
    xs = [al[x] for x in xs]
    n = len(xs)
    def q(what, f, want, rest):
        s = Src(xs)
        got = mc.outcome(f, s.it)
        if want[0] == "ok":
            mc.check(got == want and type(got[1]) is type(want[1]), lambda: f"{what} over {xs}: {got}, expected {want}")
        else:
            mc.check(got == want, lambda: f"{what} over {xs}: {got}, expected {want}")
        mc.check(s.read <= rest, lambda: f"{what} over {xs}: read {s.read} items, {rest} suffice")
        if got[0] == "ok" and s.read < n:
            r = s.read
            mc.check(list(s.it) == xs[r:], "source intact")
        mc.step()
    D = "D"
    for k in range(n + 2):
        q(f"nth({k})", lambda it: nth(k, it, default=D), ("ok", xs[k] if k < n else D), min(n, k + 1))
        q(f"nth({k})", lambda it: nth(k, it), ("ok", xs[k] if k < n else None), min(n, k + 1))
        q(f"islice[{k}]", lambda it: islice(it)[k], ("ok", xs[k] if k < n else None), min(n, k + 1))
        q(f"islice[{-k - 1}]", lambda it: islice(it)[-k - 1], ("ok", xs[-k - 1] if k + 1 <= n else None), n)
    q("first", lambda it: first(it, default=D), ("ok", xs[0] if n else D), min(1, n))
    q("second", lambda it: second(it, default=D), ("ok", xs[1] if n > 1 else D), min(2, n))
    q("last", lambda it: last(it, default=D), ("ok", xs[-1] if n else D), n)
    q("first", lambda it: first(it), ("ok", xs[0] if n else None), min(1, n))
    q("last", lambda it: last(it), ("ok", xs[-1] if n else None), n)
    d = next((j for j, x in enumerate(xs) if x != xs[0]), None)
    q("allsame", allsame, ("ok", d is None), n if d is None else d + 1)
    for x in al:
        j = xs.index(x) if x in xs else None
        q(f"iindex({x})", lambda it: iindex(x, it), ("ok", j) if j is not None else ("exc", "ValueError"), n if j is None else j + 1)
        q(f"find({x})", lambda it: find(lambda e: e == x, it, default=D), ("ok", xs[j] if j is not None else D), n if j is None else j + 1)
        q(f"find({x})", lambda it: find(lambda e: e == x, it), ("ok", xs[j] if j is not None else None), n if j is None else j + 1)
        # monotone inputs for inn: increasing, then decreasing
        for ys, sign in ((sorted(xs), 1), (sorted(xs, reverse=True), -1)) if mode == "num" else ():
            ys = list(itertools.chain(ys, (sign * k * 10 + (ys[-1] if ys else 0) for k in range(1, 4))))
            for conv in (ident, lambda v: chr(v + 1000), lambda v: (v,)):
                s = Src([conv(y) for y in ys])
                got = inn(conv(x), s.it)
                mc.check(got is (x in ys), lambda: f"inn({x}) over {ys}: {got}")
                beyond = next((j for j, y in enumerate(ys) if sign * y > sign * x), len(ys) - 1)
                e0 = next(j for j, y in enumerate(ys) if y != ys[0])
                mc.check(s.read <= max(beyond, e0 + 1) + 1, lambda: f"inn({x}) over {ys}: read {s.read} items")
            mc.step(3)
    for part in ([], [0], [1, 2], [2, 2], [0, 3]):
        for mk in (list, set, tuple):
            mc.check(subset(mk(part), mk(xs)) is (set(part) <= set(xs)), lambda: f"subset({part}, {xs})")
    # unpack: all n, k
    for a in range(0, 5):
        for k in [None] + list(range(0, 6)):
            for fv in ({}, {"fillvalue": "F"}):
                s = Src(xs)
                *got, tl = unpack(a, s.it, k=k, **fv)
                kk = a if k is None else k
                want = (xs + [fv.get("fillvalue")] * a)[:a]
                mc.check(ident_eq(got, want), lambda: f"unpack({a}, {xs}, k={k}): {got}")
                mc.check(s.read <= max(a, kk), lambda: f"unpack({a}, {xs}, k={k}): read {s.read}")
                wt = xs[kk:] if a <= n else []
                gt = list(tl)
                mc.check(gt == wt, lambda: f"unpack({a}, {xs}, k={k}): tail {gt}, expected {wt}")
                mc.step()
    # validation
    for f in (lambda k: take(k, xs), lambda k: drop(k, xs), lambda k: split_at(k, xs), lambda k: nth(k, xs), lambda k: unpack(k, xs), lambda k: unpack(1, xs, k=k)):
        mc.check(mc.outcome(f, -1) == ("exc", "ValueError") and mc.outcome(f, 1.5) == ("exc", "TypeError"), "argument validation")
    for f in (window, chunked):
        for k in (1, 0, -1):
            mc.check(mc.outcome(f, k, xs) == ("exc", "ValueError"), "window/chunk size validation")

# ---- two consumers of one source: all interleavings
def sp_gen(tier):
    m = 4 if tier == "quick" else 5
    for op in ("split_at", "partition", "unpack"):
        for n in range(m + 1):
            for xs in itertools.product(range(2), repeat=n) if op == "partition" else [tuple(range(10, 10 + n))]:
                for sched in itertools.product((0, 1), repeat=n + 2):
                    yield [op, list(xs), list(sched)]

def sp_run(case):
    op, xs, sched = case
    n = len(xs)
    pars = range(n + 2) if op == "split_at" else [0] if op == "partition" else [(a, k) for a in range(n + 1) for k in range(a)]
    for p in pars:
        s = Src(xs)
        if op == "split_at":
            its = split_at(p, s.it)
            wants = (xs[:p], xs[p:])
            base = p
            need = lambda c: max([c[0], p + c[1]])
        elif op == "partition":
            calls = []
            xs = [(None, (), 0, "")[j % 4] if not x else ("t", [1], 2, {3})[j % 4] for j, x in enumerate(xs)]
            s = Src(xs)
            its = partition(lambda x: (calls.append(x), x)[1], s.it)
            wants = ([x for x in xs if not x], [x for x in xs if x])
            def need(c):
                r = 0
                for which in (0, 1):
                    idx = [j for j, x in enumerate(xs) if bool(x) == bool(which)]
                    if c[which] > len(idx): r = n
                    elif c[which]: r = max(r, idx[c[which] - 1] + 1)
                return r
        else:
            a, k = p
            *head, tl = unpack(a, s.it, k=k)
            its = (iter(head), tl)
            wants = (xs[:a], xs[k:])
            need = lambda c: max(a, k + c[1])
        its = [iter(i) for i in its]
        c = [0, 0]
        for who in sched:
            got = next(its[who], "END")
            want = wants[who][c[who]] if c[who] < len(wants[who]) else "END"
            mc.check(got == want, lambda: f"{op}({p}) over {xs}, schedule {sched}: iterator {who} gave {got}, expected {want}")
            c[who] += 1
            mc.check(s.read <= need(c), lambda: f"{op}({p}) over {xs}: read {s.read} items, {need(c)} suffice")
            mc.step()
        for who in (0, 1):
            mc.check(list(its[who]) == wants[who][c[who]:], lambda: f"{op}({p}) over {xs}, schedule {sched}: rest of iterator {who}")
    mc.state(case)

# ---- chunked: partial consumption of chunks, interleave of several inputs
def mx_gen(tier):
    m = 4 if tier == "quick" else 5
    for n in range(2, 4):
        for ln in range(0, 2 * m):
            for pattern in mc.seqs(range(0, n + 1), 3, 1):
                yield ["chunked", n, ln, list(pattern)]
    for k in range(0, 4):
        for lens in itertools.product(range(m), repeat=k):
            yield ["interleave", k, 0, list(lens)]
    for ln in range(0, 5):
        for ops in mc.seqs("nal", 5):
            yield ["popper", ln, 0, "".join(ops)]

def mx_run(case):
    op, n, ln, pat = case
    mc.state(case)
    if op == "chunked":
        xs = list(range(ln)) if ln % 2 else [None, "", 0, ()][:ln] + [None] * (ln - 4)
        s = Src(xs)
        out, used = [], 0
        chunks = chunked(n, s.it)
        for cnt in pat:
            ch = next(chunks, None)
            if ch is None:   # a chunk is an iterator
                mc.check(s.read == ln, "chunks end early")
                break
            got = list(itertools.islice(ch, cnt))
            out += got
            mc.check(s.read <= used + max(1, cnt), lambda: f"chunked({n}) read {s.read} items after taking {out}")
            if cnt:
                mc.check(got == xs[used:used + min(cnt, n)], lambda: f"chunked({n}) over {ln} items, taking {pat}: {got}")
            used = s.read
            mc.step()
    elif op == "interleave":
        ins = [[f"{'abc'[j]}{k}" if j != 1 else None for k in range(m)] for j, m in enumerate(pat)]
        srcs = [Src(i) for i in ins]
        want = []
        if ins:
            done = False
            for r in itertools.count():
                for i in ins:
                    if r >= len(i):
                        done = True
                        break
                    want.append(i[r])
                if done:
                    break
        g = interleave(*[s.it for s in srcs])
        got = []
        for x in itertools.islice(g, 100):
            got.append(x)
            mc.check([s.read for s in srcs] == [(len(got) + len(ins) - 1 - j) // len(ins) for j in range(len(ins))], lambda: f"interleave read {[s.read for s in srcs]} after {got}")
        mc.check(got == want, lambda: f"interleave of {ins}: {got}, expected {want}")
        mc.check(list(interleave(*ins)) == want, "interleave of sequences")
        mc.step(len(got))
    else:
        for mk in (deque, list):
            model = [None, 0, "", (), 4][:n] if mk is list else list(range(n))
            seq = mk(model)
            p = Popper(seq)
            mc.check(iter(p) is p, "Popper is an iterator")
            fresh = itertools.count(100)
            for o in pat:
                if o == "n":
                    got = next(p, "END")
                    want = model.pop(0) if model else "END"
                    mc.check(got == want, lambda: f"Popper after {pat}: {got}, expected {want}")
                elif o == "a":
                    x = next(fresh) if mk is deque else None
                    seq.append(x)
                    model.append(x)
                else:
                    x = next(fresh)
                    seq.insert(0, x)
                    model.insert(0, x)
                mc.check(list(seq) == model, "Popper pops the underlying sequence")
                mc.step()
            ci = CountingIterator(model)
            for k in range(len(model)):
                mc.check(ci.count == k and next(ci) == model[k] and ci.count == k + 1, "CountingIterator")
            mc.check(next(ci, None) is None and ci.count == len(model), "CountingIterator at end")
            q = queue.Queue()
            for x in model: q.put(x)
            mc.check(slurp(q) == model and q.empty() and slurp(q) == [], "slurp")

# ---- flattening: all nested structures up to a size
def nests(size, depth):
    """Sequences of items with total size `size`: 'x' atoms or nested list/tuple."""
    if size == 0:
        yield []
        return
    for rest in nests(size - 1, depth):
        yield ["x"] + rest
    if depth:
        for k in range(size):
            for inner in nests(k, depth - 1):
                for rest in nests(size - 1 - k, depth):
                    for kind in "LT":
                        yield [[kind, inner]] + rest

def fl_gen(tier):
    for size in range(0, 5 if tier == "quick" else 6):
        for s in nests(size, 3):
            yield s

def mat(spec, ctr):
    out = []
    for e in spec:
        if e == "x":
            out.append((f"x{next(ctr)}", None, 0, "", b"ab", {1: 2}, "long")[next(ctr) % 7])
        else:
            inner = mat(e[1], ctr)
            out.append(inner if e[0] == "L" else tuple(inner))
    return out

def d_flat(xs, pred):
    out = []
    for e in xs:
        if isinstance(e, (list, tuple)) and pred(e): out += d_flat(e, pred)
        else: out.append(e)
    return out
def d_flat1(xs, pred):
    out = []
    for e in xs:
        if isinstance(e, (list, tuple)) and pred(e): out += list(e)
        else: out.append(e)
    return out
def d_flatin(xs, pred):
    out = []
    for e in xs:
        if isinstance(e, (list, tuple)):
            if pred(e): out += d_flatin(e, pred)
            else: out.append(type(e)(d_flatin(e, pred)))
        else: out.append(e)
    return out

PREDS = {"all": lambda e: True, "none": lambda e: False, "list": lambda e: isinstance(e, list), "nested": lambda e: all(isinstance(x, (list, tuple)) for x in e), "odd": lambda e: len(e) % 2}

def deq(a, b):
    if type(a) is not type(b): return False
    if isinstance(a, (list, tuple)): return len(a) == len(b) and all(deq(x, y) for x, y in zip(a, b))
    return a == b

def fl_run(spec):
    mc.state(spec)
    for name, pred in list(PREDS.items()) + [("default", None)]:
        dp = pred or (lambda e: True)
        for f, d in ((flatten, d_flat), (flatten1, d_flat1), (flatten_in, d_flatin)):
            xs = mat(spec, itertools.count())
            if f is flatten1 and pred is None and not all(isinstance(e, (list, tuple)) for e in xs):
                continue   # without a predicate, flatten1 is documented as the itertools recipe
            want = d(xs, dp)
            s = Src(xs)
            g = f(s.it, pred) if pred else f(s.it)
            mc.check(s.read == 0, "flatten is lazy")
            got = []
            for e in g:
                got.append(e)
            mc.check(deq(got, want), lambda: f"{f.__name__} ({name}) of {xs}: {got}, expected {want}")
            mc.check(deq(xs, mat(spec, itertools.count())), "input modified")
            # laziness over the top level
            s = Src(xs)
            g = f(s.it, pred) if pred else f(s.it)
            for k in range(1, len(want) + 1):
                next(g)
                tot = 0
                for j, e in enumerate(xs):
                    tot += len(d([e], dp))
                    if tot >= k:
                        break
                mc.check(s.read <= j + 1, lambda: f"{f.__name__} ({name}) of {xs}: read {s.read} items for {k} outputs")
            mc.step(len(want) + 1)

# ---- iterate
def ir_gen(tier):
    for table in itertools.product(range(3), repeat=3):
        yield list(table)
def ir_run(table):
    ST = [0, None, "s"]
    for start in range(3):
        calls = []
        def f(x):
            calls.append(x)
            return ST[table[ST.index(x)]]
        want, s = [], start
        for _ in range(6):
            want.append(ST[s])
            s = table[s]
        g = iterate1(f, ST[start])
        for k in range(6):
            got = next(g)
            mc.check(got == want[k] and len(calls) == k, lambda: f"iterate1: {got} at {k}")
        def f2(x, y): return Values(y, ST[table[ST.index(x)]])
        def f3(x, *, y): return Values(y, y=ST[table[ST.index(x)]])
        a, b = ST[start], ST[0]
        for g, kw in ((iterate(f2, a, b), False), (iterate(f3, a, y=b), True)):
            x, y = a, b
            for k in range(6):
                got = next(g)
                mc.check(isinstance(got, Values) and got == (Values(x, y=y) if kw else Values(x, y)), lambda: f"iterate: {got!r} at {k}")
                x, y = y, ST[table[ST.index(x)]]
                mc.step()
        g = iterate(lambda *_: 1, 1)
        next(g)
        mc.check(mc.outcome(lambda: next(g)) == ("exc", "TypeError"), "iterate requires Values")
    mc.state(table)

SPACES = [
    mc.Space("utilities", it_gen, it_run, "20 lazy utilities x all inputs of length up to 5 (thorough 7) over 3 items (numbers; false values; equal but distinguishable values) and length 17, 40 x all parameters: output, reads after every output, erroring source"),
    mc.Space("queries", q_gen, q_run, "one-shot utilities x all inputs of length up to 4 (6) x parameters: value, reads, rest of the source"),
    mc.Space("splits", sp_gen, sp_run, "split_at, partition, unpack: all interleavings of advances of the two resulting iterators"),
    mc.Space("mixed", mx_gen, mx_run, "partially consumed chunks, interleave of up to 3 inputs, pop-while iteration under all mutation histories"),
    mc.Space("flatten", fl_gen, fl_run, "all nested list/tuple structures of size up to 4 (5) x predicates"),
    mc.Space("iterate", ir_gen, ir_run, "all transition functions on 3 states"),
]
