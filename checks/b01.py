"""B01: environments under all operation histories; let/letrec/dlet/blet/do/begin programs vs. a reference evaluator."""
from lib import mc
import collections.abc, itertools, pickle
from unpythonic.env import env
from unpythonic.assignonce import assignonce
from unpythonic import (let, letrec, dlet, dletrec, blet, bletrec,
                        ordered_let, ordered_letrec, ordered_dlet, ordered_dletrec, ordered_blet, ordered_bletrec,
                        begin, begin0, lazy_begin, lazy_begin0, do, do0, assign, call)

RESERVED = ("set", "_set", "clear", "finalize", "items", "keys", "values", "get", "pop", "popitem", "update", "setdefault")

# ---------------------------------------------------------------- environments
class Model:
    """Insertion-ordered name set, finalization, optional assign-once rule."""
    def __init__(self, once):
        self.d, self.final, self.once = {}, False, once
    def bind(self, k, v, re=False):
        if k in RESERVED:
            raise AttributeError
        if self.once and not re and k in self.d:
            raise AttributeError
        if self.final and k not in self.d:
            raise AttributeError
        if not k.isidentifier():
            raise ValueError
        self.d[k] = v
    def apply(self, op):
        o, *a = op
        d = self.d
        if o in ("setattr", "setitem"): self.bind(*a)
        elif o == "set" or o == "lsh":
            if a[0] not in d: raise AttributeError
            self.bind(a[0], a[1], True)
            return a[1] if o == "set" else "self"
        elif o in ("delattr", "delitem"):
            if not a[0].isidentifier(): raise ValueError
            if self.final: raise TypeError
            if a[0] not in d: raise AttributeError
            del d[a[0]]
        elif o == "pop":
            if self.final: raise TypeError
            return d.pop(*a)
        elif o == "popitem":
            if self.final: raise TypeError
            return d.popitem()
        elif o == "clear":
            if self.final: raise TypeError
            d.clear()
        elif o in ("updmap", "updpairs", "updkw"):
            if self.final and any(k not in d for k, v in a[0]): raise AttributeError
            for k, v in dict(map(tuple, a[0])).items(): self.bind(k, v)
        elif o == "setdefault":
            if a[0] not in d:
                self.bind(a[0], a[1] if len(a) > 1 else None)
            return d[a[0]]
        elif o == "finalize": self.final = True
        elif o in ("with", "withexc"): d.clear()
        else: raise RuntimeError(o)

def apply(e, op):
    o, *a = op
    if o == "setattr": setattr(e, *a)
    elif o == "setitem": e[a[0]] = a[1]
    elif o == "set": return e.set(*a)
    elif o == "lsh":
        r = e << (a[0], a[1])
        return "self" if r is e else r
    elif o == "delattr": delattr(e, a[0])
    elif o == "delitem": del e[a[0]]
    elif o == "pop": return e.pop(*a)
    elif o == "popitem": return e.popitem()
    elif o == "clear": e.clear()
    elif o == "updmap": e.update(dict(map(tuple, a[0])))
    elif o == "updpairs": e.update([tuple(x) for x in a[0]])
    elif o == "updkw": e.update(**dict(map(tuple, a[0])))
    elif o == "setdefault": return e.setdefault(*a)
    elif o == "finalize": e.finalize()
    elif o == "with":
        with e as f:
            mc.check(f is e, "with env as e: e is another object")
    elif o == "withexc":
        try:
            with e:
                raise KeyboardInterrupt
        except KeyboardInterrupt:
            return None
        raise mc.Violation("with env swallowed an exception")

def observe(e, m):
    d = m.d
    mc.check(list(e) == list(d) and list(e.keys()) == list(d) and list(e.values()) == list(d.values()) and list(e.items()) == list(d.items()) and len(e) == len(d),
             lambda: f"bindings {list(e.items())}, expected {list(d.items())}")
    for k in ("x", "y", "z", "no-id"):
        mc.eq(k in e, k in d, f"{k} in env")
        mc.eq(e.get(k), d.get(k), f"get {k}")
        mc.eq(e.get(k, 9), d.get(k, 9), f"get {k} default")
        want = ("ok", d[k]) if k in d else ("exc", "AttributeError" if k.isidentifier() else "ValueError")
        mc.eq(mc.outcome(getattr, e, k), want, f"env.{k}")
        mc.eq(mc.outcome(lambda: e[k]), want, f"env[{k}]")
    mc.check(e == d and not e != d and d == e, "env == dict")
    mc.check(not (e == {**d, "q": 1}) and e != {**d, "q": 1}, "env equals a different dict")
    f = type(e)(**d)
    mc.check(e == f and f == e and not e != f, "env == env")
    mc.check(bool(e) == bool(d), "truth value")

def ops(full):
    out = [("setattr", "x"), ("setitem", "x"), ("setattr", "y"), ("set", "x"), ("set", "y"), ("lsh", "x"), ("lsh", "z")]
    out = [list(o) + ["V"] for o in out]
    out += [["delattr", "x"], ["delitem", "y"], ["pop", "x"], ["pop", "y", 7], ["popitem"], ["clear"], ["setdefault", "x", "V"], ["setdefault", "y"],
            ["updmap", [["x", "V"], ["z", "V"]]], ["updpairs", [["y", "V"]]], ["updkw", [["x", "V"], ["y", "V"]]],
            ["finalize"], ["with"]]
    if full:
        out += [["setitem", "no-id", "V"], ["setdefault", "no-id", "V"], ["updmap", [["x", "V"], ["no-id", "V"]]], ["updpairs", [["x", "V"], ["x", "W"]]], ["updmap", []], ["withexc"],
                ["delitem", "no-id"], ["setattr", "set", "V"], ["setitem", "items", "V"], ["updkw", [["get", "V"]]], ["setdefault", "pop", "V"], ["set", "finalize", "V"], ["setattr", "_x", "V"]]
    return out

def env_gen(tier):
    yield ["misc"]
    n, m = (3, 4) if tier == "quick" else (4, 5)
    F, B = ops(True), ops(False)
    for cls in ("env", "once"):
        for k in range(len(F)):
            yield [cls, "full", 3 if tier == "quick" else 4, [k]]
        for k in range(len(B)):
            for j in range(len(B)):
                yield [cls, "base", 4 if tier == "quick" else 5, [k, j]]

def subst(op, i):
    def f(x):
        if x == "V": return 10 * i
        if x == "W": return 10 * i + 1
        return [f(y) for y in x] if isinstance(x, list) else x
    return [op[0]] + [f(x) for x in op[1:]]

def env_run(case):
    if case[0] == "misc":
        return misc()
    cls, alpha, depth, prefix = case
    A = ops(alpha == "full")
    # depth-first over all histories; the real object is rebuilt by replaying the history
    def go(hist):
        e = (env if cls == "env" else assignonce)()
        m = Model(cls == "once")
        last = None
        for i, k in enumerate(hist):
            op = subst(A[k], i + 1)
            want = mc.outcome(m.apply, op)
            got = mc.outcome(apply, e, op)
            if i == len(hist) - 1:
                h = [subst(A[j], n + 1) for n, j in enumerate(hist)]
                mc.check(got == want, lambda: f"{cls}: after {h[:-1]}, {op}: {got}, expected {want}")
                last = h
        mc.step()
        try:
            observe(e, m)
        except mc.Violation as ex:
            raise mc.Violation(f"{cls}: after {last}: {ex}")
        mc.state((cls, alpha, tuple(m.d), m.final, len(hist)))
        if len(hist) >= depth:
            mc.trace()
            return
        for k in range(len(A)):
            go(hist + [k])
    go(list(prefix))

def misc():
    for cls in (env, assignonce):
        for n in RESERVED:
            for f in (lambda: cls(**{n: 1}), lambda: setattr(cls(), n, 1)):
                mc.eq(mc.outcome(f), ("exc", "AttributeError"), f"{cls.__name__}: reserved name {n}")
        for n in ("self", "cls", "name", "value", "k", "mapping", "bindings", "kwargs", "body", "mode", "other", "env"):
            e = cls(**{n: 1})
            mc.check(e[n] == 1 and list(e) == [n], f"binding named {n}")
            f = cls()
            f.update(**{n: 2})
            mc.check(f[n] == 2, f"update binding named {n}")
        e = cls(b=1, a=2)
        mc.check(list(e.items()) == [("b", 1), ("a", 2)], "initial bindings keep their order")
        for abc in (collections.abc.Container, collections.abc.Sized, collections.abc.Iterable, collections.abc.Mapping, collections.abc.MutableMapping):
            mc.check(isinstance(e, abc), f"{cls.__name__} is not a {abc.__name__}")
        mc.check(dict(e) == {"b": 1, "a": 2} and dict(**e) == {"b": 1, "a": 2}, "env as mapping")
        g = pickle.loads(pickle.dumps(e))
        mc.check(type(g) is cls and g == e and g is not e, "pickle round trip")
        e.finalize()
        g = pickle.loads(pickle.dumps(e))
        mc.eq(mc.outcome(setattr, g, "c", 1), ("exc", "AttributeError"), "finalization survives pickle")
        mc.eq(mc.outcome(e.update, {}, {}), ("exc", "ValueError"), "two mappings")
    # bindings of different environments are independent
    a, b = env(x=1), env(x=2)
    a.x = 3
    mc.check(b.x == 2 and a.x == 3, "environments share bindings")
    mc.state("misc")

# ---------------------------------------------------------------- let programs
# expr: ["c", v] | ["ref", depth, name] | ["set", depth, name, expr] | ["thunk", expr] | ["call", expr] | ["tup", *exprs] | ["L", tag, expr]
#       | ["let", mode, form, [[name, init]...], body]      depth 0 = innermost environment
# init: expr | ["rec", expr]   (rec: expression in the environment being built: callable taking the env)
def src(x, n):
    """Python source of expression x inside n environments e0..e{n-1}."""
    t = x[0]
    if t == "c": return repr(x[1])
    if t == "ref": return f"e{n - 1 - x[1]}.{x[2]}"
    if t == "set": return f"e{n - 1 - x[1]}.set({x[2]!r}, {src(x[3], n)})"
    if t == "lsh": return f"(e{n - 1 - x[1]} << ({x[2]!r}, {src(x[3], n)})).{x[2]}"
    if t == "thunk": return f"(lambda *_: {src(x[1], n)})" if len(x) < 3 else f"(lambda: {src(x[1], n)})"
    if t == "call": return f"{src(x[1], n)}()"
    if t == "tup": return "(" + "".join(src(y, n) + ", " for y in x[1:]) + ")"
    if t == "L": return f"LOG({x[1]!r}, {src(x[2], n)})"
    if t == "let":
        _, mode, form, bs, body = x
        items = [(k, f"(lambda e{n}: {src(i[1], n + 1)})" if i[0] == "rec" else src(i, n)) for k, i in bs]
        b = f"(lambda e{n}: {src(body, n + 1)})"
        if form == "kw":
            return f"{mode}({''.join(f'{k}={v}, ' for k, v in items)}body={b})"
        return f"ordered_{mode}(({''.join(f'({k!r}, {v}), ' for k, v in items)}), {b})"
    raise RuntimeError(x)

class Fn:
    def __init__(self, f, arity1): self.f, self.arity1 = f, arity1
    def __eq__(self, o): return True
class Err(Exception): pass

def ev(x, envs, log):
    t = x[0]
    if t == "c": return x[1]
    if t == "ref":
        d = envs[-1 - x[1]]
        if x[2] not in d: raise Err("AttributeError")
        return d[x[2]]
    if t in ("set", "lsh"):
        v = ev(x[3], envs, log)
        d = envs[-1 - x[1]]
        if x[2] not in d: raise Err("AttributeError")
        d[x[2]] = v
        return v
    if t == "thunk":
        return Fn(lambda: ev(x[1], envs, log), len(x) < 3)
    if t == "call":
        f = ev(x[1], envs, log)
        if not isinstance(f, Fn): raise Err("TypeError")
        return f.f()
    if t == "tup": return tuple(ev(y, envs, log) for y in x[1:])
    if t == "L":
        v = ev(x[2], envs, log)
        log.append(x[1])
        return v
    if t == "let":
        _, mode, form, bs, body = x
        # all initializer expressions are evaluated by Python before the call; functions of the environment run during it
        inits = [(k, ("rec", i[1]) if i[0] == "rec" else ("val", ev(i, envs, log))) for k, i in bs]
        d = {}
        for k, (kind, v) in inits:
            if k in d: raise Err("AttributeError")
            if kind == "rec" and mode == "letrec":
                v = ev(v, envs + [d], log)
            elif kind == "rec":
                v = Fn(needs_env, True)   # let does not call it
            elif mode == "letrec" and isinstance(v, Fn):
                if not v.arity1: raise Err("TypeError")
                v = v.f()
            d[k] = v
        return ev(body, envs + [d], log)
    raise RuntimeError(x)

def needs_env():
    raise Err("TypeError")

def norm(v):
    if isinstance(v, tuple): return tuple(map(norm, v))
    return "fn" if callable(v) or isinstance(v, Fn) else v

def compare(prog):
    s = src(prog, 0)
    log, rlog = [], []
    def LOG(k, v):
        log.append(k)
        return v
    try:
        want = ("ok", norm(ev(prog, [], rlog)))
    except Err as e:
        want = ("exc", str(e))
    got = mc.outcome(eval, s, {**globals(), "LOG": LOG})
    if got[0] == "ok": got = ("ok", norm(got[1]))
    mc.step(len(log) + 1)
    mc.check(got == want, lambda: f"{s}: {got}, expected {want}")
    mc.check(log == rlog, lambda: f"{s}: evaluation order {log}, expected {rlog}")
    mc.state((want, tuple(log)))

def inits(mode, depth, tag, names):
    """Initializer alphabet; depth = number of environments outside."""
    out = [["L", tag, ["c", tag]], ["c", None], ["thunk", ["c", tag]], ["thunk", ["c", tag], 0]]
    for k in range(depth):
        for n in names:
            out.append(["L", tag, ["ref", k, n]])
    if depth:
        out.append(["L", tag, ["set", 0, names[0], ["c", tag]]])
    out.append(["rec", ["L", tag, ["c", tag]]])
    for n in names:
        out.append(["rec", ["L", tag, ["ref", 0, n]]])
        out.append(["rec", ["thunk", ["ref", 0, n]]])
    out.append(["rec", ["set", 0, names[0], ["c", -tag]]])
    if depth:
        out.append(["rec", ["L", tag, ["ref", 1, names[0]]]])
    return out

def prog_gen(tier):
    """Outer environment of fixed shape, inner one enumerated (index ranges; see prog_run)."""
    for mode in ("let", "letrec"):
        for form in ("kw", "ord"):
            yield ["single", mode, form]
            for i in range(len(inits(mode, 1, 5, ["x", "y"]))):
                yield ["nested", mode, form, i]
            if True:
                for i in range(len(inits(mode, 0, 5, ["x", "y"]))):
                    yield ["triple", mode, form, i]

def obs(depth, names):
    """Tuple of expressions reading everything visible that exists."""
    return [["ref", k, n] for k in range(depth) for n in names[k]]

def prog_run(case):
    kind, mode, form, *rest = case
    N = ["x", "y"]
    if kind == "single":
        for nb in range(0, 4):
            names = ["x", "y", "z"][:nb]
            A = [inits(mode, 0, 10 * (i + 1), N) for i in range(nb)]
            orders = [names] if form == "kw" and nb < 2 else list(itertools.permutations(names))
            if form == "ord" and nb == 2: orders.append(["x", "x"])
            if nb == 3: orders = orders[:1]
            for order in orders:
                for sel in itertools.product(*A):
                    bs = [list(b) for b in zip(order, sel)]
                    reads = [["ref", 0, n] for n in dict.fromkeys(order)]
                    for act in [None] + [[o, 0, n, ["c", 99]] for o in ("set", "lsh") for n in (N if nb < 3 else N[:1])]:
                        body = ["tup"] + reads + ([act] + reads if act else [])
                        compare(["let", mode, form, bs, body])
                        if nb < 3:
                            for n in dict.fromkeys(order):   # function values close over the environment, not over its contents
                                compare(["let", mode, form, bs, ["tup", ["call", ["ref", 0, n]]] + ([act] + [["call", ["ref", 0, n]]] if act else [])])
    elif kind == "nested":
        (i,) = rest
        outer = [["x", ["c", 1]], ["y", ["c", 2]]]
        A = inits(mode, 1, 5, N)
        B = inits(mode, 1, 7, N)
        for om in ("let", "letrec"):
            for order in (["x"], ["x", "y"], ["y", "x"], ["z", "x"]):
                for b2 in (B if len(order) > 1 else [None]):
                    bs = [[order[0], A[i]]] + ([[order[1], b2]] if b2 else [])
                    reads = obs(2, [dict.fromkeys(order), N])
                    for act in [None] + [["set", k, n, ["c", 99]] for k in (0, 1) for n in N]:
                        body = ["tup"] + reads + ([act] + reads if act else [])
                        inner = ["let", mode, form, bs, body]
                        after = obs(1, [N])
                        compare(["let", om, form, outer, ["tup", inner] + after])
    else:
        (i,) = rest
        A = [inits(mode, 0, 10 * (k + 1), N) for k in range(3)]
        for a in A[1]:
            for b in A[2]:
                bs = [["x", A[0][i]], ["y", a], ["z", b]]
                reads = [["ref", 0, n] for n in "xyz"]
                for act in [None] + [["set", 0, n, ["c", 99]] for n in "xyz"]:
                    compare(["let", mode, form, bs, ["tup"] + reads + ([act] + reads if act else [])])
                    for n in "xyz":
                        compare(["let", mode, form, bs, ["tup", ["call", ["ref", 0, n]]] + ([act] + [["call", ["ref", 0, n]]] if act else [])])

# ---------------------------------------------------------------- decorator forms
def deco_gen(tier):
    for form in ("kw", "ord"):
        for mode in ("let", "letrec"):
            for b in range(5):
                for nest in ("none", "same", "closure"):
                    yield [form, mode, b, nest, 4 if tier == "quick" else 5]
    yield ["misuse"]

def deco(form, mode, kind, bs):
    table = {"kw": {"dlet": dlet, "dletrec": dletrec, "blet": blet, "bletrec": bletrec},
             "ord": {"dlet": ordered_dlet, "dletrec": ordered_dletrec, "blet": ordered_blet, "bletrec": ordered_bletrec}}
    f = table[form][kind + mode]
    return f(**dict(bs)) if form == "kw" else f(tuple(bs))

FOPS = ["inc_x", "read", "new", "args", "envarg", "inc_y"]

def deco_run(case):
    if case[0] == "misuse":
        return misuse()
    form, mode, b, nest, depth = case
    count = [0]
    def bindings():
        """(real bindings, model initial values)"""
        if b == 0: return [("x", 1)], {"x": 1}
        if b == 1: return [("x", 1), ("y", 2)], {"x": 1, "y": 2}
        if b == 2 and mode == "letrec":
            def init(e):
                count[0] += 1
                return 5
            return [("x", init), ("y", lambda e: e.x + 1)], {"x": 5, "y": 6}
        if b == 3 and mode == "letrec": return [("y", 2), ("x", lambda e: e.y * 10)], {"y": 2, "x": 20}
        return [("mode", 1), ("body", 2), ("x", 3)], {"mode": 1, "body": 2, "x": 3}
    def make():
        def f(*args, env, **kw):
            op = args[0] if args else "read"
            if op == "inc_x": env.x = env.x + 1
            elif op == "inc_y": env.set("y", env.y + 1)
            elif op == "new": env.newname = 1
            return (dict(env.items()), args, kw)
        f.__name__ = "fname"
        return f
    hits = 0
    for seq in itertools.product(FOPS, repeat=depth):
        for two in ((False, True) if depth < 5 else (False,)):
            bs, init = bindings()
            c0 = count[0]
            d = deco(form, mode, "d", bs)
            if nest == "none":
                f = d(make())
                model = dict(init)
            elif nest == "same":      # the inner decorator shadows the outer one entirely: it provides env itself
                f = d(deco(form, mode, "d", [("x", 100)])(make()))
                model = {"x": 100}
            else:
                inner = deco(form, "let", "d", [("x", 100)])(make())
                outer_model = dict(init)
                def wrapper(*args, env, **kw):
                    env.x = env.x + 1
                    return inner(*args, **kw), dict(env.items())
                f = d(wrapper)
                model = {"x": 100}
            if nest == "none": mc.check(f.__name__ == "fname", "decorated function loses its name")
            if b == 2 and mode == "letrec": mc.eq(count[0] - c0, 1, "initializer runs")
            if two:   # a second decoration has its own environment
                g = d(make())
                gm = dict(init)
            for i, op in enumerate(seq):
                args, kw = ((op,), {}) if op != "args" else (("args", 1, 2), {"k": 3})
                if op == "envarg": kw = {"env": None}   # cannot be overridden from outside
                want_exc = None
                before = dict(model)
                if op == "inc_x": model["x"] += 1
                elif op == "inc_y":
                    if "y" in model: model["y"] += 1
                    else: want_exc = "AttributeError"
                elif op == "new": want_exc = "AttributeError"
                if nest == "closure":
                    outer_model["x"] += 1
                got = mc.outcome(f, *args, **kw)
                if op == "envarg": kw = {}
                if nest == "closure": want = ("ok", ((dict(model), args, kw), dict(outer_model)))
                else: want = ("ok", (dict(model), args, kw))
                if want_exc: want = ("exc", want_exc)
                mc.check(got == want, lambda: f"{case} {seq[:i + 1]}: {got}, expected {want}")
                if two:
                    mc.check(g()[0] == gm, lambda: f"{case}: a second function decorated by the same decorator shares state: {g()[0]}, expected {gm}")
                mc.step()
            mc.trace()
            mc.state((case, tuple(model.items())))
    # block forms run once, at once
    for arg in ("value", "raise"):
        log = []
        bs, init = bindings()
        def body(*, env):
            log.append(dict(env.items()))
            env.x = 7
            log.append(env.x)
            if arg == "raise": raise ZeroDivisionError
            return "result"
        got = mc.outcome(lambda: deco(form, mode, "b", bs)(body))
        mc.check(got == (("ok", "result") if arg == "value" else ("exc", "ZeroDivisionError")) and log == [init, 7], lambda: f"{case} block form: {got}, {log}")

def misuse():
    for lt in (lambda b, **k: let(body=b, **k), lambda b, **k: letrec(body=b, **k), lambda b, **k: ordered_let(tuple(k.items()), b), lambda b, **k: ordered_letrec(tuple(k.items()), b)):
        for k in ({}, {"x": 1}):
            for bad in ((lambda: 1), (lambda a, b: 1), 5, "str", [1]):
                mc.eq(mc.outcome(lt, bad, **k), ("exc", "TypeError"), f"body {bad!r} with {k}")
            for good in ((lambda e: len(e)), (lambda *a: len(a[0])), (lambda e, f=3: len(e)), len):
                mc.eq(mc.outcome(lt, good, **k), ("ok", len(k)), f"body with {k}")
            e = lt(lambda e: e, **k)
            mc.check(type(e) is env and dict(e) == k, "environment passed to the body")
            mc.eq(mc.outcome(setattr, e, "n", 1), ("exc", "AttributeError"), "let environments are finalized")
            mc.eq(mc.outcome(e.clear), ("exc", "TypeError"), "let environments are finalized")
        for r in RESERVED:
            mc.eq(mc.outcome(lt, lambda e: 1, **{r: 1}), ("exc", "AttributeError"), f"reserved name {r}")
        for n in ("self", "mode", "env", "bindings", "more", "k", "v", "_envname", "name", "value"):
            mc.eq(mc.outcome(lt, lambda e: e[n], **{n: 4}), ("ok", 4), f"binding named {n}")
    for lr in (lambda **k: letrec(body=lambda e: dict(e.items()), **k), lambda **k: ordered_letrec(tuple(k.items()), lambda e: dict(e.items()))):
        mc.eq(mc.outcome(lr, a=lambda: 1), ("exc", "TypeError"), "letrec value without env parameter")
        mc.eq(mc.outcome(lr, a=lambda x, y: 1), ("exc", "TypeError"), "letrec value with two parameters")
        mc.eq(mc.outcome(lr, a=1, b=lambda e: e.c, c=3), ("exc", "AttributeError"), "forward reference in a value")
        mc.eq(mc.outcome(lambda: lr(a=1, b=lambda e: lambda: e.c, c=3)["b"]()), ("ok", 3), "forward reference in a function")
        # the environment is open for new names only through its own initializers
        mc.eq(mc.outcome(lr, a=lambda e: e.set("b", 1), b=2), ("exc", "AttributeError"), "set of a name not yet bound")
    # mutual recursion for all arguments
    for le in (lambda b: letrec(evenp=lambda e: lambda n: n == 0 or e.oddp(n - 1), oddp=lambda e: lambda n: n != 0 and e.evenp(n - 1), body=b),
               lambda b: ordered_letrec((("evenp", lambda e: lambda n: n == 0 or e.oddp(n - 1)), ("oddp", lambda e: lambda n: n != 0 and e.evenp(n - 1))), b)):
        for n in range(30):
            mc.eq(le(lambda e: (e.evenp(n), e.oddp(n))), (n % 2 == 0, n % 2 == 1), f"mutual recursion at {n}")
    mc.eq(mc.outcome(lambda: ordered_let([["no-id", 1]], lambda e: 1)), ("exc", "ValueError"), "invalid identifier")
    big = tuple((f"v{i}", (lambda e, i=i: e[f"v{i - 1}"] + 1) if i else 0) for i in range(200))
    mc.eq(ordered_letrec(big, lambda e: e.v199), 199, "200 sequential bindings")
    mc.state("misuse")

# ---------------------------------------------------------------- do, begin
DO = [["plain"], ["call"], ["assign", "x", "const"], ["assign", "x", "inc"], ["assign", "y", "const"], ["assign", "y", "refx"], ["ref", "x"], ["ref", "y"], ["setx"], ["none"], ["exc"]]
def do_gen(tier):
    yield ["begin"]
    for k in range(len(DO)):
        for j in range(len(DO)):
            yield [k, j, 5 if tier == "quick" else 6]
def do_item(op, i, log):
    """(real item, model function of dict)"""
    t = op[0]
    if t == "plain": return i, lambda d: i
    if t == "none": return None, lambda d: None
    if t == "exc": return (lambda e: 1 // 0), lambda d: 1 // 0
    if t == "call":
        def f(e):
            log.append(("c", i, tuple(sorted((k, v) for k, v in e.items() if k in "xy"))))
            return i
        return f, lambda d: (d["log"].append(("c", i, tuple(sorted((k, v) for k, v in d.items() if k in "xy")))), i)[1]
    if t == "ref":
        n = op[1]
        def ref(d):
            if n not in d: raise AttributeError
            return d[n]
        return (lambda e: e[n]), ref
    if t == "setx":
        def st(d):
            if "x" not in d: raise AttributeError
            d["x"] = -i
            return -i
        return (lambda e: e.set("x", -i)), st
    n, how = op[1:]
    def put(f):
        def run(d):
            d[n] = f(d)
            return d[n]
        return run
    if how == "const": return assign(**{n: i}), put(lambda d: i)
    def getx(d):
        if "x" not in d: raise AttributeError
        return d["x"]
    if how == "inc": return assign(**{n: lambda e: e.x + 1}), put(lambda d: getx(d) + 1)
    return assign(**{n: lambda e: (e.x, i)}), put(lambda d: (getx(d), i))

def do_run(case):
    if case[0] == "begin":
        return begin_run()
    k, j, depth = case
    def one(seq):
        for which in (do, do0):
            log, d = [], {"log": []}
            items = [do_item(DO[s], n + 1, log) for n, s in enumerate(seq)]
            def model():
                vals = [f(d) for _, f in items]
                if not vals: return None
                return vals[-1] if which is do else vals[0]
            want = mc.outcome(model)
            got = mc.outcome(which, *[r for r, _ in items])
            what = [DO[s] for s in seq]
            mc.check(got == want and log == d["log"], lambda: f"{which.__name__} {what}: {got} {log}, expected {want} {d['log']}")
            mc.step(len(seq))
            mc.state((which.__name__, want, tuple(log)))
            mc.trace()
    if k == j == 0:
        one([])
        for i in range(len(DO)): one([i])
    def go(seq):
        one(seq)
        if len(seq) < depth:
            for i in range(len(DO)): go(seq + [i])
    go([k, j])

def begin_run():
    for n in range(6):
        vals = [object() for _ in range(n)]
        mc.check(begin(*vals) is (vals[-1] if vals else None) and begin0(*vals) is (vals[0] if vals else None), "begin")
        for fail in range(-1, n):
            for f, pick in ((lazy_begin, -1), (lazy_begin0, 0)):
                log = []
                def item(i):
                    def run():
                        log.append(i)
                        if i == fail: raise ZeroDivisionError
                        return vals[i]
                    return run
                got = mc.outcome(f, *[item(i) for i in range(n)])
                want = ("exc", "ZeroDivisionError") if fail >= 0 else ("ok", vals[pick] if vals else None)
                mc.check(got == want and log == list(range(n if fail < 0 else fail + 1)), lambda: f"{f.__name__} of {n}, failing {fail}: {got}, {log}")
                mc.step(n)
    for bad in ({}, {"x": 1, "y": 2}):
        mc.eq(mc.outcome(assign, **bad), ("exc", "ValueError"), f"assign({bad})")
    for d in (do, do0):
        for bad in ((lambda: 1), (lambda a, b: 1)):
            mc.eq(mc.outcome(d, bad), ("exc", "ValueError"), "do item not taking the environment")
            mc.eq(mc.outcome(d, assign(x=bad)), ("exc", "ValueError"), "assigned do item not taking the environment")
    # environments of nested and successive do are independent
    mc.eq(do(assign(x=1), lambda e: do(assign(x=2), assign(y=3)), lambda e: (e.x, "y" in e)), (1, False), "nested do")
    mc.eq(do0(assign(x=1), lambda e: do0(assign(x=2), assign(y=3)), assign(x=lambda e: e.x + 5)), 1, "nested do0")
    mc.eq(mc.outcome(do, assign(set=1)), ("exc", "AttributeError"), "reserved name in do")
    mc.state("begin")

SPACES = [
    mc.Space("env", env_gen, env_run, "all operation histories of env and assignonce up to depth 3 over 33 operations and depth 4 over 20 (thorough: 4 and 5), full observation after every operation", timeout=300),
    mc.Space("programs", prog_gen, prog_run, "all let/letrec programs in both forms: up to 3 bindings over an alphabet of up to 11 initializers, alone and nested, every assignment target, reads of every visible name", timeout=300),
    mc.Space("decorators", deco_gen, deco_run, "dlet/dletrec/blet/bletrec in both forms, 5 binding shapes, 3 nestings, all call sequences of length 4 (thorough: 5) over 6 calls, two decorations", timeout=300),
    mc.Space("do", do_gen, do_run, "all do/do0 sequences of up to 5 (thorough: 6) items over 11 kinds; begin family with a failure at every position", timeout=300),
]
