"""L06: syntactic substitution (let_syntax, abbrev) and implicit attribute reference (autoref).
Programs over a small expression and statement language are substituted by a reference, written from the documented rules, and run as
plain Python; the same programs go through the macros and must do the same."""
from lib import mc, macros
import itertools

HEAD = ("from unpythonic.syntax import macros, let_syntax, abbrev, expr, block, where, let, do, local, dlet, letrec, cond, aif, it, fn, "
        "autoref, autocurry, lazify, namedlambda, tco, multilambda, envify, test\n")

class Boom(Exception): pass

class World:
    def __init__(self): self.log = []
    def norm(self, v):
        if isinstance(v, (tuple, list)): return [type(v).__name__] + [self.norm(x) for x in v]
        if isinstance(v, dict): return ["dict"] + [[self.norm(k), self.norm(x)] for k, x in v.items()]
        if isinstance(v, (int, str, bool, float, type(None))): return v
        return "<function>" if callable(v) else f"<{type(v).__name__}>"
    def given(self):
        def V(k):
            self.log.append(k)
            return k
        def T(*args):
            self.log.append(self.norm(args))
            return args
        class O: x, y, z, w = "Ox", "Oy", "Oz", "Ow"
        return dict(V=V, T=T, KW=lambda **k: k, O=O, Boom=Boom, x="x", y="y", z="z", w="w", a="ga", b="gb")

def attempt(W, f):
    del W.log[:]
    try:
        r = ["ok", W.norm(f())]
    except Exception as e:
        r = ["exc", "NameError" if isinstance(e, NameError) else type(e).__name__]
    return r, list(W.log)

BLOCK = []   # nonempty in block mode, where a let in a statement is not expanded yet when its names are substituted
class Invalid(Exception):
    """a program that the documentation does not allow, or that the reference does not define"""

# ================================================================ the reference: expressions
# n NAME | c CONST | T items | list items | lam PARAM body arg | attr NAME | kw NAME e | use TEMPLATE style args | let NAME val body | ls kind bindings body | add e | do items | comp NAME e e
def emap(e, f):
    """rebuild e with f applied to the subexpressions"""
    t = e[0]
    if t in ("n", "c", "attr"): return e
    if t in ("T", "list", "do"): return [t, [f(x) for x in e[1]]]
    if t == "lam": return [t, e[1], f(e[2]), f(e[3])]
    if t == "kw": return [t, e[1], f(e[2])]
    if t == "use": return [t, e[1], e[2], [f(x) for x in e[3]]]
    if t == "add": return [t, f(e[1])]
    if t == "comp": return [t, e[1], f(e[2]), f(e[3])]
    raise RuntimeError(e)

def names_in(e):
    """all the strings in an expression (an over-approximation of the names it mentions)"""
    if isinstance(e, str): return {e}
    return set().union(*map(names_in, e)) if isinstance(e, (list, tuple)) else set()

def sub_name(e, name, value):
    """replace a bare name; if the value is a bare name too, it is a renaming, affecting everything called that"""
    ren = lambda n: value[1] if n == name and value[0] == "n" else n
    r = lambda x: sub_name(x, name, value)
    t = e[0]
    if t == "n": return value if e[1] == name else e
    if t == "attr": return [t, ren(e[1])]
    if t == "kw": return [t, ren(e[1]), r(e[2])]
    if t == "lam": return [t, ren(e[1]), r(e[2]), r(e[3])]
    if t == "comp":
        if e[1] == name and value[0] != "n": raise Invalid
        return [t, ren(e[1]), r(e[2]), r(e[3])]
    if t == "use":
        if e[1] == name and value[0] != "n": raise Invalid
        return [t, ren(e[1]), e[2], [r(x) for x in e[3]]]
    if t == "let":   # expanded already: the names it binds are out of reach, except by a renaming
        if e[1] == name and (value[0] == "n" or BLOCK): raise Invalid
        if e[1] in names_in(value): raise Invalid   # capture: no hygiene promised either way
        return [t, e[1], r(e[2]), e[3] if e[1] == name else r(e[3])]
    return emap(e, r)

def sub_params(e, params):
    """replace the formal parameters of a template, at once"""
    r = lambda x: sub_params(x, params)
    ren = lambda n: params[n][1] if n in params and params[n][0] == "n" else n
    t = e[0]
    if t == "n": return params.get(e[1], e)
    if t == "attr": return [t, ren(e[1])]
    if t == "kw": return [t, ren(e[1]), r(e[2])]
    if t == "lam": return [t, ren(e[1]), r(e[2]), r(e[3])]
    if t == "comp":
        if e[1] in params and params[e[1]][0] != "n": raise Invalid
        return [t, ren(e[1]), r(e[2]), r(e[3])]
    if t == "let":
        if e[1] in params or any(e[1] in names_in(v) for v in params.values()): raise Invalid
        return [t, e[1], r(e[2]), r(e[3])]
    if t == "use" and e[1] in params: raise Invalid
    return emap(e, r)

def sub_template(e, name, formal, value):
    r = lambda x: sub_template(x, name, formal, value)
    if e[0] == "use" and e[1] == name:
        args = [r(x) for x in e[3]]
        if len(args) != len(formal): raise Invalid
        return sub_params(value, dict(zip(formal, args)))
    if e[0] == "let": return [e[0], e[1], r(e[2]), r(e[3])]
    return emap(e, r)

def apply_all(e, bindings):
    """bindings: (name, formal or None, value); templates first, then bare names, each in definition order"""
    for n, formal, v in bindings:
        if formal: e = sub_template(e, n, formal, v)
    for n, formal, v in bindings:
        if not formal: e = sub_name(e, n, v)
    return e

def expand(e):
    """expand all the let_syntax and abbrev in an expression"""
    if e[0] == "let": return [e[0], e[1], expand(e[2]), expand(e[3])]
    if e[0] != "ls": return emap(e, expand)
    _, kind, bindings, body = e
    if kind == "let_syntax":
        return apply_all(expand(body), [(n, f, expand(v)) for n, f, v in bindings])
    return expand(outside(body, bindings))

def outside(e, bindings):
    """abbrev: substitute before anything inside is expanded"""
    names = [b[0] for b in bindings]
    def clash(e):
        if e[0] == "let": return e[1] in names or clash(e[2]) or clash(e[3])
        if e[0] == "ls": return any(b[0] in names or any(p in names for p in b[1] or ()) or clash(b[2]) for b in e[2]) or clash(e[3])
        found = []
        emap(e, lambda x: (found.append(clash(x)), x)[1])
        return any(found)
    if clash(e): raise Invalid
    def go(e):
        if e[0] == "ls": return ["ls", e[1], [(n, f, go(v)) for n, f, v in e[2]], go(e[3])]
        raise RuntimeError
    def walk(e):   # lift nested forms out of the way of apply_all
        if e[0] == "ls": return ["ls", e[1], [(n, f, apply2(v)) for n, f, v in e[2]], apply2(e[3])]
        return None
    def apply2(e):
        if e[0] == "ls": return walk(e)
        if contains_ls(e):
            if e[0] == "let": return [e[0], e[1], apply2(e[2]), apply2(e[3])]
            if e[0] in ("use", "kw", "lam", "comp"): raise Invalid
            return emap(e, apply2)
        return apply_all(e, bindings)
    return apply2(e)
def contains_ls(e):
    if e[0] == "ls": return True
    if e[0] == "let": return contains_ls(e[2]) or contains_ls(e[3])
    found = []
    emap(e, lambda x: (found.append(contains_ls(x)), x)[1])
    return any(found)

def render(e, plain):
    """source text of an expression"""
    r = lambda x: render(x, plain)
    t = e[0]
    if t == "n": return e[1]
    if t == "c": return e[1]
    if t == "attr": return f"O.{e[1]}"
    if t == "T": return "T(" + ", ".join(map(r, e[1])) + ")"
    if t == "list": return "[" + ", ".join(map(r, e[1])) + "]"
    if t == "do": return ("(" + ", ".join(map(r, e[1])) + ",)[-1]") if plain else "do[" + ", ".join(map(r, e[1])) + "]"
    if t == "lam": return f"(lambda {e[1]}: {r(e[2])})({r(e[3])})"
    if t == "comp": return f"[{r(e[2])} for {e[1]} in [{r(e[3])}]]"
    if t == "kw": return f"KW({e[1]}={r(e[2])})"
    if t == "add": return f"([{r(e[1])}] + [0])"
    if t == "let": return f"(lambda {e[1]}: {r(e[3])})({r(e[2])})" if plain else f"let[[{e[1]} << {r(e[2])}] in {bod(e[3], plain)}]"
    if t == "use":
        if e[2] == "[": return f"{e[1]}[{', '.join(map(r, e[3]))}]"
        return f"{e[1]}({', '.join(map(r, e[3]))})"
    if t == "ls": return ls_text(e[1], e[2], e[3], "in")
    raise RuntimeError(e)
def bod(e, plain):   # a list as the body of a let form means several expressions
    s = render(e, plain)
    return f"[{s}]" if e[0] == "list" else s
def ls_text(kind, bindings, body, fmt):
    def lhs(b, style): return b[0] + (style[0] + ", ".join(b[1]) + style[1] if b[1] else "")
    style = "()" if fmt in ("call", "callwhere", "tuple") else "[]"
    if fmt in ("tuple", "list"):
        o, c = ("(", ")") if fmt == "tuple" else ("[", "]")
        bs = ", ".join(f"{o}{lhs(b, style)}, {render(b[2], False)}{c}" for b in bindings)
        return f"{kind}[{bs}][{bod(body, False)}]"
    if fmt == "walrus":
        if any(b[1] for b in bindings): raise Invalid
        return f"{kind}[{', '.join(f'{b[0]} := {render(b[2], False)}' for b in bindings)}][{bod(body, False)}]"
    bs = ", ".join(f"{lhs(b, style)} << {render(b[2], False)}" for b in bindings)
    if fmt == "in": return f"{kind}[[{bs}] in {bod(body, False)}]"
    if fmt == "where": return f"{kind}[{bod(body, False)}, where[{bs}]]"
    if fmt == "callwhere": return f"{kind}[{bod(body, False)}, where({bs})]"
    if fmt == "call": return f"{kind}({bs})[{bod(body, False)}]"
    if fmt == "brackets": return f"{kind}[{bs}][{bod(body, False)}]"
    if fmt == "do": return f"{kind}[[{bs}] in [V(70), {render(body, False)}]]"
    raise RuntimeError(fmt)
FORMATS = ["in", "where", "brackets", "call", "callwhere", "tuple", "list", "walrus", "do"]

n = lambda k: ["n", k]
X, Y, Z, A, B = n("x"), n("y"), n("z"), n("a"), n("b")
V1, V2 = ["c", "V(1)"], ["c", "V(2)"]
def T(*a): return ["T", list(a)]
def L(*a): return ["list", list(a)]
def use(f, *args, style="["): return ["use", f, style, list(args)]

BARE = [("x", None, v) for v in (Y, V1, L(Y, V2), ["add", X], T(X, Y), use("f", Y), ["lam", "x", L(X, Y), V1])] + \
       [("y", None, v) for v in (Z, X, V2, L(X))] + [("z", None, v) for v in (X, T(Y))] + [("f", None, n("g")), ("a", None, V2), ("a", None, Y)]
TEMPL = [("f", ["a"], v) for v in (A, L(A, A), T(A, X), ["lam", "w", L(n("w"), A), A], use("g", A), L(A, ["attr", "a"]), ["kw", "x", A])] + \
        [("g", ["a"], v) for v in (L(A, Y), A, use("f", A), use("f", use("f", A)))] + \
        [("h", ["a", "b"], v) for v in (L(A, B), L(B, A, B), T(B, ["lam", "w", A, B]), use("f", L(A, B)))] + \
        [("g", ["x"], L(X, Y)), ("h", ["x", "y"], T(Y, X)), ("h", ["b", "a"], L(A, B))]
BODIES = [X, L(X, Y, Z), T(X, Y), use("f", X), use("f", use("f", X)), use("f", V1), use("f", use("g", X)), use("g", use("f", Y), style="("), use("h", X, Y), use("h", B, A), use("h", A, A), use("h", use("h", X, B), A),
          use("h", use("f", X), use("g", B), style="("), L(["attr", "x"], ["kw", "x", X], ["lam", "x", L(X, Y), V1]), ["let", "x", Y, L(X, Y)], ["let", "w", X, L(n("w"), use("f", X))], ["let", "y", use("f", Y), L(X, Y)],
          ["ls", "let_syntax", [("x", None, n("w"))], L(X, Y)], ["ls", "let_syntax", [("x", None, V1)], L(X, ["attr", "x"], Y)], ["ls", "let_syntax", [("y", None, X), ("f", ["a"], L(X, A))], L(use("f", Y), X)],
          L(X, ["ls", "let_syntax", [("f", ["x"], L(X, Y))], use("f", use("f", V1))], use("f", Y)), ["ls", "abbrev", [("w", None, X)], L(n("w"), Y)],
          ["do", [V1, use("f", X)]], ["comp", "w", L(n("w"), X), Y], T(L(use("f", A), use("g", B)), A, B)]

def exp_gen(tier):
    pool = BARE + TEMPL
    sets = [[b] for b in pool] + [[b, c] for b in pool for c in pool if b[0] != c[0]]
    if tier != "quick":
        sets += [[b, c, d] for b in pool for c in pool for d in pool if len({b[0], c[0], d[0]}) == 3]
    items = []
    for i, bs in enumerate(sets):
        for j, body in enumerate(BODIES):
            if len(bs) > 1 and tier == "quick" and (i * 7 + j) % 3: continue
            if len(bs) > 2 and (i + j) % 4: continue
            items.append([bs, body, "let_syntax" if (i + j) % 3 else "abbrev", FORMATS[(i + 3 * j) % len(FORMATS)]])
    for i in range(0, len(items), 150): yield items[i:i + 150]

def exp_run(items):
    W1, W2 = World(), World()
    lines, rows = [HEAD], []
    g1, g2 = W1.given(), W2.given()
    for bs, body, kind, fmt in items:
        bs = [tuple(b) for b in bs]
        try:
            text = ls_text(kind, bs, body, fmt)
            ref = expand(["ls", kind, bs, body])
        except Invalid: continue
        except RecursionError: continue
        src = render(ref, True)
        if fmt == "do": src = f"(V(70), {src})[-1]"
        k = len(rows)
        lines.append(f"def p{k}(): return {text}")
        rows.append((text, src))
    if not rows: return
    try: ns = macros.module("\n".join(lines) + "\n", **g2)
    except macros.ExpansionError as e:
        if len(items) > 1:
            for it in items: exp_run([it])
        raise mc.Violation(f"cannot expand: {e}\n{rows[0][0]}\nexpected as {rows[0][1]}")
    for k, (text, src) in enumerate(rows):
        want = attempt(W1, lambda: eval(src, g1))
        got = attempt(W2, ns[f"p{k}"])
        mc.trace(); mc.step(1 + len(got[1]))
        mc.check(got == want, lambda: f"{text}\n  gives {got}\n  expected {want}\n  as {src}")
        mc.state((src, want))

# ================================================================ the reference: statements
# ["e", expr] | ["ub", NAME] | ["ut", NAME, args] | ["def", NAME, stmts] (defines and logs the call) | ["if", expr, stmts] | ["for", NAME, stmts] | ["try", stmts] | ["asg", NAME, expr]
# | ["cls", NAME, stmts] | ["ls", kind, stmts] | ["bind", "expr"|"block", NAME, formal or None, expr or stmts]
def smap(s, fe, fs):
    t = s[0]
    if t == "e": return [s[0], fe(s[1])]
    if t == "ub": return s
    if t == "ut": return [t, s[1], [fe(x) for x in s[2]]]
    if t in ("def", "for", "cls"): return [t, s[1], fs(s[2])]
    if t == "if": return [t, fe(s[1]), fs(s[2])]
    if t == "try": return [t, fs(s[1])]
    if t == "asg": return [t, s[1], fe(s[2])]
    raise RuntimeError(s)
def ssub_name(ss, name, value, mode):
    out = []
    for s in ss:
        t = s[0]
        if mode == "block":
            if t == "ub" and s[1] == name:
                out += value
                continue
            def fe(e):
                if name in ename(e): raise Invalid
                return e
            if t in ("asg", "for", "def", "cls", "ut") and s[1] == name: raise Invalid
            out.append(smap(s, fe, lambda x: ssub_name(x, name, value, mode)))
        else:
            if t == "ub" and s[1] == name:
                out.append(["e", value] if value[0] != "n" else ["ub", value[1]])
                continue
            s = smap(s, lambda e: sub_name(e, name, value), lambda x: ssub_name(x, name, value, mode))
            if t == "ut":
                if s[1] == name:
                    if value[0] != "n": raise Invalid
                    s = [t, value[1], s[2]]
            elif t in ("def", "cls", "asg", "for") and s[1] == name:
                if value[0] == "n": s = [t, value[1]] + s[2:]
                else: raise Invalid
            out.append(s)
    return out
def ename(e):
    out = set()
    def go(x):
        if x[0] in ("n", "attr") : out.add(x[1])
        if x[0] == "use": out.add(x[1])
        if x[0] == "let":
            go(x[2]); go(x[3])
            return x
        if x[0] in ("lam", "comp", "kw"): out.add(x[1])
        return emap(x, go)
    go(e)
    return out
def as_stmt(e):
    """an expression in a statement position"""
    if e[0] == "n": return ["ub", e[1]]
    if e[0] == "use": return ["ut", e[1], e[3]]
    return ["e", e]
def ssub_params(ss, params, expand_arg):
    out = []
    for s in ss:
        t = s[0]
        if t == "ub" and s[1] in params:
            out += expand_arg(as_stmt(params[s[1]]))
            continue
        ren = lambda n: params[n][1] if n in params and params[n][0] == "n" else n
        s = smap(s, lambda e: sub_params(e, params), lambda x: ssub_params(x, params, expand_arg))
        if t in ("def", "cls", "asg", "for"):
            if s[1] in params and params[s[1]][0] != "n": raise Invalid
            s = [t, ren(s[1])] + s[2:]
        if t == "ut" and s[1] in params: raise Invalid
        out.append(s)
    return out
def ssub_template(ss, name, formal, value, mode):
    out = []
    rec = lambda x: ssub_template(x, name, formal, value, mode)
    for s in ss:
        if mode == "expr":
            if s[0] == "ut" and s[1] == name:
                e = sub_template(["use", s[1], "[", s[2]], name, formal, value)
                out.append(as_stmt(e))
            else: out.append(smap(s, lambda e: sub_template(e, name, formal, value), rec))
        else:
            if s[0] == "ut" and s[1] == name:
                if len(s[2]) != len(formal): raise Invalid
                def expand_arg(st): return rec([st])
                for x in s[2]:   # used as an expression inside an argument (not being one)
                    emap(x, lambda q: (uses(q, name), q)[1]) if x[0] != "let" else uses(x, name)
                new = ssub_params(value, dict(zip(formal, s[2])), expand_arg)
                def ok(ss):
                    for q in ss: smap(q, lambda e: (uses(e, name), e)[1], ok)
                ok(new)
                out += new
            else:
                out.append(smap(s, lambda e: (uses(e, name), e)[1], rec))
    return out
def uses(e, name):
    def go(x):
        if x[0] == "use" and x[1] == name: raise Invalid
        if x[0] == "let":
            go(x[2]); go(x[3])
            return x
        return emap(x, go)
    go(e)
def sapply(ss, active):
    for nm, formal, v, mode in active:
        if formal: ss = ssub_template(ss, nm, formal, v, mode)
    for nm, formal, v, mode in active:
        if not formal: ss = ssub_name(ss, nm, v, mode)
    return ss
def sexpand(ss, outer=()):
    """expand the nested blocks of a statement list"""
    out = []
    for s in ss:
        if s[0] == "ls": out += block_ref(s[2])
        else: out.append(smap(s, expand, sexpand))
    return out
def block_ref(ss):
    """a `with let_syntax` block: each binding is in effect from the next statement on"""
    active, out = [], []
    for s in ss:
        if s[0] == "bind":
            _, mode, nm, formal, v = s
            if nm in [a[0] for a in active]: raise Invalid
            act = [a for a in active if a[0] not in (formal or ())]
            if mode == "expr":
                r = sapply([["e", expand(v)]], act)
                if len(r) != 1: raise Invalid
                r = r[0]
                v = {"e": lambda: r[1], "ub": lambda: n(r[1]), "ut": lambda: ["use", r[1], "[", r[2]]}[r[0]]()
            else: v = sapply(sexpand(v), act)
            active.append((nm, formal, v, mode))
        else: out += sapply(sexpand([s]), active)
    if not out: raise Invalid
    return out
def srender(ss, plain, depth=0):
    out, pad = [], "    " * depth
    r = lambda e: render(e, plain)
    for s in ss:
        t = s[0]
        if t == "e": out.append(pad + r(s[1]))
        elif t == "ub": out.append(pad + s[1])
        elif t == "ut": out.append(pad + f"{s[1]}[{', '.join(map(r, s[2]))}]")
        elif t == "def": out += [pad + f"def {s[1]}():"] + srender(s[2], plain, depth + 1) + [pad + f"{s[1]}()"]
        elif t == "cls": out += [pad + f"class {s[1]}:"] + srender(s[2], plain, depth + 1) + [pad + f"T({s[1]}.__name__)"]
        elif t == "if": out += [pad + f"if {r(s[1])}:"] + srender(s[2], plain, depth + 1) + [pad + "else:", pad + "    T(0)"]
        elif t == "for": out += [pad + f"for {s[1]} in (1, 2):"] + srender(s[2], plain, depth + 1)
        elif t == "try": out += [pad + "try:"] + srender(s[1], plain, depth + 1) + [pad + "finally:", pad + "    T(9)"]
        elif t == "asg": out.append(pad + f"{s[1]} = {r(s[2])}")
        elif t == "ls": out += [pad + f"with {s[1]}:"] + srender(s[2], plain, depth + 1)
        elif t == "bind":
            arg = "[" + ", ".join(s[3]) + "]" if s[3] else ""
            out += [pad + f"with {s[1]}{arg} as {s[2]}:"]
            out += [pad + "    " + r(s[4])] if s[1] == "expr" else srender(s[4], plain, depth + 1)
        else: raise RuntimeError(s)
    return out

e = lambda *a: ["e", T(*a)]
def bx(name, v, formal=None): return ["bind", "expr", name, formal, v]
def bb(name, ss, formal=None): return ["bind", "block", name, formal, ss]
BINDS = [bx("x", Y), bx("x", V1), bx("x", L(Y, ["add", X])), bx("y", Z), bx("y", X), bx("y", L(X, V2)), bx("a", V2), bx("a", Y),
         bx("f", L(A, X), ["a"]), bx("f", A, ["a"]), bx("g", use("f", A), ["a"]), bx("g", L(X, Y), ["x"]), bx("h", L(B, A), ["a", "b"]), bx("f", ["let", "w", A, L(n("w"), X)], ["a"]),
         bb("P", [e(X), e(Y)]), bb("P", [["asg", "y", L(X)], e(Y)]), bb("Q", [["ub", "P"], e(V1), ["ub", "P"]]), bb("P", [["if", X, [e(V1)]], ["def", "k", [e(X)]]]),
         bb("R", [["ub", "a"], ["ub", "a"]], ["a"]), bb("R", [["if", V1, [["ub", "a"]]], e(A)], ["a"]), bb("S", [e(A, B), ["asg", "z", B]], ["a", "b"]), bb("S", [["ut", "R", [A]], e(B)], ["a", "b"]),
         bb("R", [["def", "a", [e(X)]], e(V1)], ["a"]), bb("S", [["ls", "let_syntax", [bx("x", A), e(X, B)]]], ["a", "b"]), bb("R", [["for", "a", [e(A, X)]]], ["a"])]
USES = [e(X, Y, Z), e(A, B), ["e", T(use("f", X), use("f", use("f", Y)))], e(use("g", X), use("g", use("f", Y))), e(use("h", X, B), use("h", B, A)), ["ub", "P"], ["ub", "Q"],
        ["ut", "R", [n("P")]], ["ut", "R", [use("S", X, Y)]], ["ut", "R", [V1]], ["ut", "R", [n("w")]], ["ut", "R", [use("R", X)]], ["ut", "S", [X, Y]], ["ut", "S", [B, A]], ["ut", "S", [use("f", X), L(A)]],
        ["if", X, [["ub", "P"], e(Y)]], ["for", "w", [["ub", "P"], e(n("w"))]], ["def", "x", [["ub", "P"], e(X)]], ["cls", "x", [["ub", "P"]]], ["try", [["ub", "P"], ["ut", "R", [X]]]],
        ["asg", "y", L(X)], ["asg", "x", V2], ["ls", "let_syntax", [bx("x", V2), e(X, Y)]], ["if", V1, [["ls", "let_syntax", [bx("x", L(Y, V2)), bb("P", [e(X)]), ["ub", "P"]]], e(X)]],
        e(["ls", "let_syntax", [("x", None, V1), ("f", ["x"], L(X, Y))], L(X, use("f", Y))], X), ["def", "k", [["ls", "let_syntax", [bx("f", L(A), ["a"]), e(use("f", X), use("g", Y))]]]],
        e(["let", "x", Y, L(X, Y)], ["attr", "x"], ["kw", "y", X]), ["if", ["c", "0"], [e(X)]], ["if", ["c", "1"], [e(X)]]]

def blo_gen(tier):
    items = [[b, u] for b in BINDS for u in USES]
    items += [[b, c, u] for b in BINDS for c in BINDS for u in USES if b[2] != c[2]]
    items += [[b, u, c, v] for i, b in enumerate(BINDS) for j, u in enumerate(USES) for k, c in enumerate(BINDS) for m, v in enumerate(USES) if b[2] != c[2] and (i + 3 * j + 5 * k + 7 * m) % (101 if tier == "quick" else 11) == 0]
    if tier != "quick":
        items += [[b, c, d, u] for i, b in enumerate(BINDS) for j, c in enumerate(BINDS) for k, d in enumerate(BINDS) for m, u in enumerate(USES) if len({b[2], c[2], d[2]}) == 3 and (i + 3 * j + 5 * k + 7 * m) % 7 == 0]
    else:
        items = items[:len(BINDS) * len(USES)] + items[len(BINDS) * len(USES)::2]
    for i in range(0, len(items), 120): yield items[i:i + 120]
def has_ls(ss): return "'ls'" in repr(ss)
def blo_run(items):
    W1, W2 = World(), World()
    g1, g2 = W1.given(), W2.given()
    names = ("x", "y", "z", "w", "a", "b")
    pre = "    " + "; ".join(f"{k} = '{k}'" for k in names)
    lines, plain, rows = [HEAD], [], []
    for it in items:
        kinds = ["let_syntax"] + (["abbrev"] if not has_ls(it) and "'let'" not in repr(it) else [])
        for kind in kinds:
            BLOCK.append(1)
            try: ref = block_ref(it)
            except (Invalid, RecursionError): continue
            finally: BLOCK.clear()
            k = len(rows)
            p = [f"def p{k}():", pre] + srender(ref, True, 1) + ["    T(" + ", ".join(names) + ")"]
            m = [f"def p{k}():", pre, f"    with {kind}:"] + srender(it, False, 2) + ["    T(" + ", ".join(names) + ")"]
            try: compile("\n".join(p), "<plain>", "exec")
            except SyntaxError: continue
            rows.append(("\n".join(m), "\n".join(p)))
            lines += m
            plain += p
    if not rows: return
    exec(compile("\n".join(plain) + "\n", "<plain>", "exec"), g1)
    try: ns = macros.module("\n".join(lines) + "\n", **g2)
    except macros.ExpansionError as ex:
        if len(items) > 1:
            for it in items: blo_run([it])
        raise mc.Violation(f"cannot expand: {ex}\n{rows[0][0]}\nexpected as\n{rows[0][1]}")
    for k, (text, src) in enumerate(rows):
        want, got = attempt(W1, g1[f"p{k}"]), attempt(W2, ns[f"p{k}"])
        mc.trace(); mc.step(1 + len(got[1]))
        mc.check(got == want, lambda: f"{text}\n  gives {got}\n  expected {want}\n  as\n{src}")
        mc.state((src, want))

# ================================================================ autoref
# statement forms; @x and @y are loads of a name, everything else is left alone
FORMS = {
    "load": ["T(@x, @y)"],
    "nest": ["T([@x, {1: @y}], (@x,), {@x: @y}, -1 if @x else @y, @x == @y, not @x, (@x and @y))"],
    "attr": ["T(ATTR(@x).v, @x.__len__(), @y[0], @y[0:len(@x)], @x[-1])"],
    "call": ["T(FX(@x, k=@y), FX(*[@x], **{'k': @y}))"],
    "fstr": ["T(f'{@x}{@y!r:>9}')"],
    "lam": ["T((lambda q, r=@x: (q, r, @y))(1), (lambda: lambda: @x)()())"],
    "comp": ["T([(q, @x) for q in @y if @x], {q: @y for q in (1,)}, list((@x, q) for q in @y), [[@x for q in '1'] for r in @y])"],
    "def": ["def fu(q=@x, *, r=@y) -> @x:", "    return q, r, @x, @y", "T(fu(), fu.__annotations__)"],
    "closure": ["def mk():", "    n = 1", "    def inc():", "        nonlocal n", "        n = n + len(@x)", "        return n, @y", "    return inc", "i1 = mk()", "T(i1(), i1())"],
    "gen": ["def ge():", "    yield @x", "    yield from [@y]", "    return @x", "T(list(ge()))"],
    "coro": ["async def co():", "    return @x, @y", "T(DRIVE(co()))"],
    "deco": ["@DECO(@x)", "def fd(): return @y", "T(fd())"],
    "class": ["class C(*BASES(@x)):", "    v = @y", "    def m(self): return @x, self.v", "T(C().m())"],
    "asg": ["x = T(@x, @y)", "T(@x, @y)"],
    "aug": ["x += 'q'", "y = @x", "T(@x, @y)"],
    "ann": ["x: int = @y", "T(@x)"],
    "del": ["del x", "T(@x)"],
    "unpack": ["x, *y = [@y, @x, 3]", "T(@x, @y)"],
    "for": ["for x in (1, @y):", "    T(@x)", "else:", "    T(@y)"],
    "while": ["n2 = 2", "while n2 and @x:", "    n2 -= 1", "    T(@y)"],
    "with": ["with CM(@y) as x:", "    T(@x)"],
    "try": ["try:", "    raise Boom(@y)", "except Boom as x:", "    T(ARGS(@x))", "    z = @x", "finally:", "    T(@y)"],
    "import": ["import types as x", "T(NAMEOF(@x))"],
    "walrus": ["T((x := @y), @x)"],
    "match": ["match [@x, 2]:", "    case [x, 2] if @y: T(@x, @y)", "    case _: T(0)"],
    "global": ["def fg():", "    global gx", "    gx = @x", "    return gx", "T(fg(), gx)"],
    "assert": ["assert @x, @y", "T(@x)"],
    "raise": ["T(@x)", "raise Boom(@y)"],
    "return": ["return [@x, @y]"],
    "param": ["def fp(x, y=2): return T(@x, @y)", "fp(1)", "T((lambda x: @x)(5), [@x for x in (1, 2)])"],
    "put": ["T(@x)", "PUT(1, 'x', 'new1')", "T(@x, @y)", "PUT(2, 'y', 'new2')", "T(@x, @y)"],
    "cut": ["T(@x, @y)", "CUT(1, 'x')", "T(@x, @y)", "CUT(2, 'y')", "T(@x, @y)"],
    "none": ["PUT(1, 'x', None)", "PUT(2, 'y', 0)", "T(@x, @y)"],
}
FORMS_M = {   # with other macros inside: (macro text, plain text)
    "let": (["T(let[[q << @x] in [[q, @y]]], let[[x << @y] in [[x, @y]]], letrec[[q << @x, r << (lambda: (q, @y))] in r()])"], ["T((lambda q: [q, @y])(@x), (lambda x: [x, @y])(@y), (lambda q: (q, @y))(@x))"]),
    "do": (["T(do[local[q << @x], q << [q, @y], (q, @x)], do[local[x << @y], x << [x], x])"], ["q = @x", "q = [q, @y]", "T((q, @x), [@y])"]),
    "dlet": (["@dlet(q << @x, r << 5)", "def fl(s): return (q, r, s, @y)", "T(fl(@x))"], ["q = @x", "r = 5", "def fl(s): return (q, r, s, @y)", "T(fl(@x))"]),
    "cond": (["T(cond[not @x, 1, @y, @x, 2], aif[@x, (it, @y), 3])"], ["T(1 if not @x else @x if @y else 2, (@x, @y) if @x else 3)"]),
    "fn": (["T(fn[(_, @x, _)](1, @y))"], ["T((1, @x, @y))"]),
    "multi": (["with multilambda:", "    fm = lambda q: [local[r << @x], (q, r, @y)]", "T(fm(1))"], ["T((1, @x, @y))"]),
    "named": (["with namedlambda:", "    fq = lambda: @x", "T(fq(), fq.__name__)"], ["T(@x, 'fq')"]),
    "curry": (["with autocurry:", "    def fc(q, r): return (q, r, @x)", "    T(fc(1)(@y))"], ["T((1, @y, @x))"]),
    "tco": (["with tco:", "    def ft(q): return ft(q - 1) if q else (@x, @y)", "T(ft(3))"], ["T((@x, @y))"]),
    "lazy": (["with lazify:", "    def fz(q, r): return (q, @x)", "    T(fz(@y, 1 / 0))"], ["T((@y, @x))"]),
    "letsyn": (["T(let_syntax[[w << @x] in [[w, @y]]])"], ["T([@x, @y])"]),
}
ALL = {**{k: (v, v) for k, v in FORMS.items()}, **FORMS_M}
SHORT = ["load", "comp", "def", "asg", "param", "put", "cut", "let", "dlet", "for", "lam", "curry"]
PATTERNS = list(itertools.product((0, 1), repeat=4))   # (E1.x, E1.y, E2.x, E2.y)
TARGETS = [("E1", "", "E2", ""), ("MK(1)", " as p", "MK(2)", " as q2"), ("MK(1)", "", "E2", " as q2"), ("E1", " as p", "p.sub", "")]
AR_BLOCKS = [[], ["namedlambda"], ["autocurry"], ["tco"], ["namedlambda", "autocurry", "tco"]]

def lines_of(form, depth, plain):
    out = []
    for l in ALL[form][1 if plain else 0]:
        for k in ("x", "y"): l = l.replace(f"@{k}", f"R{depth}('{k}', lambda: {k})" if plain else k)
        out.append(l)
    return out
def ar_src(prog, k, plain):
    """prog: [target, blocks, outer forms, inner forms or None, forms after, locals]"""
    tgt, blocks, first, inner, after, loc = prog
    t1, as1, t2, as2 = TARGETS[tgt]
    b = "    "
    out = [f"def p{k}():"] + ([b + "x = 'lx'; y = 'ly'"] if loc == "local" else []) + [b + "T(0)"]
    order = [x for x in ("namedlambda",) if x in blocks], [x for x in ("autocurry", "tco") if x in blocks]
    def head(t, a):
        return f"with {', '.join(order[0] + ['autoref[' + t + ']' + a] + order[1])}:"
    if plain:
        out.append(b + f"R1.set({t1})")
        if as1: out.append(b + f"{as1[4:]} = R1.o")
        for f in first: out += [b + l for l in lines_of(f, 1, True)]
        if inner is not None:
            out.append(b + f"R2.set(R1('E2', lambda: E2))" if t2 == "E2" else b + f"R2.set({t2})")
            if as2: out.append(b + f"{as2[4:]} = R2.o")
            for f in inner: out += [b + l for l in lines_of(f, 2, True)]
            if as2: out.append(b + f"T({as2[4:]} is R2.o" + (f", {as1[4:]} is R1.o" if as1 else "") + ")")
        for f in after: out += [b + l for l in lines_of(f, 1, True)]
        if as1: out.append(b + f"T({as1[4:]} is R1.o)")
    else:
        out.append(b + head(t1, as1))
        b = "        "
        for f in first: out += [b + l for l in lines_of(f, 1, False)]
        if inner is not None:
            out.append(b + f"with autoref[{t2}]{as2}:")
            for f in inner: out += [b + "    " + l for l in lines_of(f, 2, False)]
            if as2: out.append(b + f"    T({as2[4:]} is O2" + (f", {as1[4:]} is O1" if as1 else "") + ")")
        for f in after: out += [b + l for l in lines_of(f, 1, False)]
        if as1: out.append(b + f"T({as1[4:]} is O1)")
    return out
def ar_gen(tier):
    quick = tier == "quick"
    progs = []
    for i, f in enumerate(ALL):
        for t in range(3):
            for loc in ("local", "global"):
                progs.append([t, [], [f], None, [], loc])
                progs.append([t if t < 2 else 3, [], [], [f], ["load"], loc])
        for bl in AR_BLOCKS[1:] if f in FORMS else []: progs.append([0, bl, [f], None, [], "local"])
    short = SHORT if quick else list(ALL)
    for i, f in enumerate(short):
        for j, g in enumerate(short):
            progs.append([(i + j) % 4, [], [f], [g], ["load"], ("local", "global")[(i + 2 * j) % 2]])
            progs.append([(i + j) % 4, [], [], [f, g], [f], "local"])
            if not quick and f in FORMS and g in FORMS: progs.append([(i + j) % 2, AR_BLOCKS[(i + j) % 5], [f, g], None, [], "local"])
    for i in range(0, len(progs), 30): yield progs[i:i + 30]

def ar_given(W, plain):
    g = W.given()
    log = W.log
    class E: pass
    class Res:
        def __init__(self, outer=None): self.outer = outer
        def set(self, o): self.o = o
        def __call__(self, name, ordinary):
            r = self
            while r is not None:
                if hasattr(r.o, name): return getattr(r.o, name)
                r = r.outer
            return ordinary()
    class CM:
        def __init__(self, v): self.v = v
        def __enter__(self): return self.v
        def __exit__(self, *a): pass
    class At:
        def __init__(self, v): self.v = v
    def drive(co):
        try: co.send(None)
        except StopIteration as s: return s.value
    def setup(pattern):
        e1, e2 = E(), E()
        e1.sub = e2
        for o, k, on, v in zip((e1, e1, e2, e2), "xyxy", pattern, ("1x", "1y", "2x", "2y")):
            if on: setattr(o, k, v)
        objs = {1: e1, 2: e2}
        def MK(i):
            log.append(["mk", i])
            return objs[i]
        def cut(i, k):
            if k in vars(objs[i]): delattr(objs[i], k)
        d = dict(E1=e1, E2=e2, O1=e1, O2=e2, MK=MK, PUT=lambda i, k, v: setattr(objs[i], k, v), CUT=cut, x="gx", y="gy", gx=0)
        if plain:
            r1 = Res()
            d.update(R1=r1, R2=Res(r1))
        return d
    g.update(CM=CM, ATTR=At, DRIVE=drive, DECO=lambda v: (log.append(["deco", v]), lambda f: f)[1], BASES=lambda v: (log.append(["bases", v]), (object,))[1],
             FX=lambda *a, **k: T2(log, a, k), ARGS=lambda e: e.args if isinstance(e, Exception) else e, NAMEOF=lambda m: m if isinstance(m, str) else m.__name__)
    return g, setup
def T2(log, a, k):
    log.append([list(a), list(k.items())])
    return [list(a), dict(k)]

def ar_run(progs):
    W1, W2 = World(), World()
    (g1, s1), (g2, s2) = ar_given(W1, True), ar_given(W2, False)
    plain, lines = [], [HEAD]
    for k, pr in enumerate(progs):
        plain += ar_src(pr, k, True)
        lines += ar_src(pr, k, False)
    g1.update(s1((0, 0, 0, 0)))
    exec(compile("\n".join(plain) + "\n", "<plain>", "exec"), g1)
    try: ns = macros.module("\n".join(lines) + "\n", **{**g2, **s2((0, 0, 0, 0))})
    except macros.ExpansionError as ex:
        if len(progs) > 1:
            for pr in progs: ar_run([pr])
        raise mc.Violation(f"cannot expand: {ex}\n" + "\n".join(ar_src(progs[0], 0, False)))
    for k, pr in enumerate(progs):
        for pat in PATTERNS:
            if pr[3] is None and (pat[2] or pat[3]): continue
            g1.update(s1(pat))
            ns.update(s2(pat))
            want, got = attempt(W1, g1[f"p{k}"]), attempt(W2, ns[f"p{k}"])
            mc.trace(); mc.step(1 + len(got[1]))
            mc.check(got == want, lambda: "\n".join(ar_src(pr, k, False)) + f"\n  with attributes (E1.x, E1.y, E2.x, E2.y) = {pat}\n  gives {got}\n  expected {want}\n  as\n" + "\n".join(ar_src(pr, k, True)))
            mc.state((pr, pat))

SPACES = [
    mc.Space("expressions", exp_gen, exp_run, f"let_syntax and abbrev in expressions: all single and pairs (thorough: triples) of {len(BARE)} name and {len(TEMPL)} template bindings in both orders, {len(BODIES)} bodies, {len(FORMATS)} formats (a third of the pairs in quick)", timeout=300),
    mc.Space("blocks", blo_gen, blo_run, f"with let_syntax, with abbrev: {len(BINDS)} name, template and block bindings, {len(USES)} uses, one or two bindings (thorough: three) and interleaved", timeout=300),
    mc.Space("autoref", ar_gen, ar_run, f"{len(ALL)} statement forms in one and two nested autoref blocks, all 16 patterns of which object has which name, {len(TARGETS)} ways to give the objects, local and global variables, in {len(AR_BLOCKS)} block combinations; pairs of {len(SHORT)} (thorough: all) forms", timeout=300),
]
