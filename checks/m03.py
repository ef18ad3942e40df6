"""M03 symbols and singletons: one identity per name / class."""
from lib import mc, sched
sched.install()
import copy, gc, itertools, pickle
import unpythonic
from unpythonic import sym, gensym, Singleton
sched.start(('/symbol.py', '/singleton.py'))

class SingA(Singleton):
    def __init__(self, x=0):
        self.x = x
class SingB(Singleton):
    def __init__(self, x=0):
        self.x = x
class SingSub(SingA):
    pass
CLS = {"A": SingA, "B": SingB, "C": SingSub}

def blob(kind):
    if kind == "sym":
        s = sym("x"); b = pickle.dumps(s); del s
        return b
    if kind == "sing":
        s = SingA(5); b = pickle.dumps(s); del s
        return b
PK_SYM = blob("sym")
PK_SING = blob("sing")
_g = gensym("x"); PK_G = pickle.dumps(_g); del _g
gc.collect()

# ---------------------------------------------------------------- schedules
# thread programs over: "c" create & keep, "d" create & drop, "l" unpickle & keep, "L" unpickle & drop
def progs():
    for dom in ("sym", "gsym", "sing"):
        ops = {"sym": "cdlL", "gsym": "lL", "sing": "cdlL"}[dom]
        for a, b in itertools.combinations_with_replacement(ops, 2):
            yield dom, [a, b], 3
        for a in ops:
            for b in ("dc", "Ll", "dl") if dom != "gsym" else ("Ll",):
                yield dom, [a, b], 2
        yield dom, [ops[0], ops[-1], ops[-1]], 1
    yield "gensym", ["c", "c"], 2
SCEN = list(progs())

def scen_gen(tier):
    for i, (dom, threads, b) in enumerate(SCEN):
        for part in range(4):
            yield [i, b if tier == "quick" else b + 1, part, 4]

def scen_run(case):
    i, bound, part, nparts = case
    dom, threads, _ = SCEN[i]
    def create():
        return sym("x") if dom == "sym" else SingA(1) if dom == "sing" else gensym("x")
    pk = {"sym": PK_SYM, "gsym": PK_G, "sing": PK_SING, "gensym": None}[dom]
    def make():
        kept = []
        def thread(prog):
            def run():
                n = 0
                for op in prog:
                    try:
                        o = create() if op in "cd" else pickle.loads(pk)
                    except TypeError:
                        mc.check(dom == "sing" and op in "cd", "TypeError")
                        n += 1
                        continue
                    sched.point()
                    if op in "cl":
                        kept.append(o)
                    del o
                    sched.point()
                return n
            return run
        def judge(ex):
            for r in ex.results:
                mc.check(r[0] == "ok", lambda: f"lookup failed: {r}")
            if dom == "gensym":
                mc.check(len(set(map(id, kept))) == len(kept), "uninterned symbols share identity")
            else:
                mc.check(len(set(map(id, kept))) <= 1, lambda: f"{len(set(map(id, kept)))} live instances")
                if dom == "sing":
                    refusals = sum(r[1] for r in ex.results)
                    if all(t in ("c", "d") for t in threads) and "d" not in threads:
                        mc.check(refusals == len(threads) - 1, lambda: f"{refusals} constructions refused")
                    if kept:
                        mc.check(kept[0].x in (1, 5), "state")
                if dom == "sym" and kept:
                    mc.check(kept[0].name == "x" and kept[0] is sym("x"), "interned lookup")
            kept.clear()
        return [thread(t) for t in threads], judge
    sched.explore(make, bound, part, nparts)

# ---------------------------------------------------------------- histories
# symbols: ops on 2 slots
def sym_ops():
    ops = []
    for s in (0, 1):
        ops += [["new", s, "p"], ["new", s, "q"], ["gen", s], ["drop", s], ["copy", s, 1 - s], ["deepcopy", s, 1 - s]]
        ops += [["dump", s], ["load", s]]
    return ops
OPS = sym_ops()
def symh_gen(tier):
    L = 4 if tier == "quick" else 5
    for h in itertools.product(range(len(OPS)), repeat=L):
        # canonical: slot 0 is used first
        if OPS[h[0]][0] in ("drop", "copy", "deepcopy", "dump", "load") or OPS[h[0]][1] != 0:
            continue
        for proto in ((2,) if tier == "quick" else (0, 2, 4)):
            yield [list(h), proto]
    if tier == "quick":
        for h in itertools.product(range(len(OPS)), repeat=3):
            if OPS[h[0]][0] in ("new", "gen"):
                for proto in (0, 1, 3, 4, 5):
                    yield [list(h), proto]

def symh_run(case):
    h, proto = case
    slots = [None, None]          # (object, token) ; token identifies the identity class
    dumped = None
    fresh = itertools.count()
    def live(token):
        return [o for x in slots if x for o, t in [x] if t == token]
    for k in h:
        op = OPS[k]
        mc.step()
        s = op[1]
        if op[0] == "new":
            o = sym(op[2])
            mc.check(o.name == op[2] and str(o) == op[2], "name")
            slots[s] = (o, ("sym", op[2]))
        elif op[0] == "gen":
            o = gensym("p")
            for x in slots:
                mc.check(x is None or x[0] is not o, "gensym not unique")
            slots[s] = (o, ("gen", next(fresh)))
        elif op[0] == "drop":
            slots[s] = None
        elif op[0] in ("copy", "deepcopy"):
            if slots[s]:
                slots[op[2]] = (getattr(copy, op[0])(slots[s][0]), slots[s][1])
        elif op[0] == "dump":
            if slots[s]:
                dumped = (pickle.dumps([slots[s][0], slots[s][0]], protocol=proto), slots[s][1], slots[s][0].__class__)
        elif op[0] == "load":
            if dumped:
                a, b = pickle.loads(dumped[0])
                mc.check(a is b and type(a) is dumped[2], "pickle")
                slots[s] = (a, dumped[1])
                del a, b
        # invariant: same token <=> same identity
        if slots[0] and slots[1]:
            same = slots[0][0] is slots[1][0]
            mc.check(same == (slots[0][1] == slots[1][1]),
                     lambda: f"after {[OPS[j] for j in h]} protocol {proto}: identity {same}, tokens {slots[0][1]} {slots[1][1]}")
            mc.check((slots[0][0] == slots[1][0]) == same, "equality")
        for x in slots:
            if x and x[1][0] == "sym":
                mc.check(sym(x[1][1]) is x[0], lambda: f"lookup by name gives another object after {[OPS[j] for j in h]}")
        o = None
    mc.state(tuple(x and x[1] for x in slots))

# singletons
SOPS = [["new", "A", 1], ["new", "A", 2], ["new", "B", 3], ["new", "C", 4], ["drop", "A"], ["drop", "B"], ["drop", "C"],
        ["dump", "A"], ["load"], ["copy", "A"], ["deepcopy", "C"], ["set", "A", 9], ["dump", "C"]]
def singh_gen(tier):
    L = 4 if tier == "quick" else 5
    for h in itertools.product(range(len(SOPS)), repeat=L):
        if SOPS[h[0]][0] in ("new",):
            for proto in ((2,) if tier == "quick" else (0, 2, 4)):
                yield [list(h), proto]
    if tier == "quick":
        for h in itertools.product(range(len(SOPS)), repeat=3):
            if SOPS[h[0]][0] == "new":
                for proto in (0, 1, 4):
                    yield [list(h), proto]

def singh_run(case):
    h, proto = case
    held = {}            # class name -> object
    val = {}             # model state
    dumped = None
    for k in h:
        op = SOPS[k]
        mc.step()
        if op[0] == "new":
            c = op[1]
            try:
                o = CLS[c](op[2])
            except TypeError:
                mc.check(c in held, f"construction of {c} refused though none is alive")
                o = held[c]
            else:
                mc.check(c not in held, lambda: f"second instance of {c} constructed")
                held[c] = o
                val[c] = op[2]
            del o
        elif op[0] == "drop":
            held.pop(op[1], None); val.pop(op[1], None)
        elif op[0] == "set":
            if op[1] in held:
                held[op[1]].x = op[2]; val[op[1]] = op[2]
        elif op[0] == "dump":
            if op[1] in held:
                dumped = (pickle.dumps(held[op[1]], protocol=proto), op[1], val[op[1]])
        elif op[0] == "load":
            if dumped:
                o = pickle.loads(dumped[0])
                c = dumped[1]
                mc.check(type(o) is CLS[c], "type")
                mc.check(c not in held or held[c] is o, lambda: f"unpickling made a second instance of {c} (protocol {proto})")
                held[c] = o
                val[c] = dumped[2]
                del o
        else:
            if op[1] in held:
                o = getattr(copy, op[0])(held[op[1]])
                mc.check(o is held[op[1]], lambda: f"{op[0]} made a second instance")
                del o
        for c, o in held.items():
            mc.check(o.x == val[c] and type(o) is CLS[c], lambda: f"state of {c}: {o.x} expected {val[c]} after {[SOPS[j] for j in h]}")
        o = None
    mc.state((tuple(sorted(val.items())), dumped and dumped[1:]))
    held.clear()

SPACES = [
    mc.Space("schedules", scen_gen, scen_run, "2 threads <=2-3 preemptions (thorough +1), 3 threads <=1: create/drop/unpickle", timeout=400),
    mc.Space("symbol_histories", symh_gen, symh_run, "all histories of 4 (5) operations on 2 slots, pickle protocols 0-5"),
    mc.Space("singleton_histories", singh_gen, singh_run, "all histories of 4 (5) operations on 3 singleton classes"),
]
