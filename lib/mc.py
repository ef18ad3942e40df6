"""Bounded exhaustive exploration: spaces, cases, counters."""
import hashlib, itertools, json, os, signal, sys, time

class Violation(Exception):
    """The property does not hold for the current case. `key` identifies a known finding."""
    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key

class CaseTimeout(BaseException):
    pass

class Counters:
    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.traces = 0
C = Counters()

def digest(x):
    return hashlib.blake2b(repr(x).encode("utf-8", "backslashreplace"), digest_size=8).digest()

def state(x):
    """Record an observed (abstract) state."""
    if len(C.states) < 400000:
        C.states.add(digest(x))

def step(n=1):
    """Record n executed transitions (operations / scheduling steps) on the real code."""
    C.transitions += n

def trace(n=1):
    """Record n additional traces (executions) inside one case."""
    C.traces += n

def check(cond, msg, key=None):
    if not cond:
        raise Violation(msg() if callable(msg) else msg, key)

def eq(got, want, what="", key=None):
    if type(got) is not type(want) or got != want:
        raise Violation(f"{what}: got {got!r}, expected {want!r}", key)

class Space:
    """One finite space of cases. gen(tier) -> iterable of JSON-able cases, run(case)."""
    def __init__(self, name, gen, run, bound="", timeout=30, tiers=("quick", "thorough")):
        self.name, self.gen, self.run, self.bound, self.timeout, self.tiers = name, gen, run, bound, timeout, tiers

def outcome(thunk, *args, **kwargs):
    """Run thunk; reduce to a comparable description: ('ok', value) or ('exc', type name)."""
    try:
        return ("ok", thunk(*args, **kwargs))
    except CaseTimeout:
        raise
    except Exception as e:
        return ("exc", type(e).__name__)

def outcome_msg(thunk, *args, **kwargs):
    try:
        return ("ok", thunk(*args, **kwargs))
    except CaseTimeout:
        raise
    except Exception as e:
        return ("exc", type(e).__name__, str(e))

def seqs(alphabet, maxlen, minlen=0):
    for n in range(minlen, maxlen + 1):
        yield from itertools.product(alphabet, repeat=n)

def compositions(n):
    """All ways to write n as an ordered sum of positive ints (n=0 -> one empty)."""
    if n == 0:
        yield ()
        return
    for k in range(1, n + 1):
        for rest in compositions(n - k):
            yield (k,) + rest
