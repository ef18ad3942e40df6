"""Controlled scheduler: exhaustive exploration of thread schedules of the real code.

install() must run before the code under test is imported: it replaces the lock primitives of
`threading` by cooperative ones.  Threads run by `Execution` are real `threading.Thread`s, but only
one runs at a time; control can move at *points*: before every bytecode of the traced files that can
touch shared state, at lock operations, and where the harness calls `point()`.

`explore` enumerates every schedule with at most `bound` preemptions (switches away from a thread
that could have continued); switches at blocking/termination are free and all enumerated.
"""
import dis, os, sys, threading, _thread, types
from lib import mc

_real_lock = _thread.allocate_lock
get_ident = _thread.get_ident
ACTIVE = {}                     # thread ident -> Execution
REPO_DIRS = [os.path.join(os.environ.get("MC_REPO", "/repo"), "unpythonic")]

class Abort(BaseException):
    pass

class CoopLock:
    def __init__(self):
        self._l = _real_lock()
        self._owner = None
    def acquire(self, blocking=True, timeout=-1):
        ex = ACTIVE.get(get_ident())
        if ex is None:
            return self._l.acquire(blocking, timeout)
        ex.point()
        while not self._l.acquire(False):
            if not blocking:
                return False
            ex.block(self)
        return True
    def release(self):
        self._l.release()
        ex = ACTIVE.get(get_ident())
        if ex is not None:
            ex.wake(self)
    def locked(self):
        return self._l.locked()
    __enter__ = acquire
    def __exit__(self, *a):
        self.release()
    def _at_fork_reinit(self):
        self._l = _real_lock()

class CoopRLock:
    def __init__(self):
        self._l = _real_lock()
        self._owner = None
        self._count = 0
    def acquire(self, blocking=True, timeout=-1):
        me = get_ident()
        if self._owner == me:
            self._count += 1
            return True
        ex = ACTIVE.get(me)
        if ex is None:
            ok = self._l.acquire(blocking, timeout)
            if not ok:
                return False
        else:
            ex.point()
            while not self._l.acquire(False):
                if not blocking:
                    return False
                ex.block(self)
        self._owner, self._count = me, 1
        return True
    def release(self):
        if self._owner != get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            self._l.release()
            ex = ACTIVE.get(get_ident())
            if ex is not None:
                ex.wake(self)
    __enter__ = acquire
    def __exit__(self, *a):
        self.release()
    def _is_owned(self):
        return self._owner == get_ident()
    def _release_save(self):
        n, self._count = self._count, 1
        self.release()
        return n
    def _acquire_restore(self, n):
        self.acquire()
        self._count = n
    def _at_fork_reinit(self):
        self._l = _real_lock()
        self._owner, self._count = None, 0

def install():
    threading.Lock = CoopLock
    threading.RLock = CoopRLock
    threading._allocate_lock = CoopLock
    threading._RLock = CoopRLock

VISIBLE = {"LOAD_ATTR", "STORE_ATTR", "DELETE_ATTR", "LOAD_SUPER_ATTR", "STORE_GLOBAL", "DELETE_GLOBAL",
           "LOAD_DEREF", "STORE_DEREF", "DELETE_DEREF", "BINARY_SUBSCR", "STORE_SUBSCR", "DELETE_SUBSCR",
           "BINARY_SLICE", "STORE_SLICE", "CONTAINS_OP", "CALL", "CALL_FUNCTION_EX", "FOR_ITER", "GET_ITER",
           "BINARY_OP", "COMPARE_OP", "BEFORE_WITH", "UNPACK_SEQUENCE", "LIST_EXTEND", "DICT_UPDATE",
           "DICT_MERGE", "SET_UPDATE", "SEND", "LOAD_METHOD", "LOAD_NAME", "STORE_NAME",
           "POP_JUMP_IF_TRUE", "POP_JUMP_IF_FALSE"}
VISIBLE -= {"POP_JUMP_IF_TRUE", "POP_JUMP_IF_FALSE"}
_vis = {}
_CONSTANT = (types.FunctionType, types.BuiltinFunctionType, type, types.ModuleType)

def _offsets(code):
    v = _vis.get(code)
    if v is None:
        v = {}
        for ins in dis.get_instructions(code):
            if ins.opname in VISIBLE:
                v[ins.offset] = None
            elif ins.opname == "LOAD_GLOBAL":
                v[ins.offset] = ins.argval
        _vis[code] = v
    return v

MON = sys.monitoring
TOOL = 4
FILES = None          # suffixes of file names to instrument (None: everything under unpythonic/)
EXTRA = ()
_on = False

def _wanted(fn):
    if EXTRA and fn.endswith(EXTRA):
        return True
    for d in REPO_DIRS:
        if fn.startswith(d):
            return FILES is None or fn.endswith(FILES)
    return False

def _py_start(code, offset):
    if _wanted(code.co_filename):
        MON.set_local_events(TOOL, code, MON.events.INSTRUCTION)
    return MON.DISABLE

def _instr(code, offset):
    v = _vis.get(code)
    if v is None:
        v = _offsets(code)
    if offset not in v:
        return MON.DISABLE
    ex = ACTIVE.get(get_ident())
    if ex is not None:
        name = v[offset]
        if name is not None:
            g = ex_globals(code)
            if g is not None and isinstance(g.get(name, int), _CONSTANT):
                return MON.DISABLE
        ex.point()

_modglobals = {}
def ex_globals(code):
    fn = code.co_filename
    if fn not in _modglobals:
        for m in list(sys.modules.values()):
            if getattr(m, "__file__", None) == fn:
                _modglobals[fn] = m.__dict__
                break
        else:
            _modglobals[fn] = None
    return _modglobals[fn]

def start(files=None, extra=()):
    """Start instrumenting (process-wide). files: tuple of file name suffixes under unpythonic/."""
    global FILES, EXTRA, _on
    FILES = tuple(files) if files else None
    EXTRA = tuple(extra)
    if not _on:
        MON.use_tool_id(TOOL, "mc")
        MON.register_callback(TOOL, MON.events.PY_START, _py_start)
        MON.register_callback(TOOL, MON.events.INSTRUCTION, _instr)
        MON.set_events(TOOL, MON.events.PY_START)
        _on = True

class Execution:
    """One execution under a given sparse schedule: {decision index: chosen thread}."""
    def __init__(self, bodies, deviations, bound, max_steps=60000):
        self.bodies = bodies
        self.n = len(bodies)
        self.dev = deviations
        self.bound = bound
        self.sem = [_real_lock() for _ in bodies]
        for s in self.sem:
            s.acquire()
        self.done = _real_lock()
        self.done.acquire()
        self.status = ["ready"] * self.n           # ready / finished / lock object
        self.nready = self.n
        self.step = 0
        self.log = []                              # (options, chosen, default, preempts used before, cost)
        self.preempts = 0
        self.results = [None] * self.n
        self.deadlock = False
        self.livelock = self.diverged = False
        self.aborting = False
        self.max_steps = max_steps
        self.idents = {}

    # -- scheduling --
    def _enabled(self):
        return [i for i in range(self.n) if self.status[i] == "ready"]

    def point(self):
        me = self.idents.get(get_ident())
        if me is None or self.aborting:
            return
        self.step += 1
        if self.step > self.max_steps:
            self.livelock = True
            self._abort()
            raise Abort
        if self.nready > 1:
            nxt = self._choose(self._enabled(), me)
            if nxt != me:
                self._switch(nxt, me)

    def _choose(self, en, me):
        k = len(self.log)
        default = me if me in en else en[0]
        cost = 1 if me in en else 0
        c = self.dev.get(k, default)
        if c not in en:
            self.diverged = True
            c = default
        self.log.append((tuple(en), c, default, self.preempts, cost))
        if c != default and cost:
            self.preempts += 1
        return c

    def _switch(self, nxt, me):
        self.sem[nxt].release()
        self.sem[me].acquire()
        if self.aborting:
            raise Abort

    def block(self, lock):
        me = self.idents[get_ident()]
        if self.aborting:
            raise Abort
        self.status[me] = lock
        self.nready -= 1
        en = self._enabled()
        if not en:
            self.deadlock = True
            self._abort()
            raise Abort
        nxt = en[0] if len(en) == 1 else self._choose(en, me)
        self._switch(nxt, me)

    def wake(self, lock):
        for i in range(self.n):
            if self.status[i] is lock:
                self.status[i] = "ready"
                self.nready += 1

    def _abort(self):
        self.aborting = True
        me = self.idents.get(get_ident())
        for i in range(self.n):
            if i != me and self.status[i] != "finished":
                self.sem[i].release()

    def _finish(self, me):
        self.status[me] = "finished"
        self.nready -= 1
        if self.aborting:
            if all(s == "finished" for s in self.status):
                self.done.release()
            return
        en = self._enabled()
        if en:
            nxt = en[0] if len(en) == 1 else self._choose(en, me)
            self.sem[nxt].release()
        elif all(s == "finished" for s in self.status):
            self.done.release()
        else:
            self.deadlock = True
            self._abort()

    def _main(self, i):
        self.sem[i].acquire()
        me = get_ident()
        self.idents[me] = i
        ACTIVE[me] = self
        try:
            if not self.aborting:
                self.results[i] = ("ok", self.bodies[i]())
        except Abort:
            self.results[i] = ("aborted",)
        except BaseException as e:
            self.results[i] = ("exc", e)
        finally:
            del self.idents[me]
            ACTIVE.pop(me, None)
            self._finish(i)

    def run(self):
        ths = []
        for i in range(self.n):
            t = threading.Thread(target=self._main, args=(i,), daemon=True)
            t.start()
            ths.append(t)
        # first decision: who starts (free)
        en = self._enabled()
        first = en[0] if len(en) == 1 else self._choose(en, -1)
        self.sem[first].release()
        self.done.acquire()
        for t in ths:
            t.join()
        return self

def point():
    """Explicit scheduling point in harness code."""
    ex = ACTIVE.get(get_ident())
    if ex is not None:
        ex.point()

def explore(make, bound, part=0, nparts=1, deadlock_key=None):
    """make() -> (bodies, judge).  judge(execution) raises mc.Violation.  Runs every schedule.
    deadlock_key: key of a listed finding; deadlocks are reported under it after all other schedules were judged."""
    deadlocked = None
    if not _on:
        start()
    for _ in range(2):      # settle caches and instrumentation, so that executions are deterministic
        Execution(make()[0], {}, bound).run()
    stack = [()]
    root = True
    count = 0
    while stack:
        dev = stack.pop()
        bodies, judge = make()
        ex = Execution(bodies, dict(dev), bound).run()
        count += 1
        if ex.diverged:
            mc.C.diverged = getattr(mc.C, 'diverged', 0) + 1
            continue
        if not (root and part != 0):
            mc.trace()
            mc.step(ex.step)
            sched = [(k, c) for k, (en, c, d, p, cost) in enumerate(ex.log) if c != d]
            try:
                if ex.deadlock and deadlock_key:
                    deadlocked = deadlocked or f"deadlock: {ex.results!r} [schedule deviations {sched}]"
                    continue_judging = False
                else:
                    continue_judging = True
                if ex.deadlock and not deadlock_key:
                    raise mc.Violation("deadlock: " + repr(ex.results))
                if ex.livelock:
                    raise mc.Violation("no termination within step bound")
                if continue_judging:
                    judge(ex)
            except mc.Violation as v:
                raise mc.Violation(f"{v} [schedule deviations {sched}]", v.key)
            mc.state(tuple((r[0], repr(r[1]) if len(r) > 1 else None) for r in ex.results))
        start = dev[-1][0] + 1 if dev else 0
        new = []
        for k in range(start, len(ex.log)):
            en, c, d, p, cost = ex.log[k]
            if p + cost > bound:
                continue
            for alt in en:
                if alt != d:
                    new.append(dev + ((k, alt),))
        if root and nparts > 1:
            new = [x for j, x in enumerate(new) if j % nparts == part]
        root = False
        stack.extend(new)
        ex = bodies = judge = None      # nothing of this execution may stay alive during the next
    if deadlocked:
        raise mc.Violation(deadlocked, deadlock_key)
    return count
