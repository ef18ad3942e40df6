"""N02 REPL server: control channel, sessions, jobs.  Mostly through the public interface: a real server on
loopback, real sessions on PTYs, real control connections; jobs and redirected streams under the controlled scheduler."""
from lib import mc, sched
sched.install()
import contextlib, io, itertools, json, os, re, rlcompleter, socket, struct, sys, threading, time

class Recorder:
    """stdout of the server: keeps only what the sessions print on it on purpose"""
    def __init__(self): self.text = []
    def write(self, s):
        if "SP:" in s: self.text.append(s)
        return len(s)
    def flush(self): pass
    def isatty(self): return False
    encoding = "utf-8"; errors = "strict"
REC = Recorder()

# ------------------------------------------------------------ threads started by the code under test
_RealThread = threading.Thread
class Thread(_RealThread):
    """A thread started inside a controlled execution becomes one of its controlled threads."""
    _mc = None
    def start(self):
        ex = sched.ACTIVE.get(sched.get_ident())
        if ex is None:
            return super().start()
        if self._mc is not None: raise RuntimeError("threads can only be started once")
        slot = ex.slots.pop(0)
        self._mc = slot
        slot["thread"] = self
        slot["alive"] = True
        slot["go"].release()
    def is_alive(self):
        return self._mc["alive"] if self._mc else super().is_alive()
    def join(self, timeout=None):
        if not self._mc: return super().join(timeout)
        if timeout is None:
            self._mc["done"].acquire(); self._mc["done"].release()
def slot():
    s = {"go": sched.CoopLock(), "done": sched.CoopLock(), "alive": False, "thread": None}
    s["go"]._l.acquire(); s["done"]._l.acquire()
    return s
def slot_body(s):
    def body():
        s["go"].acquire()
        t, me = s["thread"], sched.get_ident()
        saved = threading._active.get(me)
        threading._active[me] = t
        try:
            t.run()
        finally:
            threading._active[me] = saved
            s["alive"] = False
            s["done"].release()
    return body
threading.Thread = Thread

try:
    import mcpyrate.repl.console    # may wrap the standard streams
except ImportError:
    pass
_out = sys.stdout
sys.stdout = REC
try:
    from unpythonic.net import server
    from unpythonic.net.client import ControlClient
    from unpythonic.net.msg import encodemsg, MessageDecoder
    from unpythonic.net.util import socketsource
    from unpythonic.collections import ThreadLocalBox, Shim
finally:
    sys.stdout = _out
sched.start(('/net/server.py', '/collections.py'))
bg, fg = server.bg, server.fg

WAIT = 25.0
PTY = True
try:
    _m, _s = os.openpty(); os.ttyname(_s); os.close(_m); os.close(_s)
except OSError:
    PTY = False      # no pseudo-terminals here: the spaces that need sessions are empty

# ------------------------------------------------------------ one server per worker process
def free_port():
    s = socket.socket(); s.bind(("127.0.0.1", 0)); p = s.getsockname()[1]; s.close()
    return p

class World:
    pid = None
    def get(self):
        if self.pid != os.getpid():
            self.pid = os.getpid()
            self.ns = {"foo_a": 1, "foo_b": 2}
            for _ in range(20):
                self.rp, self.cp = free_port(), free_port()
                try:
                    server.start(locals=self.ns, repl_port=self.rp, control_port=self.cp, banner="")
                    break
                except OSError:
                    continue
            else:
                raise mc.Violation("cannot start the server")
        return self
W = World()

_session = threading.Lock()      # one at a time: the accept queue of the server is short
def connect(port):
    s = socket.create_connection(("127.0.0.1", port), timeout=WAIT)
    s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
    return s

def recv(s, what):
    try:
        return s.recv(65536)
    except TimeoutError:
        raise mc.Violation(f"no answer: {what}")
    except ConnectionResetError:
        return b""

PS1, PS2 = ">>>> ", ".... "
class Session:
    def __init__(self):
        with _session:          # wait for it to be accepted before opening the next
            self.s = connect(W.get().rp)
            head = self.until_prompt()
        m = re.match(r"REPL session (\d+) connected\.\n", head)
        mc.check(m, lambda: f"a session starts with {head!r}")
        self.id = int(m.group(1))
        self.head = head
    def until_prompt(self):
        buf = b""
        while not buf.endswith((PS1.encode(), PS2.encode())):
            d = recv(self.s, f"session output, so far {buf!r}")
            if not d: return buf.decode()
            buf += d
        return buf.decode()
    def send(self, line):
        self.s.sendall((line + "\n").encode())
    def line(self, line):
        self.send(line)
        return self.until_prompt()
    def close(self):
        self.s.close()
    def rest(self):
        buf = b""
        while True:
            d = recv(self.s, f"end of session, so far {buf!r}")
            if not d: return buf.decode()
            buf += d

class Control:
    def __init__(self):
        with _session:
            self.s = connect(W.get().cp)
            self.d = MessageDecoder(socketsource(self.s))
            self.ask({"command": "DescribeServer"})
    def reply(self):
        import select
        if not self.d.get_buffered_data().startswith(b"\xff"):
            if not select.select([self.s], [], [], WAIT)[0]: raise mc.Violation("no reply on the control channel")
        r = self.d.decode()
        return None if r is None else json.loads(r)
    def ask(self, req):
        self.s.sendall(encodemsg(json.dumps(req).encode()))
        return self.reply()
    def close(self): self.s.close()

def gone(ctl, sid, what):
    """wait until the session is no longer active"""
    t = time.monotonic() + WAIT
    while ctl.ask({"command": "PairWithSession", "id": sid})["status"] == "ok":
        mc.check(time.monotonic() < t, lambda: f"the session does not end: {what}")
        time.sleep(0.02)

# ------------------------------------------------------------ control channel
REQ = ["D", "Pa", "Pb", "Px", "Pu", "Pm", "Ps", "T0", "T1", "T2", "Tm", "Ti", "K", "U", "M", "L", "N", "S", "C"]
ENV = ["qa", "da", "qb"]        # session a quits / its client disconnects / session b quits
def request(r, a, b):
    return {"D": {"command": "DescribeServer"},
            "Pa": {"command": "PairWithSession", "id": a}, "Pb": {"command": "PairWithSession", "id": b},
            "Px": {"command": "PairWithSession", "id": 10**9}, "Pu": {"command": "PairWithSession", "id": [a]},
            "Pm": {"command": "PairWithSession"}, "Ps": {"command": "PairWithSession", "id": str(a)},
            "T0": {"command": "TabComplete", "text": "foo_", "state": 0},
            "T1": {"command": "TabComplete", "text": "foo_", "state": 1},
            "T2": {"command": "TabComplete", "text": "foo_", "state": 2},
            "Tm": {"command": "TabComplete", "text": "foo_"}, "Ti": {"command": "TabComplete", "text": 5, "state": 0},
            "K": {"command": "KeyboardInterrupt"}, "U": {"command": "Reboot"}, "M": {"cmd": "DescribeServer"},
            "L": [1, 2], "N": 3, "S": "command", "C": {"command": ["DescribeServer"]}}[r]

class CtlModel:
    def __init__(self):
        self.live = {"a": True, "b": True}
        self.paired = None
        self.comp = rlcompleter.Completer({"foo_a": 1, "foo_b": 2})
    def __call__(self, r):
        """-> (ok?, completion or None, interrupted session)"""
        if r == "D": return True, None, None
        if r in ("Pa", "Pb"):
            if not self.live[r[1]]: return False, None, None
            self.paired = r[1]
            return True, None, None
        if r in ("T0", "T1", "T2", "Ti"):
            req = request(r, 0, 0)
            try: return True, self.comp.complete(req["text"], req["state"]), None
            except Exception: return False, None, None
        if r == "K":
            if self.paired and self.live[self.paired]: return True, None, self.paired
        return False, None, None

def judge_reply(hist, r, reply, ok, comp, m):
    mc.check(isinstance(reply, dict), lambda: f"{hist}: {r} gives {reply!r}")
    mc.check(reply.get("status") == ("ok" if ok else "failed"), lambda: f"{hist}: {r} gives {reply!r}, expected {'ok' if ok else 'failed'} (paired with {m.paired}, live {m.live})")
    if not ok: mc.check("reason" in reply, lambda: f"{hist}: {r} is refused without a reason")
    if ok and r == "D":
        mc.check(reply["prompts"] == {"ps1": PS1, "ps2": PS2}, lambda: f"prompts {reply!r}")
        mc.check(set(reply["supported_commands"]) == {"DescribeServer", "PairWithSession", "TabComplete", "KeyboardInterrupt"}, lambda: f"{reply!r}")
    if ok and r.startswith("T"):
        mc.check(reply["result"] == comp, lambda: f"{hist}: {r} completes to {reply['result']!r}, expected {comp!r}")

INT = "\nKeyboardInterrupt\n" + PS1
def hit(sess, expected, what):
    """does the session see the interrupt (which arrives when its read returns)?"""
    got = sess.line("")
    want = INT if expected else PS1
    mc.check(got == want, lambda: f"{what}: session prints {got!r}, expected {want!r}")

def ctl_gen(tier):
    n = 3 if tier == "quick" else 4
    hs = [list(h) for k in range(1, n + 1) for h in itertools.product(REQ if k < 4 else ["Pa", "Pb", "Px", "T0", "T1", "K", "U", "L"], repeat=k)]
    for mode in ("step", "all", "bytes"):
        sel = [h for h in hs if mode == "step" or len(h) < n]
        for i in range(0, len(sel), 60): yield [mode, sel[i:i + 60]]
    if not PTY: return
    core = ["Pa", "Pb", "Px", "K", "T0"] + ENV
    es = [list(h) for k in range(1, n + 2) for h in itertools.product(core, repeat=k) if set(h) & set(ENV) and all(h.count(e) <= 1 for e in ENV) and not {"qa", "da"} <= set(h)]
    if tier == "quick": es = [h for h in es if len(h) < 4 or h[-1] == "K"]
    for i in range(0, len(es), 30): yield ["env", es[i:i + 30]]

def ctl_run(case):
    mode, hists = case
    if not PTY: return
    if mode != "env":
        a, b = Session(), Session()
        try:
            for h in hists: one_history(mode, h, a, b)
        finally:
            a.close(); b.close()
        return
    bad = []
    def job(h):
        ss = []
        try:
            ss += [Session(), Session()]
            one_history(mode, h, *ss)
        except BaseException as e:
            bad.append(e)
        finally:
            for s in ss: s.close()
    ths = [_RealThread(target=job, args=(h,), daemon=True) for h in hists]
    for t in ths: t.start()
    for t in ths: t.join()
    if bad: raise bad[0]

def one_history(mode, h, a, b):
    c = Control()
    m = CtlModel()
    intr = set()
    try:
        if mode in ("all", "bytes"):
            stream = b"".join(encodemsg(json.dumps(request(r, a.id, b.id)).encode()) for r in h)
            if mode == "all": c.s.sendall(stream)
            else:
                for k in range(len(stream)): c.s.sendall(stream[k:k + 1])
            c.s.shutdown(socket.SHUT_WR)
            for r in h:
                ok, comp, x = m(r)
                judge_reply(h, r, c.reply(), ok, comp, m)
                if x: intr.add(x)
            mc.check(c.reply() is None, lambda: f"{h}: more replies than requests")
            hit(a, "a" in intr, f"{h}"); hit(b, "b" in intr, f"{h}")
            mc.step(len(h))
        else:
            for r in h:
                if r in ENV:
                    s = a if r[1] == "a" else b
                    if r[0] == "q": s.send("quit()")
                    else: s.close()
                    ctl2 = Control()
                    try: gone(ctl2, s.id, f"{h}")
                    finally: ctl2.close()
                    m.live[r[1]] = False
                    continue
                ok, comp, x = m(r)
                judge_reply(h, r, c.ask(request(r, a.id, b.id)), ok, comp, m)
                if r == "K":
                    if m.live["a"]: hit(a, x == "a", f"{h}")
                    if m.live["b"]: hit(b, x == "b", f"{h}")
                mc.step()
                mc.state((m.paired, tuple(m.live.values()), r, ok))
        mc.trace()
    finally:
        c.close()

# ------------------------------------------------------------ control client
REPLIES = [{"status": "ok", "result": "foo", "prompts": {}}, {"status": "ok", "result": None}, {"status": "failed", "reason": "no"},
           {"status": "failed"}, {"status": "maybe"}, {}, [], 5, "x", b"not json", b"\xff\xfe", None]   # None: closed
CALLS = [("describe_server", (), {"command": "DescribeServer"}), ("pair_with_session", (7,), {"command": "PairWithSession", "id": 7}),
         ("complete", ("fo", 0), {"command": "TabComplete", "text": "fo", "state": 0}), ("send_kbinterrupt", (), {"command": "KeyboardInterrupt"})]
def client_gen(tier):
    n = 2 if tier == "quick" else 3
    for rs in itertools.product(range(len(REPLIES)), repeat=n):
        yield list(rs)
def client_run(case):
    for calls in itertools.product(range(len(CALLS)), repeat=len(case)):
        for eager in (0, 1):        # replies already waiting / sent after the request
            x, y = socket.socketpair()
            x.settimeout(WAIT); y.settimeout(WAIT)
            try:
                cl = ControlClient(x)
                reqs = MessageDecoder(socketsource(y))
                enc = [None if REPLIES[i] is None else encodemsg(REPLIES[i] if isinstance(REPLIES[i], bytes) else json.dumps(REPLIES[i]).encode()) for i in case]
                if None in enc: enc = enc[:enc.index(None)]
                closed = len(enc) < len(case)
                if eager:
                    y.sendall(b"".join(enc))
                    if closed: y.shutdown(socket.SHUT_WR)
                for k, ci in enumerate(calls):
                    name, args, req = CALLS[ci]
                    if not eager:
                        if k < len(enc): y.sendall(enc[k])
                        elif k == len(enc): y.shutdown(socket.SHUT_WR)
                    with contextlib.redirect_stdout(io.StringIO()):
                        got = getattr(cl, name)(*args)
                    rep = REPLIES[case[k]] if k < len(enc) else None
                    ok = isinstance(rep, dict) and rep.get("status") == "ok"
                    want = None if not ok else rep["result"] if name == "complete" else rep
                    mc.check(got == want, lambda: f"calls {[CALLS[c][0] for c in calls]} replies {[REPLIES[i] for i in case]}: call {k} gives {got!r}, expected {want!r}")
                    sent = reqs.decode()
                    mc.check(json.loads(sent) == req, lambda: f"{name}{args} sends {sent!r}")
                    mc.step()
                mc.trace()
            finally:
                x.close(); y.close()
    mc.state(case)

# ------------------------------------------------------------ sessions: streams, shared namespace
# a line: (text, function of (namespace model, tag) -> expected output after it, including the prompt)
def S_print(ns, me): return f"{me}1\n{PS1}"
def S_err(ns, me): return f"{me}e\n{PS1}"
def S_set(ns, me): ns["x"] = me; return PS1
def S_get(ns, me): return f"'{ns['x']}'\n{PS1}" if "x" in ns else "NameError"
def S_more(ns, me): return PS2
def S_two(ns, me): return f"{me}2\n{PS1}"
def S_zero(ns, me): return "ZeroDivisionError"
def S_syn(ns, me): return "SyntaxError"
def S_sp(ns, me): ns.setdefault("sp", []).append(f"SP:{me}"); return PS1
def S_bg(ns, me): ns["t"] = me; return PS1
def S_fg(ns, me):
    if "t" not in ns: return "NameError"
    v = ns["t"]
    if v is None: return "ValueError"
    ns["t"] = None
    return f"'{v}'\n{PS1}"
def S_bgx(ns, me): ns["u"] = me; return PS1
def S_fgx(ns, me):
    if "u" not in ns: return "NameError"
    v = ns["u"]; ns["u"] = None
    return "LookupError" if v else "ValueError"
def S_quit(ns, me): return ""
def S_thr(ns, me): ns.setdefault("sp", []).append(f"SP:{me}t"); return PS1
SCRIPTS = {
    "print": [("print('{me}1')", S_print), ("print('{me}1')", S_print)],
    "err": [("import sys; _ = sys.stderr.write('{me}e\\n')", S_err), ("print('{me}1')", S_print)],
    "set": [("x = '{me}'", S_set), ("x", S_get)],
    "get": [("x", S_get), ("x", S_get)],
    "block": [("if 1:", S_more), ("  print('{me}2')", S_more), ("", S_two)],
    "fail": [("1/0", S_zero), ("print('{me}1')", S_print)],
    "syntax": [("1 +", S_syn), ("print('{me}1')", S_print)],
    "server": [("server_print('SP:{me}')", S_sp), ("print('{me}1')", S_print)],
    "bg": [("t = bg(lambda: '{me}'); t.join()", S_bg), ("fg(t)", S_fg)],
    "fg": [("fg(t)", S_fg), ("fg(t)", S_fg)],
    "bgx": [("def f(): raise LookupError('{me}')", S_more), ("", lambda ns, me: PS1), ("u = bg(f); u.join()", S_bgx), ("fg(u)", S_fgx)],
    "fgx": [("fg(u)", S_fgx)],
    "thread": [("import threading; h = threading.Thread(target=lambda: print('SP:{me}t')); h.start(); h.join()", S_thr), ("print('{me}1')", S_print)],
    "quit": [("print('{me}1')", S_print), ("quit()", S_quit)],
    "exit": [("exit()", S_quit)],
}
def sess_gen(tier):
    if not PTY: return
    names = list(SCRIPTS)
    for a, b in itertools.product(names, repeat=2): yield [a, b]
    if tier != "quick":
        for a, b, c in itertools.product(["print", "set", "get", "bg", "fg", "quit", "block"], repeat=3): yield [a, b, c]

def orders(lens):
    if not any(lens): yield (); return
    for i, n in enumerate(lens):
        if n:
            for rest in orders(lens[:i] + (n - 1,) + lens[i + 1:]): yield (i,) + rest

def sess_run(case):
    w = W.get()
    scripts = [SCRIPTS[n] for n in case]
    late = []
    try:
        sess_orders(case, w, scripts, late)
        for order, s in late:
            got = s.rest()
            mc.check(got == "", lambda: f"{case} order {order}: quit prints {got!r}")
    finally:
        for order, s in late: s.close()

def sess_orders(case, w, scripts, late):
    for order in orders(tuple(len(s) for s in scripts)):
        for k in ("x", "t", "u"): w.ns.pop(k, None)
        ns = {}
        del REC.text[:]
        ss = [Session() for _ in scripts]
        try:
            mc.check(len({s.id for s in ss}) == len(ss), "two sessions with the same id")
            pos = [0] * len(ss)
            for i in order:
                me = "ABC"[i]
                text, f = scripts[i][pos[i]]; pos[i] += 1
                want = f(ns, me)
                if f is S_quit:
                    ss[i].send(text.format(me=me))
                    late.append((order, ss[i]))
                    continue
                got = ss[i].line(text.format(me=me))
                if want.endswith("Error"): good = want in got and got.endswith(PS1)
                else: good = got == want
                mc.check(good, lambda: f"{case} order {order}: session {me} on {text!r} prints {got!r}, expected {want!r}")
                mc.step()
            got = "".join(REC.text)
            want = "".join(t for t in ns.get("sp", ()))
            mc.check(got == want, lambda: f"{case} order {order}: the server prints {got!r}, expected {want!r}")
            for i, s in enumerate(ss):      # nothing more, from anyone
                if S_quit in [f for _, f in scripts[i]]: continue
                got = s.line("")
                mc.check(got in (PS1, PS2), lambda: f"{case} order {order}: session {'ABC'[i]} finally prints {got!r}")
            mc.state((case, order, repr(sorted(map(str, ns.items())))))
            mc.trace()
        finally:
            for s in ss:
                if not any(s is x for _, x in late): s.close()

# ------------------------------------------------------------ disconnection at every point, large transfers
TEXTS = ["x = 1\ny = 'ab' + str(2)\n", "if True:\n  def f(a):\n    return a\n\n", "s = '''\nline\n'''\n", "foo(\n(1,\n", "v = input()\nprint(v)\n",
         "print('z' * 20000)\nprint('w')\n", "{'a': [1, # c\n \"q\n"]
def disc_gen(tier):
    if not PTY: return
    for t in range(len(TEXTS)):
        for how in ("close", "reset", "half"):
            for wait in (0, 1):
                yield [t, how, wait]
def disc_run(case):
    t, how, wait = case
    text = TEXTS[t].encode()
    ctl = Control()
    pend = []
    for k in range(len(text) + 1):
        s = connect(W.get().rp)
        buf = b""
        while b"\n" not in buf: buf += recv(s, "session header")
        sid = int(re.match(rb"REPL session (\d+) connected", buf).group(1))
        if wait:
            while not buf.endswith(PS1.encode()): buf += recv(s, "first prompt")
        s.sendall(text[:k])
        if how == "half": s.shutdown(socket.SHUT_WR)
        else:
            if how == "reset": s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            s.close(); s = None
        pend.append((k, sid, s))
        mc.step()
    for k, sid, s in pend:
        if s is not None:
            while recv(s, f"end of the session after input {text[:k]!r}"): pass
            s.close()
        gone(ctl, sid, f"client disconnected ({how}) after input {text[:k]!r}")
        mc.state((case, k)); mc.trace()
    ctl.close()

def bulk_gen(tier):
    if not PTY: return
    for n in (1, 10, 100, 1000, 4000):
        for line in range(3):
            for end in ("quit", "half"):
                yield [n, line, end]
def bulk_run(case):
    n, line, end = case
    line, out = [("print('x' * 1000)", "x" * 1000 + "\n"), ("7", "7\n"), ("_ = 0", "")][line]
    s = Session()
    def wr():
        try:
            s.s.sendall(((line + "\n") * n + ("quit()\n" if end == "quit" else "")).encode())
            if end == "half": s.s.shutdown(socket.SHUT_WR)
        except OSError: pass
    th = _RealThread(target=wr, daemon=True); th.start()
    got = s.rest()
    if end == "quit":
        want = (out + PS1) * n
        mc.check(got == want, lambda: f"{n} x {line!r}, quit(): {len(got)} characters of output, expected {len(want)}; ends with {got[-60:]!r}")
    ctl = Control()
    gone(ctl, s.id, f"{case}")
    ctl.close(); s.close(); th.join(WAIT)
    mc.state(case); mc.step(n)

# ------------------------------------------------------------ start and stop
def start_gen(tier):
    for h in mc.seqs(["start", "busy_repl", "busy_control", "same", "stop"], 3 if tier == "quick" else 4, 1):
        yield list(h)
def start_run(case):
    pid = os.fork()      # the server is one per process
    if pid == 0:
        code = 1
        try:
            sys.stdin, sys.stdout, sys.stderr = SAVED
            running = None
            ns = {}
            for op in case:
                busy = socket.socket(); busy.bind(("127.0.0.1", 0)); busy.listen(1)
                bp = busy.getsockname()[1]
                if op == "stop":
                    server.stop()
                    if running is not None:
                        for p in running:
                            try: socket.create_connection(("127.0.0.1", p), timeout=5).close(); os._exit(2)
                            except ConnectionRefusedError: pass
                    running = None
                else:
                    rp, cp = free_port(), free_port()
                    if op == "busy_repl": rp = bp
                    if op == "busy_control": cp = bp
                    try:
                        server.start(locals=ns, repl_port=rp, control_port=cp, banner="")
                    except RuntimeError:
                        if running is None: os._exit(3)
                    except OSError:
                        if running is not None or not op.startswith("busy"): os._exit(4)
                        try: socket.create_connection(("127.0.0.1", cp if op == "busy_repl" else rp), timeout=5).close(); os._exit(5)
                        except ConnectionRefusedError: pass
                    else:
                        if running is not None or op.startswith("busy"): os._exit(6)
                        running = (rp, cp)
                        for p in running: socket.create_connection(("127.0.0.1", p), timeout=5).close()
                if running is None and (sys.stdin, sys.stdout, sys.stderr) != SAVED: os._exit(7)
                if running is None and hasattr(sys, "ps1"): os._exit(8)
                busy.close()
            code = 0
        except BaseException:
            code = 9
        finally:
            os._exit(code)
    code = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
    what = {2: "a stopped server still accepts connections", 3: "start refused although no server runs", 4: "start fails", 5: "a failed start leaves a server behind",
            6: "start succeeds although it must not", 7: "standard streams not restored", 8: "sys.ps1 not restored", 9: "unexpected exception"}
    mc.check(code == 0, lambda: f"{case}: {what.get(code, code)}")
    mc.step(len(case)); mc.state(case)
SAVED = sys.stdin, REC, sys.stderr

# ------------------------------------------------------------ background jobs under all schedules
class Boom(Exception): pass
def jobs_gen(tier):
    q = tier == "quick"
    for kind in ("value", "none", "exc", "thread"):
        for shape, b in ((["bg", "fg1", "fg1"], 1), (["bgfg", "fg1"], 2), (["bg", "fg2"], 1), (["bgfg2"], 3), (["bg", "fgj"], 1), (["bg", "fgj", "fg1"], 1),
                         (["bgfgj", "fgj"], 1), (["bg", "bg2"], 1)):
            if kind in ("none", "thread") and shape != ["bgfg2"]: continue
            n = 1 if len(shape) == 1 else 8
            for part in range(n): yield [kind, shape, b if q else b + 1, part, n]
def jobs_run(case):
    kind, shape, bound, part, nparts = case
    njobs = 2 if "bg2" in shape else 1
    def make():
        box, log, slots = [], [], [slot() for _ in range(njobs)]
        val = {"value": "v", "none": None, "exc": Boom("b"), "thread": None}[kind]
        def thunk():
            sched.point()
            if kind == "exc": raise val
            return val if kind != "thread" else box[0] if box else None
        ready = sched.CoopLock(); ready._l.acquire()
        def start(name):
            t = bg(thunk)
            if name == "bg":
                box.append(t); ready.release()
            else: log.append(("other", t))
            return t
        def collect(j=False):
            ready.acquire(); ready.release()
            t = box[0]
            if j: t.join()
            dead = not t.is_alive()
            try: r = fg(t)
            except Boom as e: out = ("exc", e is val)
            except ValueError: out = ("gone",)
            else: out = ("running",) if r is t and kind != "thread" else ("ok", r == val if kind != "thread" else True)
            log.append((out, dead))
            return out
        def body(n):
            def f():
                if n.startswith("bg"): start("bg2" if n == "bg2" else "bg")
                if n in ("fg1", "bgfg"): collect()
                if n in ("fg2", "bgfg2"): collect(); collect()
                if n in ("fgj", "bgfgj"): collect(True)
            return f
        bodies = [body(n) for n in shape] + [slot_body(s) for s in slots]
        bodies = [wrapslots(b, slots) for b in bodies]
        def judge(ex):
            for r in ex.results:
                mc.check(r[0] == "ok", lambda: f"{shape}/{kind}: {ex.results!r}")
            outs = [x for x in log if x[0] != "other"]
            delivered = [o for o, d in outs if o[0] in ("ok", "exc")]
            if kind == "thread": return
            mc.check(len(delivered) <= 1, lambda: f"{shape}/{kind}: result delivered {len(delivered)} times: {outs}")
            mc.check(all(o[1] for o in delivered), lambda: f"{shape}/{kind}: wrong result {outs}")
            mc.check(all((o[0] == "exc") == (kind == "exc") for o in delivered), lambda: f"{shape}/{kind}: {outs}")
            mc.check(not any(o == ("running",) and d for o, d in outs), lambda: f"{shape}/{kind}: a finished job is reported as running: {outs}")
            mc.check(delivered or not any(o == ("gone",) for o, d in outs), lambda: f"{shape}/{kind}: result lost: {outs}")
            t = box[0]
            try: r = fg(t); fin = ("ok", r == val and r is not t)
            except Boom as e: fin = ("exc", e is val)
            except ValueError: fin = ("gone",)
            want = ("gone",) if delivered else ("exc" if kind == "exc" else "ok", True)
            mc.check(fin == want, lambda: f"{shape}/{kind}: after {outs}, collecting gives {fin}, expected {want}")
            for tag, t in [x for x in log if x[0] == "other"]:
                try: r = fg(t); fin = ("ok", r == val)
                except Boom as e: fin = ("exc", e is val)
                mc.check(fin == ("exc" if kind == "exc" else "ok", True), lambda: f"{shape}: other job gives {fin}")
        return bodies, judge
    sched.explore(make, bound, part, nparts)
def wrapslots(b, slots):
    def f():
        ex = sched.ACTIVE[sched.get_ident()]
        ex.slots = slots
        return b()
    return f

def misuse_gen(tier):
    yield ["misuse"]
def misuse_run(case):
    for x in (None, 1, "t", object(), lambda: 1):
        mc.check(mc.outcome(fg, x) == ("exc", "TypeError"), lambda: f"fg({x!r})")
    t = Thread(target=lambda: None)
    mc.check(mc.outcome(fg, t) == ("exc", "ValueError"), "fg of a foreign thread")
    mc.step(6)

# ------------------------------------------------------------ redirected streams
class Sink:
    def __init__(self, n): self.n, self.text = n, []
    def write(self, s): self.text.append(s)
def streams_gen(tier):
    prog = [["s", "w"], ["w", "s", "w"], ["w", "w"], ["s", "w", "c", "w"], ["s", "w", "s2", "w"]]
    for p in itertools.product(range(len(prog)), repeat=2): yield [[prog[i] for i in p], 2 if tier == "quick" else 3]
    if tier != "quick":
        for p in itertools.product(range(3), repeat=3): yield [[prog[i] for i in p], 2]
def streams_run(case):
    progs, bound = case
    def make():
        main = Sink("main")
        box = ThreadLocalBox(main)
        shim = Shim(box)
        sinks = [[Sink(f"{i}"), Sink(f"{i}'")] for i in range(len(progs))]
        def body(i):
            def f():
                for k, op in enumerate(progs[i]):
                    if op == "s": box << sinks[i][0]
                    elif op == "s2": box << sinks[i][1]
                    elif op == "c": box.clear()
                    else: shim.write(f"{i}.{k}")
            return f
        def judge(ex):
            for r in ex.results: mc.check(r[0] == "ok", lambda: f"{progs}: {ex.results!r}")
            tomain = []
            for i, p in enumerate(progs):
                want, cur = {0: [], 1: [], None: []}, None
                for k, op in enumerate(p):
                    if op == "s": cur = 0
                    elif op == "s2": cur = 1
                    elif op == "c": cur = None
                    else: want[cur].append(f"{i}.{k}")
                for j in (0, 1):
                    mc.check(sinks[i][j].text == want[j], lambda: f"{progs}: stream {j} of thread {i} gets {sinks[i][j].text}, expected {want[j]}")
                mine = [x for x in main.text if x.startswith(f"{i}.")]
                mc.check(mine == want[None], lambda: f"{progs}: default stream gets {mine} from thread {i}, expected {want[None]}")
        return [body(i) for i in range(len(progs))], judge
    sched.explore(make, bound)

SPACES = [
    mc.Space("control", ctl_gen, ctl_run, f"request histories of length <=3 (thorough 4) over {len(REQ)} requests, sent one by one, pipelined and bytewise; length <=4 (5) with sessions ending in between", timeout=120),
    mc.Space("client", client_gen, client_run, f"control client: all sequences of 2 (3) calls against {len(REPLIES)} kinds of replies", timeout=60),
    mc.Space("sessions", sess_gen, sess_run, f"all pairs (thorough: and some triples) of {len(SCRIPTS)} session scripts in all interleavings of their lines", timeout=90),
    mc.Space("disconnect", disc_gen, disc_run, f"{len(TEXTS)} input texts cut at every byte by close, reset or half-close, before or after the first prompt", timeout=90),
    mc.Space("bulk", bulk_gen, bulk_run, "1 to 4000 pasted lines, small and large outputs, ended by quit or by end of input", timeout=90),
    mc.Space("startstop", start_gen, start_run, "histories of <=3 (4) start, stop and failing starts", timeout=60),
    mc.Space("jobs", jobs_gen, jobs_run, "bg/fg: all schedules with <=2 (3) preemptions of starter, worker and collectors", timeout=120),
    mc.Space("misuse", misuse_gen, misuse_run, "fg of something else"),
    mc.Space("streams", streams_gen, streams_run, "Shim over ThreadLocalBox: all schedules with <=2 (3) preemptions", timeout=60),
]
