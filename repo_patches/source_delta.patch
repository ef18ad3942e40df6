From f37793534b36019ada4e8eda2e1ae07cb6bee409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:38 +0000
Subject: [PATCH 001/126] fix: sym/gsym lookup could raise KeyError when the
 last reference died in another thread

---
 unpythonic/symbol.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/unpythonic/symbol.py b/unpythonic/symbol.py
index a9dccaa..ab638e3 100644
--- a/unpythonic/symbol.py
+++ b/unpythonic/symbol.py
@@ -70,13 +70,14 @@ class sym(Symbol):
         except KeyError:
             # But we still need to be careful to avoid race conditions.
             with _symbols_update_lock:
-                if name not in _symbols:
+                # Get a strong reference in one step; the last outside reference to an
+                # existing instance may die in another thread at any time.
+                instance = _symbols.get(name)
+                if instance is None:
                     # We were the first thread to acquire the lock.
                     # Make a strong reference to keep the new instance alive until construction is done.
                     instance = _symbols[name] = super().__new__(cls)
-                else:
-                    # Some other thread acquired the lock before us, and created the instance.
-                    instance = _symbols[name]
+                # else some other thread acquired the lock before us, and created the instance.
             return instance
 
     def __init__(self, name):
@@ -115,13 +116,12 @@ class gsym(Symbol):
             return _gensyms[uid]
         except KeyError:
             with _gensyms_update_lock:
-                if uid not in _gensyms:
+                # Provided that one of the `uuid` functions creates the
+                # `uid`, finding an existing instance here should only be possible
+                # when unpickling the same pickled gsym in several threads simultaneously.
+                instance = _gensyms.get(uid)
+                if instance is None:
                     instance = _gensyms[uid] = super().__new__(cls)
-                else:
-                    # Provided that one of the `uuid` functions creates the
-                    # `uid`, this case should only be possible when unpickling
-                    # the same pickled gsym in several threads simultaneously.
-                    instance = _gensyms[uid]
             return instance
 
     def __init__(self, uid, label):
-- 
2.43.0


From 6c259909a4655a8967c7b6e040ea2dcfbaf57d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:38 +0000
Subject: [PATCH 002/126] fix: Singleton instance lookup could raise KeyError
 when the last reference died in another thread

---
 unpythonic/singleton.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/unpythonic/singleton.py b/unpythonic/singleton.py
index 8cf7426..e811647 100644
--- a/unpythonic/singleton.py
+++ b/unpythonic/singleton.py
@@ -178,13 +178,14 @@ class Singleton(metaclass=ThereCanBeOnlyOne):
         except KeyError:
             # Then be careful to avoid race conditions.
             with _instances_update_lock:
-                if cls not in _instances:
+                # Get a strong reference in one step; the last outside reference to an
+                # existing instance may die in another thread at any time.
+                instance = _instances.get(cls)
+                if instance is None:
                     # We were the first thread to acquire the lock.
                     # Make a strong reference to keep the new instance alive until construction is done.
                     instance = _instances[cls] = super().__new__(cls)
-                else:
-                    # Some other thread acquired the lock before us, and created the instance.
-                    instance = _instances[cls]
+                # else some other thread acquired the lock before us, and created the instance.
             return instance
 
 
-- 
2.43.0


From 26262a3684ff07b459c30862c0990e5ea232a117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:38 +0000
Subject: [PATCH 003/126] fix: gmemoize could create several underlying
 generators when called concurrently

---
 unpythonic/gmemo.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/unpythonic/gmemo.py b/unpythonic/gmemo.py
index ecd14e6..b4c6ce2 100644
--- a/unpythonic/gmemo.py
+++ b/unpythonic/gmemo.py
@@ -92,12 +92,14 @@ def gmemoize(gfunc):
     See also ``imemoize``, ``fimemoize``.
     """
     memos = {}
+    memos_update_lock = RLock()
     @wraps(gfunc)
     def gmemoized(*args, **kwargs):
         k = tuplify_bindings(resolve_bindings(gfunc, *args, **kwargs))
-        if k not in memos:
-            # underlying generator instance, memo instance, lock instance
-            memos[k] = (gfunc(*args, **kwargs), [], RLock())
+        with memos_update_lock:  # exactly one thread creates the underlying generator
+            if k not in memos:
+                # underlying generator instance, memo instance, lock instance
+                memos[k] = (gfunc(*args, **kwargs), [], RLock())
         return _MemoizedGenerator(*memos[k])
     return gmemoized
 
-- 
2.43.0


From 072df365b1fbb07cfce2bfc1f615971ff8657c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:38 +0000
Subject: [PATCH 004/126] fix: a memoized generator instance shared by threads
 could repeat one item and skip another

---
 unpythonic/gmemo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpythonic/gmemo.py b/unpythonic/gmemo.py
index b4c6ce2..cce23b5 100644
--- a/unpythonic/gmemo.py
+++ b/unpythonic/gmemo.py
@@ -118,9 +118,9 @@ class _MemoizedGenerator:
     def __iter__(self):
         return self
     def __next__(self):
-        j = self.j
         memo = self.memo
         with self.lock:
+            j = self.j
             if j < len(memo):
                 result = memo[j]
             else:
-- 
2.43.0


From a53e764e6b20342fb9eb4eec61aaf7f4ddfd83f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:15 +0000
Subject: [PATCH 005/126] fix: pickle protocols 0 and 1 duplicated symbols and
 singletons

---
 unpythonic/singleton.py |  5 +++++
 unpythonic/symbol.py    | 10 ++++++++++
 2 files changed, 15 insertions(+)

diff --git a/unpythonic/singleton.py b/unpythonic/singleton.py
index e811647..a265a28 100644
--- a/unpythonic/singleton.py
+++ b/unpythonic/singleton.py
@@ -188,6 +188,11 @@ class Singleton(metaclass=ThereCanBeOnlyOne):
                 # else some other thread acquired the lock before us, and created the instance.
             return instance
 
+    # Pickle protocols 0 and 1 do not call `__new__` of the class; use at least protocol 2
+    # style, so that also those find/allocate the correct object instance.
+    def __reduce_ex__(self, protocol):
+        return super().__reduce_ex__(max(protocol, 2))
+
 
 # TODO: This won't work with classes that need another custom metaclass,
 # TODO: because then there's no unique most specific metaclass.
diff --git a/unpythonic/symbol.py b/unpythonic/symbol.py
index ab638e3..2b681fe 100644
--- a/unpythonic/symbol.py
+++ b/unpythonic/symbol.py
@@ -93,6 +93,11 @@ class sym(Symbol):
     def __getnewargs__(self):
         return (self.name,)
 
+    # Pickle protocols 0 and 1 do not call `__new__` of the class; use at least protocol 2
+    # style, so that also those find/allocate the correct object instance.
+    def __reduce_ex__(self, protocol):
+        return super().__reduce_ex__(max(protocol, 2))
+
     def __str__(self):
         return self.name
     def __repr__(self):
@@ -131,6 +136,11 @@ class gsym(Symbol):
     def __getnewargs__(self):
         return (self.uid, self.label)
 
+    # Pickle protocols 0 and 1 do not call `__new__` of the class; use at least protocol 2
+    # style, so that also those find/allocate the correct object instance.
+    def __reduce_ex__(self, protocol):
+        return super().__reduce_ex__(max(protocol, 2))
+
     def __str__(self):
         return f"gensym#{self.label}:{self.uid}"
     def __repr__(self):
-- 
2.43.0


From 4d63585688ee4dc18376c590cfd6a532d3cddc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:14 +0000
Subject: [PATCH 006/126] fix: tryf swallowed exceptions that no handler
 matches

---
 unpythonic/excutil.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/unpythonic/excutil.py b/unpythonic/excutil.py
index fc9c6b2..da23ed7 100644
--- a/unpythonic/excutil.py
+++ b/unpythonic/excutil.py
@@ -139,6 +139,7 @@ def tryf(body, *handlers, elsef=None, finallyf=None):
                         return handler(exception)
                     else:
                         return handler()
+        raise  # no handler matched
     else:
         if elsef is not None:
             return elsef()
-- 
2.43.0


From b437689bcf7ca7e78da5b748b330e72de4a598a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:14 +0000
Subject: [PATCH 007/126] fix: signal crashed if a declining handler had
 established handlers of its own

---
 unpythonic/conditions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/unpythonic/conditions.py b/unpythonic/conditions.py
index a02e853..8e7041b 100644
--- a/unpythonic/conditions.py
+++ b/unpythonic/conditions.py
@@ -505,7 +505,9 @@ class InvokeRestart(BaseException):
 
 def _find_handlers(cls):  # 0..n (though 0 is an error, handled at the calling end)
     _ensure_stacks()
-    for e in _stacks.handlers:
+    # The applicable handlers are those in effect when the signal is sent. A handler may
+    # itself establish handlers (mutating the stack) before it returns, so make a copy.
+    for e in tuple(_stacks.handlers):
         for t, handler in e:  # t: tuple or type
             if isinstance(t, tuple):
                 if any(issubclass(cls, x) for x in t):
-- 
2.43.0


From fc6e1736e1f4ca4fd144042f5940bc523f0e8e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:14 +0000
Subject: [PATCH 008/126] fix: warn lost the category when given a warning type
 instead of an instance

---
 unpythonic/conditions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/unpythonic/conditions.py b/unpythonic/conditions.py
index 8e7041b..c9676d6 100644
--- a/unpythonic/conditions.py
+++ b/unpythonic/conditions.py
@@ -846,6 +846,8 @@ def warn(condition, *, cause=None):
     with restarts(muffle=(lambda: None)):  # just for control, no return value
         with restarts(_proceed=(lambda: None)):  # for internal use by unpythonic.test.fixtures
             signal(condition, cause=cause, protocol=warn)
+        if safeissubclass(condition, BaseException):  # `warn(SomeWarning)`, canonize to an instance like `signal` does
+            condition = condition()
         if isinstance(condition, Warning):
             warnings.warn(condition, stacklevel=2)  # 2 to ignore our lispy `warn` wrapper.
         else:
-- 
2.43.0


From 74c57c549e1b1e1760481561dd47d94cfda403db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:14 +0000
Subject: [PATCH 009/126] fix: rebinding an inherited dynamic variable leaked
 between threads

---
 unpythonic/dynassign.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/unpythonic/dynassign.py b/unpythonic/dynassign.py
index 8fce245..dc838e2 100644
--- a/unpythonic/dynassign.py
+++ b/unpythonic/dynassign.py
@@ -26,7 +26,9 @@ def _getstack():
         # TODO: preferable to use the parent thread's current stack, but difficult to get.
         # Could monkey-patch threading.Thread.__init__ to record this information in self...
         with _mainthread_lock:
-            _L._stack = _mainthread_stack.copy()
+            # Copy also the scopes themselves, so that rebinding an inherited dynvar
+            # in one thread does not affect the others.
+            _L._stack = [scope.copy() for scope in _mainthread_stack.copy()]
     return _L._stack
 
 def _getobservers():
-- 
2.43.0


From 0febf2ced93c9118628b9b2156080016de2bf343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:29 +0000
Subject: [PATCH 010/126] fix: a restart invoking a restart of its own block
 crashed with an uncaught InvokeRestart

---
 unpythonic/conditions.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/unpythonic/conditions.py b/unpythonic/conditions.py
index c9676d6..4553b74 100644
--- a/unpythonic/conditions.py
+++ b/unpythonic/conditions.py
@@ -670,14 +670,19 @@ def restarts(**bindings):
     # class. This way the code is shorter, and our exception processing can use
     # the standard `try`/`except` construct.
     b = box(None)
+    invoked = None
     with Restarts(bindings):
         try:
             yield b
         except InvokeRestart as exc:
             if exc.restart.context is bindings:  # if it's ours
-                b << exc()
+                invoked = exc
             else:
                 raise  # unwind this level of call stack, propagate outwards
+    # The restart runs after unwinding, so it sees only the restarts (and handlers) established
+    # outside this block. Ours can no longer catch an `InvokeRestart`.
+    if invoked is not None:
+        b << invoked()
 
 def with_restarts(**bindings):
     """Alternate syntax. Use restarts with a `def` code block instead of a `with`.
-- 
2.43.0


From 5fa35fc9daf14540e9c6f203a67c8d2b2fae7505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:29 +0000
Subject: [PATCH 011/126] fix: raisef dropped a cause exception that evaluates
 as false

---
 unpythonic/excutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpythonic/excutil.py b/unpythonic/excutil.py
index da23ed7..1c43472 100644
--- a/unpythonic/excutil.py
+++ b/unpythonic/excutil.py
@@ -49,7 +49,7 @@ def raisef(exc, *, cause=None):
             and you would like to `raise ... from ...`, pass that other exception
             instance as `cause`. The default `None` performs a plain `raise ...`.
     """
-    if cause:
+    if cause is not None:
         raise exc from cause
     else:
         raise exc
-- 
2.43.0


From 4cdf326d2af4492b5a6879ff48f93c32c580e7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:05 +0000
Subject: [PATCH 012/126] fix: message decoder crashed or lost messages on
 malformed length fields and on full receive buffers

---
 unpythonic/net/msg.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/unpythonic/net/msg.py b/unpythonic/net/msg.py
index cc5d621..7426855 100644
--- a/unpythonic/net/msg.py
+++ b/unpythonic/net/msg.py
@@ -220,14 +220,15 @@ def decodemsg(buf, source):
         # The len(val) check prevents a junk flood attack.
         # The maximum value of the length has 4090 base-10 digits, all nines.
         # The 4096 is arbitrarily chosen, but matches the typical socket read size.
-        while len(val) < 4096:
-            j = val.find(b";")  # end of length-of-body field
+        while True:
+            j = val.find(b";", 5, 4096)  # end of length-of-body field
             if j != -1:  # found
                 break
+            if len(val) >= 4096:  # maximum length of length-of-body field exceeded, terminator not found.
+                raise MessageHeaderParseError
             val = read_more_input()
-        if j == -1:  # maximum length of length-of-body field exceeded, terminator not found.
+        if not val[5:j].isdigit():  # not a valid length
             raise MessageHeaderParseError
-        j = val.find(b";")
         body_len = int(val[5:j].decode("utf-8"))
         buf.set(val[(j + 1):])
         return body_len
-- 
2.43.0


From d09aafe73cb5bd9a10e253fef1abbe126746fca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:05 +0000
Subject: [PATCH 013/126] fix: streamsource ignored its chunksize argument

---
 unpythonic/net/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpythonic/net/util.py b/unpythonic/net/util.py
index 541a6c0..874aece 100644
--- a/unpythonic/net/util.py
+++ b/unpythonic/net/util.py
@@ -128,7 +128,7 @@ def streamsource(stream, chunksize=4096):
         raise TypeError(f"Expected a derivative of `IOBase`, got {type(stream)}")
     def stream_chunk_iterator():
         while True:
-            data = stream.read(4096)
+            data = stream.read(chunksize)
             if len(data) == 0:
                 return
             yield data
-- 
2.43.0


From 175e59e6b0c51c1c7e5906fa2a5d1470175440d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:14 +0000
Subject: [PATCH 014/126] fix: jumping into a trampolined bound method lost the
 instance

---
 unpythonic/tco.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/unpythonic/tco.py b/unpythonic/tco.py
index 16eb80d..1566a68 100644
--- a/unpythonic/tco.py
+++ b/unpythonic/tco.py
@@ -129,6 +129,7 @@ __all__ = ["jump", "trampolined"]
 
 from functools import wraps
 from sys import stderr
+from types import MethodType
 
 from .regutil import register_decorator
 from .lazyutil import islazy, passthrough_lazy_args, maybe_force_args
@@ -164,7 +165,12 @@ class _jump:
     """
     def __init__(self, target, args, kwargs):
         # IMPORTANT: don't let target bring along its trampoline if it has one
-        self.target = target._entrypoint if hasattr(target, "_entrypoint") else target
+        if hasattr(target, "_entrypoint"):
+            if isinstance(target, MethodType):  # the entrypoint is the raw function; keep the instance
+                target = MethodType(target._entrypoint, target.__self__)
+            else:
+                target = target._entrypoint
+        self.target = target
         self.args = args
         self.kwargs = kwargs
         self._claimed = False  # set when the instance is caught by a trampoline
-- 
2.43.0


From bee737df64e6811864454800d5671d836a07548b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:31 +0000
Subject: [PATCH 015/126] fix: gtco swallowed a TypeError raised while
 iterating over a tail-chained iterable

---
 unpythonic/gtco.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unpythonic/gtco.py b/unpythonic/gtco.py
index b5cccf3..5de4433 100644
--- a/unpythonic/gtco.py
+++ b/unpythonic/gtco.py
@@ -30,9 +30,10 @@ def gtco(generator):
         else:
             # usually the return value is None, but allow for an iterable
             try:
-                yield from x  # the last batch!
+                it = iter(x)
             except TypeError:
                 return x  # passthrough
+            return (yield from it)  # the last batch!
 
 def gtrampolined(gfunc):
     """Decorator for generator functions (i.e. definitions of generators).
-- 
2.43.0


From 1c2e2e2491916cb1d0f6dbe36ab225147e31fa0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:31 +0000
Subject: [PATCH 016/126] fix: fixtco passed the jumping function's arguments,
 not the jump target's, to bottom

---
 unpythonic/fix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpythonic/fix.py b/unpythonic/fix.py
index 92066ae..098a621 100644
--- a/unpythonic/fix.py
+++ b/unpythonic/fix.py
@@ -262,7 +262,7 @@ def _fix(bottom=typing.NoReturn, memo=True, *, tco):
                     for target in t.cleanup:
                         e.visited.remove(target)
                     v._claimed = True  # we have handled the jump, by terminating the infinite cycle.
-                    return bottom(v.target.__name__, *args, **kwargs)
+                    return bottom(v.target.__name__, *v.args, **v.kwargs)
                 # Just like the f_fix loop adds `f` to `visited` before calling it,
                 # we add the target to `visited` before we let the trampoline jump
                 # into it.
-- 
2.43.0


From b68dc7c311c350b320272103116106bb6e1f09f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:31 +0000
Subject: [PATCH 017/126] fix: fixtco ran one extra round of a cycle of jumps
 before detecting it

---
 unpythonic/fix.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unpythonic/fix.py b/unpythonic/fix.py
index 098a621..35eca87 100644
--- a/unpythonic/fix.py
+++ b/unpythonic/fix.py
@@ -216,7 +216,8 @@ def _fix(bottom=typing.NoReturn, memo=True, *, tco):
         @wraps(f)
         def f_fix(*args, **kwargs):
             e = _get_threadlocals()
-            me = (f_fix, tuplify_bindings(resolve_bindings(f, *args, **kwargs)))
+            # Use the raw function as the key, because that is what TCO jumps see as their target.
+            me = (f, tuplify_bindings(resolve_bindings(f, *args, **kwargs)))
             mrproper = not e.visited  # on outermost call, scrub visited clean at exit
             if me not in e.visited:
                 try:
-- 
2.43.0


From 9355901377c6e7e956e3503606a33cf29520201b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:31 +0000
Subject: [PATCH 018/126] fix: fixtco left stale in-progress marks behind if a
 nested chain of jumps raised

---
 unpythonic/fix.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/unpythonic/fix.py b/unpythonic/fix.py
index 35eca87..ad853b3 100644
--- a/unpythonic/fix.py
+++ b/unpythonic/fix.py
@@ -225,8 +225,12 @@ def _fix(bottom=typing.NoReturn, memo=True, *, tco):
                     e.tco_stack.append(env(target=f, cleanup=set()))  # harmless if no TCO
                     return f_memo(*args, **kwargs)
                 finally:
-                    e.tco_stack.pop()
-                    e.visited.clear() if mrproper else e.visited.remove(me)
+                    t = e.tco_stack.pop()
+                    if mrproper:
+                        e.visited.clear()
+                    else:
+                        e.visited.remove(me)
+                        e.visited.difference_update(t.cleanup)  # if the TCO chain raised
             else:  # cycle detected
                 return bottom(f_fix.__name__, *args, **kwargs)
         f_fix._entrypoint = f  # for information and for co-operation with TCO
-- 
2.43.0


From dcfb04a5eee3d2154a09e8a147a579030908c3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:23 +0000
Subject: [PATCH 019/126] fix: curry bound surplus positional arguments to
 keyword-only parameters

---
 unpythonic/arity.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/unpythonic/arity.py b/unpythonic/arity.py
index 1ffc460..8845365 100644
--- a/unpythonic/arity.py
+++ b/unpythonic/arity.py
@@ -542,6 +542,10 @@ def _bind(thesignature, args, kwargs, *, partial):
                     # raise TypeError(
                     #     'too many positional arguments') from None
                     extra_args.append(arg_val)
+                    extra_args.extend(arg_vals)
+                    # this parameter can be passed by name only
+                    parameters_ex = (param,)
+                    break
 
                 if param.kind == Parameter.VAR_POSITIONAL:
                     # We have an '*args'-like argument, let's fill it with
-- 
2.43.0


From 93912a1500146dc0b35d8a5286580fa430fcf588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:23 +0000
Subject: [PATCH 020/126] fix: curry refused named arguments meant for **kwargs
 that share a name with a positional-only parameter

---
 unpythonic/arity.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/unpythonic/arity.py b/unpythonic/arity.py
index 8845365..a082a03 100644
--- a/unpythonic/arity.py
+++ b/unpythonic/arity.py
@@ -483,6 +483,9 @@ def _bind(thesignature, args, kwargs, *, partial):
     extra_args = []
     extra_kwargs = OrderedDict()
     kwargs = copy.copy(kwargs)  # the caller might need the original later
+    # The name of a positional-only parameter can be used as a named argument if there is a **kwargs.
+    has_var_keyword = any(param.kind == Parameter.VAR_KEYWORD
+                              for param in thesignature.parameters.values())
 
     while True:
         # Let's iterate through the positional arguments and corresponding
@@ -502,7 +505,7 @@ def _bind(thesignature, args, kwargs, *, partial):
                     # That's OK, just empty *args.  Let's start parsing
                     # kwargs
                     break
-                elif param.name in kwargs:
+                elif param.name in kwargs and not (param.kind == Parameter.POSITIONAL_ONLY and has_var_keyword):
                     if param.kind == Parameter.POSITIONAL_ONLY:
                         msg = '{arg!r} parameter is positional only, ' \
                               'but was passed as a keyword'
@@ -580,6 +583,8 @@ def _bind(thesignature, args, kwargs, *, partial):
 
         param_name = param.name
         try:
+            if param.kind == Parameter.POSITIONAL_ONLY and has_var_keyword:
+                raise KeyError(param_name)  # leave it to the **kwargs
             arg_val = kwargs.pop(param_name)
         except KeyError:
             # We have no value for this parameter.  It's fine though,
-- 
2.43.0


From 0ae3d09bfde9c84b678a161ce1581ff0009ed259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:23 +0000
Subject: [PATCH 021/126] fix: curry crashed on surplus arguments given in a
 step before the last one

---
 unpythonic/fun.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/unpythonic/fun.py b/unpythonic/fun.py
index e3afecf..a4ac2d5 100644
--- a/unpythonic/fun.py
+++ b/unpythonic/fun.py
@@ -172,8 +172,9 @@ def partial(func, *args, **kwargs):
                 mismatches_str = "; ".join(mismatches_list)
                 raise TypeError(f"When partially applying {description}:\nParameter binding(s) do not match type specification: {mismatches_str}")
 
-    # `functools.partial` already handles chaining partial applications, so send only the new args/kwargs to it.
-    return functools_partial(func, *args, **kwargs)
+    # `functools.partial` flattens chained partial applications only if the inner one has no attribute dictionary
+    # (and `functools.wraps` creates one), so send it the original callable and the collected args/kwargs.
+    return functools_partial(thecallable, *collected_args, **collected_kwargs)
 
 # --------------------------------------------------------------------------------
 
@@ -326,7 +327,8 @@ def curry(f, *args, _curry_force_call=False, _curry_allow_uninspectable=False, *
     # will perform the signature analysis.)
     if not (args or kwargs):
         try:
-            signature(f)
+            # The args/kwargs already in a partial may include extra ones (for passthrough), so inspect the original.
+            signature(f.func if isinstance(f, functools_partial) else f)
         except ValueError as err:  # inspection failed in inspect.signature()?
             msg = err.args[0]
             if "no signature found" in msg:
@@ -360,18 +362,22 @@ def curry(f, *args, _curry_force_call=False, _curry_allow_uninspectable=False, *
                 #
                 # Note the impedance mismatch with our use of `functools.partial`; the `args`/`kwargs`
                 # here are **NOT** the full `args`/`kwargs`, but only the new ones from this step.
-                #
+                # The extra ones may have been passed in an earlier step, so collect them all.
+                if isinstance(f, functools_partial):
+                    function, all_args, all_kwargs = f.func, f.args + args, {**f.keywords, **kwargs}
+                else:
+                    function, all_args, all_kwargs = f, args, kwargs
                 # We know these args/kwargs were extra when matched against the function's call signature:
                 later_args = analysis.extra_args
                 later_kwargs = analysis.extra_kwargs
                 # Hence, we should avoid passing **now** any args/kwargs that should be passed later:
                 if later_args:
-                    now_args = args[:-len(later_args)]
+                    now_args = all_args[:-len(later_args)]
                 else:
-                    now_args = args
-                now_kwargs = {k: v for k, v in kwargs.items() if k not in later_kwargs}
+                    now_args = all_args
+                now_kwargs = {k: v for k, v in all_kwargs.items() if k not in later_kwargs}
 
-                now_result = maybe_force_args(f, *now_args, **now_kwargs)
+                now_result = maybe_force_args(function, *now_args, **now_kwargs)
 
                 # Inspect the return value(s).
                 #  - Inject the appropriate items to `later_args` and `later_kwargs`.
-- 
2.43.0


From e6432109a3d595ea59362bf66f19b1a7e1e3fd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:01 +0000
Subject: [PATCH 022/126] fix: curry returned surplus arguments at top level,
 without an error, if they had passed through a function result

---
 unpythonic/fun.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/unpythonic/fun.py b/unpythonic/fun.py
index a4ac2d5..4c973ff 100644
--- a/unpythonic/fun.py
+++ b/unpythonic/fun.py
@@ -418,7 +418,9 @@ def curry(f, *args, _curry_force_call=False, _curry_allow_uninspectable=False, *
                 if callable(leftmost):
                     if not iscurried(leftmost):
                         leftmost = curry(leftmost)
-                    return maybe_force_args(leftmost, *later_args, **later_kwargs)
+                    # It takes our place in the chain, so it is top-level if we are.
+                    with dyn.let(curry_context=outerctx):
+                        return maybe_force_args(leftmost, *later_args, **later_kwargs)
 
                 # The first positional return value is not a callable. Pass the return value(s) through
                 # to the curried procedure waiting in outerctx (e.g. in a curried compose chain).
-- 
2.43.0


From 1a60d25ed7311e25ce7dd22c77a6d68c9fecba3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:01 +0000
Subject: [PATCH 023/126] fix: partial type-checked the second and later steps
 against the wrong parameters

---
 unpythonic/fun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpythonic/fun.py b/unpythonic/fun.py
index 4c973ff..7cf61f1 100644
--- a/unpythonic/fun.py
+++ b/unpythonic/fun.py
@@ -160,7 +160,7 @@ def partial(func, *args, **kwargs):
         type_signature = get_type_hints(thecallable)
         if type_signature:  # TODO: Python 3.8+: use walrus assignment here
             # Partial mode: allow leaving some parameters unbound.
-            bound_arguments = _resolve_bindings(func, collected_args, collected_kwargs, _partial=True)
+            bound_arguments = _resolve_bindings(thecallable, collected_args, collected_kwargs, _partial=True)
             # Allow having some parameters without type annotations, in which case those parameters
             # will not be type-checked. `@generic` requires them for all parameters except
             # `self`/`cls`, but type annotations in general have no such requirement.
-- 
2.43.0


From 95a0ec4c38442cbb53f455f5c57c70db28cab4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:01 +0000
Subject: [PATCH 024/126] fix: curry could not partially apply a callable
 object

---
 unpythonic/fun.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/unpythonic/fun.py b/unpythonic/fun.py
index 7cf61f1..6939460 100644
--- a/unpythonic/fun.py
+++ b/unpythonic/fun.py
@@ -157,7 +157,10 @@ def partial(func, *args, **kwargs):
         # but it's much more pythonic, if the type-checking `partial` works properly for code that does
         # not opt in to `unpythonic`'s multiple-dispatch subsystem.
         # TODO: There's some repeated error-reporting code in `unpythonic.dispatch`.
-        type_signature = get_type_hints(thecallable)
+        try:
+            type_signature = get_type_hints(thecallable)
+        except TypeError:  # an object with a `__call__` method; no type hints on the object itself
+            type_signature = {}
         if type_signature:  # TODO: Python 3.8+: use walrus assignment here
             # Partial mode: allow leaving some parameters unbound.
             bound_arguments = _resolve_bindings(thecallable, collected_args, collected_kwargs, _partial=True)
-- 
2.43.0


From b7bcf529bdb497805f49676828fcbe76b4fb3fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:00 +0000
Subject: [PATCH 025/126] fix: type mismatch in a function without source code
 raised OSError instead of TypeError

---
 unpythonic/dispatch.py | 7 +++++--
 unpythonic/fun.py      | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/unpythonic/dispatch.py b/unpythonic/dispatch.py
index 5f06e41..d4d770c 100644
--- a/unpythonic/dispatch.py
+++ b/unpythonic/dispatch.py
@@ -499,8 +499,11 @@ def _format_callable(thecallable):
     #    the `co_filename` of the code object. If the function is decorated, then it sees
     #    the source file where the decorator was defined, not the original function.
     # function = inspect.unwrap(function)  # maybe this helps? But now I can't reproduce the bug to test it.
-    filename = inspect.getsourcefile(function)
-    source, firstlineno = inspect.getsourcelines(function)
+    try:
+        filename = inspect.getsourcefile(function)
+        source, firstlineno = inspect.getsourcelines(function)
+    except OSError:  # no source code available, e.g. defined in a REPL session
+        return f"{thecallable.__qualname__}{str(thesignature)}"
     return f"{thecallable.__qualname__}{str(thesignature)} from {filename}:{firstlineno}"
 
 def _resolve_multimethod(dispatcher, args, kwargs, *, _partial=False):
diff --git a/unpythonic/fun.py b/unpythonic/fun.py
index 6939460..02d5dc9 100644
--- a/unpythonic/fun.py
+++ b/unpythonic/fun.py
@@ -169,7 +169,7 @@ def partial(func, *args, **kwargs):
             # `self`/`cls`, but type annotations in general have no such requirement.
             mismatches = _get_argument_type_mismatches(type_signature, bound_arguments, skip_unannotated=True)
             if mismatches:
-                description = _format_callable(func)
+                description = _format_callable(thecallable)
                 mismatches_list = [f"{parameter}={repr(value)}, expected {expected_type}"
                                        for parameter, value, expected_type in mismatches]
                 mismatches_str = "; ".join(mismatches_list)
-- 
2.43.0


From de0551ea58b437060893fbf9b0ae698b3a47b2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:39 +0000
Subject: [PATCH 026/126] fix: required_kwargs and optional_kwargs crashed on
 generic functions

---
 unpythonic/arity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpythonic/arity.py b/unpythonic/arity.py
index a082a03..56032de 100644
--- a/unpythonic/arity.py
+++ b/unpythonic/arity.py
@@ -306,7 +306,7 @@ def _kwargs(f, optionals=True):
     # Integration with the multiple-dispatch system (multimethods).
     from .dispatch import isgeneric, list_methods  # circular import
     if isgeneric(f):
-        thekwargs = {}
+        thekwargs = set()
         for (thecallable, type_signature) in list_methods(f):
             thekwargs.update(_kwargs(thecallable, optionals=optionals))
         return thekwargs
-- 
2.43.0


From b1ca860d24de0bfaa469f21d3856b79a09c5d7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:51 +0000
Subject: [PATCH 027/126] fix: composing a single builtin function crashed, and
 composing a single function marked it as lazy

---
 unpythonic/fun.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/unpythonic/fun.py b/unpythonic/fun.py
index 02d5dc9..9525f0c 100644
--- a/unpythonic/fun.py
+++ b/unpythonic/fun.py
@@ -832,8 +832,10 @@ def _make_compose1(direction):
         # Using reducel is particularly nice here:
         #  - if fs is empty, we output None
         #  - if fs contains only one item, we output it as-is
+        fs = tuple(fs)
         composed = reducel(compose1_two, fs)  # op(elt, acc)
-        composed = passthrough_lazy_args(composed)
+        if len(fs) > 1:  # don't mark the input
+            composed = passthrough_lazy_args(composed)
         return composed
     return compose1
 
@@ -918,9 +920,10 @@ def _make_compose(direction):
         was chosen when this closure instance was created. Please use the
         public API functions whose names explicitly state the direction.
         """
-        fs = force(fs)
+        fs = tuple(force(fs))
         composed = reducel(compose_two, fs)  # op(elt, acc)
-        composed = passthrough_lazy_args(composed)
+        if len(fs) > 1:  # don't mark the input
+            composed = passthrough_lazy_args(composed)
         return composed
     return compose
 
-- 
2.43.0


From 7008cc6fa00b4ff65587a67e7cbaa6d1e3e22d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:51 +0000
Subject: [PATCH 028/126] fix: pipes crashed when the last function returned an
 empty Values

---
 unpythonic/seq.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/unpythonic/seq.py b/unpythonic/seq.py
index 3c39318..f503ab7 100644
--- a/unpythonic/seq.py
+++ b/unpythonic/seq.py
@@ -343,7 +343,7 @@ def pipe(values0, *bodys):
             else:
                 xs = maybe_force_args(update, xs)
     if isinstance(xs, Values):
-        return xs if xs.kwrets or len(xs.rets) > 1 else xs[0]
+        return xs if xs.kwrets or len(xs.rets) != 1 else xs[0]
     return xs
 
 @passthrough_lazy_args
@@ -396,7 +396,7 @@ class piped:
         xs = self._xs
         assert isinstance(xs, Values)  # __init__ ensures this
         if f is exitpipe:
-            return xs if xs.kwrets or len(xs.rets) > 1 else xs[0]
+            return xs if xs.kwrets or len(xs.rets) != 1 else xs[0]
         cls = self.__class__
         newxs = maybe_force_args(f, *xs.rets, **xs.kwrets)
         if isinstance(newxs, Values):
@@ -464,7 +464,7 @@ class lazy_piped:
                 else:
                     vs = maybe_force_args(g, vs)
             if isinstance(vs, Values):
-                ret = vs if vs.kwrets or len(vs.rets) > 1 else vs[0]
+                ret = vs if vs.kwrets or len(vs.rets) != 1 else vs[0]
             else:
                 ret = vs
             # In `unpythonic`, return values are never implicitly lazy.
-- 
2.43.0


From d6b42839e5a8e9429c936bc728151100a6416bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:38 +0000
Subject: [PATCH 029/126] fix: right-to-left curried composition of three or
 more functions raised on surplus arguments

---
 unpythonic/fun.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/unpythonic/fun.py b/unpythonic/fun.py
index 9525f0c..6e043a4 100644
--- a/unpythonic/fun.py
+++ b/unpythonic/fun.py
@@ -911,8 +911,6 @@ def _make_compose(direction):
                 return maybe_force_args(f, *a.rets, **a.kwrets)
             return maybe_force_args(f, a)
         return composed
-    if direction == "right":
-        compose_two = flip(compose_two)
     def compose(fs):
         """Compose functions from iterable `fs`.
 
@@ -921,6 +919,11 @@ def _make_compose(direction):
         public API functions whose names explicitly state the direction.
         """
         fs = tuple(force(fs))
+        # Build it leftmost-first either way, so that in each `compose_two`, `f` is one of the original
+        # functions (not a composition); this allows detecting whether the function that will receive
+        # the result of `g` is curried.
+        if direction == "right":
+            fs = fs[::-1]
         composed = reducel(compose_two, fs)  # op(elt, acc)
         if len(fs) > 1:  # don't mark the input
             composed = passthrough_lazy_args(composed)
-- 
2.43.0


From 9de19d52304240d906f67abb7bda2a05e8626b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:59 +0000
Subject: [PATCH 030/126] fix: isoftype accepted values of a base class (e.g.
 any tuple for a namedtuple type), and rejected empty instances of the builtin
 collection types

---
 unpythonic/typecheck.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/unpythonic/typecheck.py b/unpythonic/typecheck.py
index 228c9dd..3a8c4af 100644
--- a/unpythonic/typecheck.py
+++ b/unpythonic/typecheck.py
@@ -91,6 +91,16 @@ def isoftype(value, T):
     if T is typing.Any:
         return True
 
+    # Concrete type. This must come before the `issubclass` tests below, because those are meant for the
+    # `typing` meta-utilities. They also match a concrete subclass (e.g. a namedtuple type, a user-defined
+    # subclass of `list`, or any class that defines `__call__`), but would check for the superclass only.
+    # (`type(T)`, because in Python 3.9 and 3.10, `isinstance(list[int], type)` is true.)
+    if issubclass(type(T), type) and T.__module__ != "typing":
+        try:
+            return isinstance(value, T)
+        except TypeError as err:  # e.g. a `typing.TypedDict`, or a `typing.Protocol` that is not `runtime_checkable`
+            raise NotImplementedError(f"This run-time type checker doesn't currently support {repr(T)}") from err
+
     # AnyStr normalizes to TypeVar("AnyStr", str, bytes)
     # Python 3.6 has "typing.TypeVar" as the repr, but Python 3.7+ adds the "<class '...'>" around it.
     if repr(T.__class__) == "typing.TypeVar" or repr(T.__class__) == "<class 'typing.TypeVar'>":
-- 
2.43.0


From 034868af7ec3d903ad35871ae5e41394a657d2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:59 +0000
Subject: [PATCH 031/126] fix: isoftype crashed on a NewType of a type
 specification or of another NewType

---
 unpythonic/typecheck.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpythonic/typecheck.py b/unpythonic/typecheck.py
index 3a8c4af..4d8a95a 100644
--- a/unpythonic/typecheck.py
+++ b/unpythonic/typecheck.py
@@ -205,7 +205,7 @@ def isoftype(value, T):
         #   UserId = typing.NewType("UserId", int)
         #   i = UserId(42)  # UserId is the identity function, as per `typing` module docs
         #   print(type(i))  # int
-        return isinstance(value, T.__supertype__)
+        return isoftype(value, T.__supertype__)
 
     # Some one-trick ponies.
     for U in (typing.Iterator,    # can't non-destructively check element type
-- 
2.43.0


From a3002acbbe0e3ce13278a88ed1d4fd3c3c887853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:59 +0000
Subject: [PATCH 032/126] fix: isoftype accepted any tuple for Tuple[()]

---
 unpythonic/typecheck.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/unpythonic/typecheck.py b/unpythonic/typecheck.py
index 4d8a95a..5f17781 100644
--- a/unpythonic/typecheck.py
+++ b/unpythonic/typecheck.py
@@ -245,8 +245,11 @@ def isoftype(value, T):
             return False
         # bare `typing.Tuple`, no restrictions on length or element type.
         # Python 3.9: if a generic has no args, it has no `__args__` attribute.
-        if not hasattr(T, "__args__") or not T.__args__:
+        if not hasattr(T, "__args__") or T.__args__ is None:
             return True
+        # explicitly empty tuple; in Python 3.10 and earlier, the `__args__` are `((),)`.
+        if T.__args__ in ((), ((),)):
+            return not value
         # homogeneous element type, arbitrary length
         if len(T.__args__) == 2 and T.__args__[1] is Ellipsis:
             if not value:  # no elements
-- 
2.43.0


From 2ff97be5ba5356398987ea02cb85f9716f2480ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:41 +0000
Subject: [PATCH 033/126] fix: generic methods skipped the MRO lookup for
 instances that evaluate as false

---
 unpythonic/dispatch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpythonic/dispatch.py b/unpythonic/dispatch.py
index d4d770c..a48ee3b 100644
--- a/unpythonic/dispatch.py
+++ b/unpythonic/dispatch.py
@@ -463,7 +463,7 @@ def _list_multimethods(dispatcher, self_or_cls=None):
     # See discussions on interaction between `@staticmethod` and `super` in Python:
     #   https://bugs.python.org/issue31118
     #   https://stackoverflow.com/questions/26788214/super-and-staticmethod-interaction/26807879
-    if self_or_cls:
+    if self_or_cls is not None:
         if isinstance(self_or_cls, type):
             cls = self_or_cls
         elif hasattr(self_or_cls, "__class__"):
-- 
2.43.0


From d175f3af512c438b34d65c7ec246bb586dc25d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:41 +0000
Subject: [PATCH 034/126] fix: generic methods did not follow the MRO in a
 diamond hierarchy

---
 unpythonic/dispatch.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/unpythonic/dispatch.py b/unpythonic/dispatch.py
index a48ee3b..2a6807f 100644
--- a/unpythonic/dispatch.py
+++ b/unpythonic/dispatch.py
@@ -472,9 +472,10 @@ def _list_multimethods(dispatcher, self_or_cls=None):
             assert False
 
         for base in cls.__mro__[1:]:  # skip the class itself in the MRO
-            if hasattr(base, dispatcher.__name__):  # does this particular super have f?
-                base_oop_method = getattr(base, dispatcher.__name__)
-                base_raw_function, _ = getfunc(base_oop_method)
+            # Does this particular super define f? (Don't look at inherited attributes; that would
+            # pick up definitions from the super's own supers, too early in the MRO.)
+            if dispatcher.__name__ in vars(base):
+                base_raw_function, _ = getfunc(vars(base)[dispatcher.__name__])
                 if isgeneric(base_raw_function):  # it's @generic or @typed
                     base_registry = getattr(base_raw_function, "_method_registry")
                     relevant_registries.append(reversed(base_registry))
-- 
2.43.0


From 2d1d7bc2b4242d60fa4f175ac1a96feecc86bc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:41 +0000
Subject: [PATCH 035/126] fix: calling a generic method via super() tried also
 the classes that precede it in the MRO

---
 unpythonic/dispatch.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/unpythonic/dispatch.py b/unpythonic/dispatch.py
index 2a6807f..c748f4e 100644
--- a/unpythonic/dispatch.py
+++ b/unpythonic/dispatch.py
@@ -471,7 +471,15 @@ def _list_multimethods(dispatcher, self_or_cls=None):
         else:
             assert False
 
-        for base in cls.__mro__[1:]:  # skip the class itself in the MRO
+        # Continue after the class that defines this particular `f`. Usually it is the first one in the MRO
+        # that has an `f`, but not when we were called via `super()`.
+        bases = cls.__mro__
+        for k, base in enumerate(bases):
+            if dispatcher.__name__ in vars(base) and getfunc(vars(base)[dispatcher.__name__])[0] is dispatcher:
+                bases = bases[k:]
+                break
+
+        for base in bases[1:]:
             # Does this particular super define f? (Don't look at inherited attributes; that would
             # pick up definitions from the super's own supers, too early in the MRO.)
             if dispatcher.__name__ in vars(base):
-- 
2.43.0


From 0d53cd19bc04737d65e723ae0928492872cecd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:41 +0000
Subject: [PATCH 036/126] fix: curry of a generic function raised if the
 arguments did not fit the call signature of some other multimethod

---
 unpythonic/fun.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/unpythonic/fun.py b/unpythonic/fun.py
index 6e043a4..e97a29e 100644
--- a/unpythonic/fun.py
+++ b/unpythonic/fun.py
@@ -563,21 +563,24 @@ def _decide_curry_action(f, args, kwargs):
     multimethods = _list_multimethods(function,
                                       _extract_self_or_cls(function,
                                                            collected_args))
-    # Step 1: exact match
+    analyses = []
     for thecallable, type_signature in multimethods:
-        analysis = _bind_arguments(thecallable)
+        try:
+            analyses.append((_bind_arguments(thecallable), type_signature))
+        except TypeError:  # the call signature of this multimethod does not accept these arguments
+            pass
+    # Step 1: exact match
+    for analysis, type_signature in analyses:
         if not analysis.unbound_parameters and not analysis.extra_args and not analysis.extra_kwargs:
             if not _get_argument_type_mismatches(type_signature, analysis.bound_arguments):
                 return _call, analysis
     # Step 2: complete match, with extra args/kwargs
-    for thecallable, type_signature in multimethods:
-        analysis = _bind_arguments(thecallable)
+    for analysis, type_signature in analyses:
         if not analysis.unbound_parameters and (analysis.extra_args or analysis.extra_kwargs):
             if not _get_argument_type_mismatches(type_signature, analysis.bound_arguments):
                 return _call_with_passthrough, analysis
     # Step 3: partial match
-    for thecallable, type_signature in multimethods:
-        analysis = _bind_arguments(thecallable)
+    for analysis, type_signature in analyses:
         if analysis.unbound_parameters:
             if not _get_argument_type_mismatches(type_signature, analysis.bound_arguments):
                 return _keep_currying, analysis
-- 
2.43.0


From 8a8037d42e337f9189c960c0628ef08b57d0ad38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:25 +0000
Subject: [PATCH 037/126] fix: curry did not work with generic functions
 accessed as bound methods

---
 unpythonic/fun.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/unpythonic/fun.py b/unpythonic/fun.py
index e97a29e..d2175d1 100644
--- a/unpythonic/fun.py
+++ b/unpythonic/fun.py
@@ -19,7 +19,7 @@ __all__ = ["memoize", "curry", "iscurried",
 
 from collections import namedtuple
 from functools import wraps, partial as functools_partial
-from inspect import signature
+from inspect import ismethod, signature
 from threading import RLock
 from typing import get_type_hints
 
@@ -100,6 +100,16 @@ def memoize(f):
 
 # --------------------------------------------------------------------------------
 
+def _unbind_method(f, args):
+    """If `f` is a bound method, convert a call `f(*args)` to a call of the underlying function.
+
+    Return the tuple `(function, args)`. We need this for generic functions, because
+    their multimethods expect to see the `self` or `cls` argument.
+    """
+    if ismethod(f):
+        return f.__func__, (f.__self__,) + args
+    return f, args
+
 # Parameter naming is consistent with `functools.partial`.
 #
 # Note standard behavior of `functools.partial`: `kwargs` do not disappear from the call
@@ -146,11 +156,12 @@ def partial(func, *args, **kwargs):
     if isgeneric(thecallable):  # multiple dispatch
         # For generic functions, at least one multimethod must match the partial signature
         # for the partial application to be valid.
-        if not _resolve_multimethod(thecallable, collected_args, collected_kwargs, _partial=True):
-            _raise_multiple_dispatch_error(thecallable, collected_args, collected_kwargs,
-                                           candidates=_list_multimethods(thecallable,
-                                                                         _extract_self_or_cls(thecallable,
-                                                                                              args)),
+        dispatcher, dispatch_args = _unbind_method(thecallable, collected_args)
+        if not _resolve_multimethod(dispatcher, dispatch_args, collected_kwargs, _partial=True):
+            _raise_multiple_dispatch_error(dispatcher, dispatch_args, collected_kwargs,
+                                           candidates=_list_multimethods(dispatcher,
+                                                                         _extract_self_or_cls(dispatcher,
+                                                                                              dispatch_args)),
                                            _partial=True)
     else:  # Not `@generic` or `@typed`; just a function that might have type annotations.
         # It's not very unpythonic-ic to provide this since we already have `@typed` for this use case,
@@ -560,6 +571,7 @@ def _decide_curry_action(f, args, kwargs):
     # decorators live on the unbound method (raw function). Thus we must
     # extract `self`/`cls` from the arguments of the call (for linked
     # dispatcher lookup in the MRO).
+    function, collected_args = _unbind_method(function, collected_args)
     multimethods = _list_multimethods(function,
                                       _extract_self_or_cls(function,
                                                            collected_args))
-- 
2.43.0


From c40f8764970bb12dd6ffff0816f8601ab45e1e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:50 +0000
Subject: [PATCH 038/126] fix: views of views went stale when the underlying
 sequence was resized

---
 unpythonic/collections.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/unpythonic/collections.py b/unpythonic/collections.py
index 280f870..87b18e7 100644
--- a/unpythonic/collections.py
+++ b/unpythonic/collections.py
@@ -638,7 +638,11 @@ class roview(SequenceView, _StrReprEqMixin):
         return len(r)
 
     def _update_cache(self):
-        seql = len(self.seq)
+        # A view of a view: the length of the outer view does not tell if the underlying data was resized.
+        data = self.seq
+        while isinstance(data, roview):
+            data = data.seq
+        seql = len(data)
         if seql != self._seql:
             self._seql = seql
             self._cache = self._range()
-- 
2.43.0


From 71dae22849918eb380b3f1741813e3cb52d0c0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:50 +0000
Subject: [PATCH 039/126] fix: assigning to a slice of a view from an
 overlapping view corrupted the data

---
 unpythonic/collections.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unpythonic/collections.py b/unpythonic/collections.py
index 87b18e7..0c2872c 100644
--- a/unpythonic/collections.py
+++ b/unpythonic/collections.py
@@ -727,7 +727,8 @@ class view(roview, MutableSequenceView):
                 vs = iter(v)
             except TypeError:  # scalar broadcast à la NumPy
                 vs = repeat(v)
-            for j, item in zip(r[k], vs):
+            # Read all the values first, like `list` does; they may come from the sequence we are writing to.
+            for j, item in [jv for jv in zip(r[k], vs)]:
                 data[j] = item
         elif isinstance(k, tuple):
             raise TypeError(f"multidimensional subscripting not supported; got {repr(k)}")
-- 
2.43.0


From 2192ed0504332eabdc955ce52d09358c241c44ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:50 +0000
Subject: [PATCH 040/126] fix: comparing a view or a ShadowedSequence with a
 non-container raised TypeError

---
 unpythonic/collections.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/unpythonic/collections.py b/unpythonic/collections.py
index 0c2872c..c1f5d59 100644
--- a/unpythonic/collections.py
+++ b/unpythonic/collections.py
@@ -569,6 +569,8 @@ class _StrReprEqMixin:
     def __eq__(self, other):
         if other is self:
             return True
+        if not isinstance(other, Sized):
+            return NotImplemented
         if len(self) != len(other):
             return False
         for v1, v2 in zip(self, other):
-- 
2.43.0


From f762e7d6595c5f00c989ba6de17600c80f9ca9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:50 +0000
Subject: [PATCH 041/126] fix: functional update with a slice that extends
 beyond the sequence raised, or updated the wrong items

---
 unpythonic/collections.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/unpythonic/collections.py b/unpythonic/collections.py
index c1f5d59..5f8ac92 100644
--- a/unpythonic/collections.py
+++ b/unpythonic/collections.py
@@ -940,6 +940,9 @@ def _canonize_slice(s, length=None, wrap=None):  # convert negatives, inject def
 
     wrap = wrap or _make_negidx_converter(length)
 
+    if length is not None:  # standard slicing semantics, including truncating out-of-range start and stop
+        return s.indices(length)
+
     start = wrap(s.start)
     if start is None:
         if step > 0:
-- 
2.43.0


From 5bf555611838969807ccc04e86b6c062b0f74676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:50 +0000
Subject: [PATCH 042/126] fix: functional update at an index one past the end
 was silently ignored

---
 unpythonic/collections.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/unpythonic/collections.py b/unpythonic/collections.py
index 5f8ac92..e5bbf53 100644
--- a/unpythonic/collections.py
+++ b/unpythonic/collections.py
@@ -791,6 +791,8 @@ class ShadowedSequence(Sequence, _StrReprEqMixin):
         if self.ix is None:  # allow no-op ShadowedSequences since the repr suggests one could do that
             return iter(self.seq)
         n = len(self)
+        if isinstance(self.ix, int) and not -n <= self.ix < n:
+            raise IndexError("ShadowedSequence index out of range")
         getone = self._getone
         def ShadowedSequenceIterator():
             for j in range(n):
-- 
2.43.0


From a7d5bea64578a6abadb97cb335df8a3144fbd254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:59 +0000
Subject: [PATCH 043/126] fix: functional update with a too short replacement
 iterator raised RuntimeError instead of IndexError

---
 unpythonic/collections.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/unpythonic/collections.py b/unpythonic/collections.py
index e5bbf53..3bb0b3f 100644
--- a/unpythonic/collections.py
+++ b/unpythonic/collections.py
@@ -849,7 +849,10 @@ class ShadowedSequence(Sequence, _StrReprEqMixin):
                 if n_skip:
                     # NOTE: If the iterable is memoized, the items we drop here will enter the memo.
                     self._v_it = drop(n_skip, self._v_it)
-                return next(self._v_it)
+                try:
+                    return next(self._v_it)
+                except StopIteration:
+                    raise IndexError(f"Replacement iterable too short; attempted to access index {i}") from None
             else:
                 assert False
         return self.seq[k]  # not in slice
-- 
2.43.0


From 13c0a50416461ec3edc97f724718174cd1db903b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:59 +0000
Subject: [PATCH 044/126] fix: slicing a nested ShadowedSequence raised
 TypeError

---
 unpythonic/collections.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpythonic/collections.py b/unpythonic/collections.py
index 3bb0b3f..2c71ba8 100644
--- a/unpythonic/collections.py
+++ b/unpythonic/collections.py
@@ -807,7 +807,7 @@ class ShadowedSequence(Sequence, _StrReprEqMixin):
             return self.seq[k]
         n = len(self)
         if isinstance(k, slice):
-            cls = type(self.seq)
+            cls = type(getattrrec(self, "seq"))  # the innermost one, if nested
             ctor = tuple if hasattr(cls, "_make") else cls  # slice of namedtuple -> tuple
             return ctor(self._getone(j) for j in range(n)[k])
         elif isinstance(k, tuple):
-- 
2.43.0


From c6679540b0ca3db875d3dd7a0c51af0b4d2fc800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:09 +0000
Subject: [PATCH 045/126] fix: Shim ignored a fallback object that evaluates as
 false

---
 unpythonic/collections.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpythonic/collections.py b/unpythonic/collections.py
index 2c71ba8..a184e88 100644
--- a/unpythonic/collections.py
+++ b/unpythonic/collections.py
@@ -376,7 +376,7 @@ class Shim:
     def __getattr__(self, k):
         thing = unbox(self._shim_box)
         fallback = self._shim_fallback
-        if not fallback or hasattr(thing, k):
+        if fallback is None or hasattr(thing, k):
             return getattr(thing, k)
         # fallback and not hasattr(thing, k)
         otherthing = unbox(fallback) if isinstance(fallback, box) else fallback
-- 
2.43.0


From baf2e9b221885865ca1bb603d371b8ba8ab06633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:09 +0000
Subject: [PATCH 046/126] fix: empty instances of frozendict and of its
 subclasses were the same object

---
 unpythonic/collections.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpythonic/collections.py b/unpythonic/collections.py
index a184e88..8ac2a12 100644
--- a/unpythonic/collections.py
+++ b/unpythonic/collections.py
@@ -428,7 +428,7 @@ class frozendict:
     # Make the empty frozendict() a singleton, but allow invoking the constructor
     # multiple times, always returning the same instance.
     def __new__(cls, *ms, **bindings):
-        if not ms and not bindings:
+        if cls is frozendict and not ms and not bindings:
             global _the_empty_frozendict
             if _the_empty_frozendict is None:
                 _the_empty_frozendict = super().__new__(cls)
-- 
2.43.0


From 90a1a6c2fc12824ba3ee182ce4799ee7ad60c90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:30 +0000
Subject: [PATCH 047/126] fix: tree iterators yielded the cdr leaf of a cell
 before the subtree in its car

---
 unpythonic/llist.py | 31 +++++++++++--------------------
 1 file changed, 11 insertions(+), 20 deletions(-)

diff --git a/unpythonic/llist.py b/unpythonic/llist.py
index a8a56d9..edf25b1 100644
--- a/unpythonic/llist.py
+++ b/unpythonic/llist.py
@@ -151,16 +151,11 @@ class BinaryTreeIterator(ConsIterator):
             stack = [cell]
             while stack:
                 cell = stack.pop()
-                a, d = cell.car, cell.cdr
-                ac, dc = isinstance(a, cons), isinstance(d, cons)
-                if not ac:
-                    yield a
-                if not dc:
-                    yield d
-                if dc:
-                    stack.append(d)
-                if ac:
-                    stack.append(a)  # LIFO
+                if isinstance(cell, cons):
+                    stack.append(cell.cdr)
+                    stack.append(cell.car)  # LIFO
+                else:
+                    yield cell
         super().__init__(root, walker)
 
 class JackOfAllTradesIterator(ConsIterator):
@@ -195,16 +190,12 @@ class JackOfAllTradesIterator(ConsIterator):
             stack = [cell]
             while stack:
                 cell = stack.pop()
-                a, d = cell.car, cell.cdr
-                ac, dc = isinstance(a, cons), isinstance(d, cons)
-                if not ac:
-                    yield a
-                if not dc and d is not nil:
-                    yield d
-                if dc:
-                    stack.append(d)
-                if ac:
-                    stack.append(a)  # LIFO
+                if isinstance(cell, cons):
+                    if cell.cdr is not nil:
+                        stack.append(cell.cdr)
+                    stack.append(cell.car)  # LIFO
+                else:
+                    yield cell
         super().__init__(root, walker)
 
 class cons:
-- 
2.43.0


From 745f190dc26c18269b1651d6d072f3aaa612c264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:30 +0000
Subject: [PATCH 048/126] fix: lispyrepr of a linked list showed nested cons
 structures in pythonic notation

---
 unpythonic/llist.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unpythonic/llist.py b/unpythonic/llist.py
index edf25b1..f7ff1cc 100644
--- a/unpythonic/llist.py
+++ b/unpythonic/llist.py
@@ -232,10 +232,10 @@ class cons:
             return f"cons({result_str})"
     def lispyrepr(self):  # TODO: maybe rename or alias this to `__str__`?
         """Representation in Lisp-like dot notation."""
+        r = lambda obj: obj.lispyrepr() if hasattr(obj, "lispyrepr") else repr(obj)
         try:
-            result_list = [repr(x) for x in LinkedListIterator(self, _fullerror=False)]
+            result_list = [r(x) for x in LinkedListIterator(self, _fullerror=False)]
         except TypeError:
-            r = lambda obj: obj.lispyrepr() if hasattr(obj, "lispyrepr") else repr(obj)
             result_list = (r(self.car), ".", r(self.cdr))
         result_str = " ".join(result_list)
         return f"({result_str})"
-- 
2.43.0


From 1a019243541fa710fe14432876ad215b122f43a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:30 +0000
Subject: [PATCH 049/126] fix: llist of a partially consumed reversed linked
 list included the items already consumed

---
 unpythonic/llist.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/unpythonic/llist.py b/unpythonic/llist.py
index f7ff1cc..9157bfa 100644
--- a/unpythonic/llist.py
+++ b/unpythonic/llist.py
@@ -97,6 +97,10 @@ class LinkedListReverseIterator(LinkedListIterator):
     def __init__(self, head, _fullerror=True):
         self._data = lreverse(head)
         super().__init__(self._data, _fullerror)
+    def __next__(self):
+        item = super().__next__()
+        self._data = self._data.cdr  # keep only the unread part, for `llist`
+        return item
 
 class LinkedListOrCellIterator(ConsIterator):
     """Like LinkedListIterator, but allow also a single cons cell.
-- 
2.43.0


From ca41393c991f85a081b96c34b8f1f7f78d9082bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:30 +0000
Subject: [PATCH 050/126] fix: attributes of the immutable cons cell could be
 deleted

---
 unpythonic/llist.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/unpythonic/llist.py b/unpythonic/llist.py
index 9157bfa..921cdc1 100644
--- a/unpythonic/llist.py
+++ b/unpythonic/llist.py
@@ -215,6 +215,8 @@ class cons:
         if hasattr(self, "_immutable"):
             raise TypeError("'cons' object does not support item assignment")
         super().__setattr__(k, v)
+    def __delattr__(self, k):
+        raise TypeError("'cons' object does not support item deletion")
     def __iter__(self):
         """Return iterator with default iteration scheme: single cell or list."""
         return LinkedListOrCellIterator(self)
-- 
2.43.0


From a9afb3ec706c38710d66142c3f273bab5f1f75e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:10 +0000
Subject: [PATCH 051/126] fix: reversed raised TypeError for an empty linked
 list

---
 unpythonic/llist.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/unpythonic/llist.py b/unpythonic/llist.py
index 921cdc1..1f0982d 100644
--- a/unpythonic/llist.py
+++ b/unpythonic/llist.py
@@ -41,6 +41,8 @@ class Nil(Singleton):
         return self
     def __next__(self):
         raise StopIteration()
+    def __reversed__(self):
+        return self
     def __repr__(self):
         return "nil"
 nil = Nil()
-- 
2.43.0


From 3028e87e1eba4339ffec61e709e2823343e3feb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:10 +0000
Subject: [PATCH 052/126] fix: member raised TypeError for an empty linked list

---
 unpythonic/llist.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/unpythonic/llist.py b/unpythonic/llist.py
index 1f0982d..a1f7440 100644
--- a/unpythonic/llist.py
+++ b/unpythonic/llist.py
@@ -379,6 +379,8 @@ def member(x, l):
     Returns:
         The matching cons cell (tail of l) if x was found; False if not.
     """
+    if l is nil:
+        return False
     for t in TailIterator(l):
         if t.car == x:
             return t
-- 
2.43.0


From ccd9c2c70f7d83688b763f3ea078fa2284311453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:47 +0000
Subject: [PATCH 053/126] fix: prod multiplied non-commuting items in the
 reverse order

---
 unpythonic/fold.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpythonic/fold.py b/unpythonic/fold.py
index 1897f3a..c3eb4ff 100644
--- a/unpythonic/fold.py
+++ b/unpythonic/fold.py
@@ -364,7 +364,7 @@ def prod(iterable, start=1):
 
     This is a fold operation.
     """
-    return reducel(mul, iterable, init=start)
+    return reducel(lambda elt, acc: mul(acc, elt), iterable, init=start)
 
 def running_minmax(iterable):
     """Return a generator extracting a running `(min, max)` from `iterable`.
-- 
2.43.0


From 1c3819125572a225ef06f971813c91768e4a84db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:47 +0000
Subject: [PATCH 054/126] fix: inn required the items to support subtraction

---
 unpythonic/it.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/unpythonic/it.py b/unpythonic/it.py
index b53caf4..a87c366 100644
--- a/unpythonic/it.py
+++ b/unpythonic/it.py
@@ -673,9 +673,7 @@ def inn(x, iterable):
             return False
     if yj == x:
         return True
-    d = yj - y0
-    assert d != 0
-    pred = (lambda elt: elt <= x) if d > 0 else (lambda elt: elt >= x)
+    pred = (lambda elt: elt <= x) if yj >= y0 else (lambda elt: elt >= x)
     return x in takewhile(pred, it)
 
 def iindex(x, iterable):
-- 
2.43.0


From 209acc46aea3887b72381ead20e6370c25bfd584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:47 +0000
Subject: [PATCH 055/126] fix: within dropped the last item of a finite input
 that does not converge

---
 unpythonic/it.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/unpythonic/it.py b/unpythonic/it.py
index a87c366..c79feee 100644
--- a/unpythonic/it.py
+++ b/unpythonic/it.py
@@ -783,11 +783,14 @@ def within(tol, iterable):
     (infinite output, or terminating the output early if a part of it looks
     like a converging sequence; think a local maximum of `cos(x)`).
     """
-    for a, b in window(2, iterable):
+    it = iter(iterable)
+    for a in it:
         yield a
-        if abs(a - b) <= tol:
+        for b in it:
             yield b
-            return
+            if abs(a - b) <= tol:
+                return
+            a = b
 
 def interleave(*iterables):
     """Interleave items from several iterables. Generator.
-- 
2.43.0


From 13b008a35157f1a9022ea4e884ec096370c4130c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:47 +0000
Subject: [PATCH 056/126] fix: interleave without inputs hung

---
 unpythonic/it.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/unpythonic/it.py b/unpythonic/it.py
index c79feee..4b28334 100644
--- a/unpythonic/it.py
+++ b/unpythonic/it.py
@@ -804,6 +804,8 @@ def interleave(*iterables):
     class ShortestInputEnded(Exception):
         pass
     iters = [iter(it) for it in iterables]
+    if not iters:
+        return
     def roundrobin():
         for it in iters:
             try:
-- 
2.43.0


From 4d79fa779e28ddb0cf4afb9d2123affa4658ab96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:47 +0000
Subject: [PATCH 057/126] fix: islice with a negative start and a nonnegative
 stop before it raised, or yielded items when stop was zero

---
 unpythonic/slicing.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/unpythonic/slicing.py b/unpythonic/slicing.py
index 1188407..229818a 100644
--- a/unpythonic/slicing.py
+++ b/unpythonic/slicing.py
@@ -74,15 +74,14 @@ def islice(iterable):
                     start = stop = None
                 elif start and start < 0:
                     n, start = -start, None
-                    if not stop:
+                    if stop is None:
                         it = lastn(n, iterable)
-                    else:  # stop and stop > 0:
+                    else:  # stop >= 0
                         # to adjust stop, we must know how many items are dropped
                         cit = CountingIterator(iterable)
                         it = tuple(lastn(n, cit))  # force to actually count (note lastn stores only <= n items)
                         n_dropped = max(0, cit.count - n)  # max needed if start is past the start of iterable
-                        stop -= n_dropped
-                        assert stop >= 0
+                        stop = max(0, stop - n_dropped)
                 elif stop and stop < 0:
                     it = butlastn(-stop, iterable)
                     stop = None
-- 
2.43.0


From e26d79ca60cc282ff585737966eef1fbb4d8710a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:47 +0000
Subject: [PATCH 058/126] fix: islice with a negative index beyond the start
 returned the first item

---
 unpythonic/slicing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unpythonic/slicing.py b/unpythonic/slicing.py
index 229818a..0c71ae8 100644
--- a/unpythonic/slicing.py
+++ b/unpythonic/slicing.py
@@ -87,7 +87,8 @@ def islice(iterable):
                     stop = None
                 return islicef(it, start, stop, step)
             if k < 0:
-                return first(lastn(-k, iterable))
+                buf = tuple(lastn(-k, iterable))
+                return buf[0] if len(buf) == -k else None
             return first(islicef(iterable, k, k + 1))
     return islice1()
 
-- 
2.43.0


From cce52cfbfaf626f6587b6eb6973fe37e9de49504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:11 +0000
Subject: [PATCH 059/126] fix: s() raised a math error instead of SyntaxError
 for specifications that match no formula

---
 unpythonic/mathseq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpythonic/mathseq.py b/unpythonic/mathseq.py
index dc35342..fd5b2fd 100644
--- a/unpythonic/mathseq.py
+++ b/unpythonic/mathseq.py
@@ -310,7 +310,7 @@ def s(*spec):
                         # becomes float
                         r = (r1 + r2) / 2
                     return ("geom", a0, r)
-            if abs(a0) != 1 and a1 != 0 and a2 != 0:
+            if a0 != 0 and abs(a0) != 1 and a1 != 0 and abs(a1) != 1 and a2 != 0:
                 p1 = log(abs(a1), abs(a0))
                 p2 = log(abs(a2), abs(a1))
                 if almosteq(p1, p2):  # a0, a0**p, (a0**p)**p, ...  [a0, **p]
-- 
2.43.0


From 5a144469864e2c2b75da21bdd7fdc300c9f663ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:11 +0000
Subject: [PATCH 060/126] fix: s() accepted a power sequence specification with
 inconsistent signs

---
 unpythonic/mathseq.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/unpythonic/mathseq.py b/unpythonic/mathseq.py
index fd5b2fd..25f3b5d 100644
--- a/unpythonic/mathseq.py
+++ b/unpythonic/mathseq.py
@@ -315,7 +315,9 @@ def s(*spec):
                 p2 = log(abs(a2), abs(a1))
                 if almosteq(p1, p2):  # a0, a0**p, (a0**p)**p, ...  [a0, **p]
                     p = (p1 + p2) / 2
-                    return ("power", a0, p)
+                    # The logarithms ignore the signs, so check that the formula reproduces the given terms.
+                    if isinstance(p, _symExpr) or (almosteq(a0**p, a1) and almosteq(a0**(p**2), a2)):
+                        return ("power", a0, p)
             # Most unrecognized sequences trigger this case.
             raise SyntaxError(f"Specification did not match any supported formula: '{origspec}'")
         else:  # more elements are optional but must be consistent
-- 
2.43.0


From 129cf12c6b6fe8bc5bf53e070a1abef9fc70e0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:11 +0000
Subject: [PATCH 061/126] fix: s() rejected a valid final element of an
 alternating geometric sequence, or raised a math error for an invalid one

---
 unpythonic/mathseq.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/unpythonic/mathseq.py b/unpythonic/mathseq.py
index 25f3b5d..66b394d 100644
--- a/unpythonic/mathseq.py
+++ b/unpythonic/mathseq.py
@@ -346,9 +346,13 @@ def s(*spec):
                 return int(1 + round(a))  # fencepost
         elif seqtype == "geom":
             # elt = x0*(k**a) --> k**a = (elt/x0) --> a = logk(elt/x0)
+            if abs(k) == 1:
+                return infty  # the terms repeat, so cannot determine how many items
+            if elt == 0:
+                return False
             a = log(abs(elt / x0), abs(k))
             if is_almost_int(a) and a > 0:
-                if not almosteq(x0 * (k**a), elt):  # check parity of final term, could be an alternating sequence
+                if not almosteq(x0 * (k**int(round(a))), elt):  # check parity of final term, could be an alternating sequence
                     return False
                 return int(1 + round(a))
         else:  # seqtype == "power":
-- 
2.43.0


From eed06a3adfa8e2ec006d3463829e05bf45ad3a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:11 +0000
Subject: [PATCH 062/126] fix: s() raised a math error for an invalid final
 element of a power sequence

---
 unpythonic/mathseq.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/unpythonic/mathseq.py b/unpythonic/mathseq.py
index 66b394d..455c393 100644
--- a/unpythonic/mathseq.py
+++ b/unpythonic/mathseq.py
@@ -357,9 +357,14 @@ def s(*spec):
                 return int(1 + round(a))
         else:  # seqtype == "power":
             # elt = x0**(k**a) --> k**a = logx0 elt --> a = logk (logx0 elt)
-            a = log(log(abs(elt), abs(x0)), abs(k))
+            if elt == 0:
+                return False
+            ka = log(abs(elt), abs(x0))
+            if not isinstance(ka, _symExpr) and ka <= 0:
+                return False
+            a = log(ka, abs(k))
             if is_almost_int(a) and a > 0:
-                if not almosteq(x0**(k**a), elt):  # parity
+                if not almosteq(x0**(k**int(round(a))), elt):  # parity
                     return False
                 return int(1 + round(a))
         return False
-- 
2.43.0


From 6e62ba75ded2739b15502d6d511dcfa70326c39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:11 +0000
Subject: [PATCH 063/126] fix: s() raised TypeError instead of SyntaxError for
 a misplaced ellipsis or list of repeating elements

---
 unpythonic/mathseq.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/unpythonic/mathseq.py b/unpythonic/mathseq.py
index 455c393..3baee2d 100644
--- a/unpythonic/mathseq.py
+++ b/unpythonic/mathseq.py
@@ -379,6 +379,11 @@ def s(*spec):
             return True
         return False
 
+    # parts of the specification that must consist of plain terms only
+    def ensure_terms(spec):
+        if any(x is Ellipsis or isinstance(x, list) for x in spec):
+            raise SyntaxError(f"Expected s(a0, a1, ...), s(a0, a1, ..., an), s([*repeats], ...), or s(*initials, [*repeats], ...); got '{origspec}'")
+
     # analyze the specification
     if Ellipsis not in spec:  # convenience fallback
         if iscyclic(spec):
@@ -394,8 +399,10 @@ def s(*spec):
             if iscyclic(spec):
                 seqtype = "cyclic"
                 *initial, repeating = spec
+                ensure_terms(initial)
                 n = infty
             else:
+                ensure_terms(spec)
                 seqtype, x0, k = analyze(*spec)
                 n = infty
         else:
@@ -403,6 +410,7 @@ def s(*spec):
             if not (dots is Ellipsis and spec):
                 raise SyntaxError(f"Expected s(a0, a1, ...) or s(a0, a1, ..., an), s([*repeats], ...), or s(*initials, [*repeats], ...); got '{origspec}'")
             assert spec  # not empty
+            ensure_terms([*spec, last])
             desc = analyze(*spec)
             n = nofterms(desc, last)
             if n is False:
-- 
2.43.0


From 06e63a55a3db1599f9a36f758ccaeff901efa7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:10 +0000
Subject: [PATCH 064/126] fix: env accepted a binding with the same name as one
 of its methods, making its value inaccessible

---
 unpythonic/env.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/unpythonic/env.py b/unpythonic/env.py
index d5538e4..d3e3c24 100644
--- a/unpythonic/env.py
+++ b/unpythonic/env.py
@@ -51,7 +51,9 @@ class env:
     instance itself will remain alive due to Python's scoping rules.
     """
     # do not allow bindings that would break functionality.
-    _reserved_names = ("set", "clear", "finalize", "_env", "_finalized",
+    _reserved_names = ("set", "_set", "clear", "finalize",
+                       "items", "keys", "values", "get", "pop", "popitem", "update", "setdefault",
+                       "_env", "_finalized",
                        "_direct_write", "_reserved_names")
     _direct_write = ("_env", "_finalized")
 
-- 
2.43.0


From 3bec6211368c9cd0614f683f79ab715f54ddb189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:10 +0000
Subject: [PATCH 065/126] fix: creating an assignonce environment with initial
 bindings raised AttributeError

---
 unpythonic/env.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/unpythonic/env.py b/unpythonic/env.py
index d3e3c24..9078174 100644
--- a/unpythonic/env.py
+++ b/unpythonic/env.py
@@ -63,7 +63,6 @@ class env:
         instance = super().__new__(cls)
         instance._env = {}
         instance._finalized = False  # "let" sets this once env setup done
-        instance.__init__(**kwargs)
         return instance
 
     def __init__(self, **bindings):
-- 
2.43.0


From cd1b94be1306796bea7c6500b7e528035defc11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:10 +0000
Subject: [PATCH 066/126] fix: env.update bypassed the name checks and the
 assign-once rule, and rejected pairs when finalized

---
 unpythonic/env.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/unpythonic/env.py b/unpythonic/env.py
index 9078174..c37fdd6 100644
--- a/unpythonic/env.py
+++ b/unpythonic/env.py
@@ -148,12 +148,11 @@ class env:
         if mapping:
             if len(mapping) > 1:
                 raise ValueError(f"Expected at most one `mapping`, got {len(mapping)}.")
-            m = mapping[0]
-            if self._finalized and any(k not in self for k in m):
-                raise AttributeError("adding new bindings to a finalized environment is not allowed")
-        if self._finalized and any(k not in self for k in bindings):
+        newbindings = dict(*mapping, **bindings)
+        if self._finalized and any(k not in self for k in newbindings):
             raise AttributeError("adding new bindings to a finalized environment is not allowed")
-        return self._env.update(*mapping, **bindings)
+        for k, v in newbindings.items():
+            self[k] = v
     def setdefault(self, k, *default):
         if self._finalized and k not in self:
             raise AttributeError(f"name {repr(k)} is not defined; adding new bindings to a finalized environment is not allowed")
-- 
2.43.0


From 4508113a32a13d41eb5f072e4576c8b4ffa8e478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:10 +0000
Subject: [PATCH 067/126] fix: env.setdefault bypassed the name checks

---
 unpythonic/env.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/unpythonic/env.py b/unpythonic/env.py
index c37fdd6..b078ed0 100644
--- a/unpythonic/env.py
+++ b/unpythonic/env.py
@@ -156,7 +156,9 @@ class env:
     def setdefault(self, k, *default):
         if self._finalized and k not in self:
             raise AttributeError(f"name {repr(k)} is not defined; adding new bindings to a finalized environment is not allowed")
-        return self._env.setdefault(k, *default)
+        if k not in self:
+            self[k] = default[0] if default else None
+        return self[k]
 
     # subscripting
     def __getitem__(self, k):
-- 
2.43.0


From d1dcf1795fd3ae23b812e4cbcaf7b05a1d723dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:18 +0000
Subject: [PATCH 068/126] fix: do and do0 raised when called without items

---
 unpythonic/seq.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/unpythonic/seq.py b/unpythonic/seq.py
index f503ab7..ca37025 100644
--- a/unpythonic/seq.py
+++ b/unpythonic/seq.py
@@ -583,6 +583,7 @@ def do(*items):
                 pass
             return v(e)
         return v
+    item = None
     for item in items:
         if isinstance(item, DoAssign):
             k, v = item
@@ -606,6 +607,8 @@ def do0(*items):
                 lambda e: print(e.x))
         assert y == 17
     """
+    if not items:
+        return None
     first, *rest = items
     if isinstance(first, DoAssign):
         k, v = first
-- 
2.43.0


From 0c200a8ee6d7191099a42d227ad5497a5e3e0959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:55 +0000
Subject: [PATCH 069/126] fix: let and its variants rejected bindings named
 mode, or body in the decorator forms

---
 unpythonic/let.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/unpythonic/let.py b/unpythonic/let.py
index 3b1a253..f298e0c 100644
--- a/unpythonic/let.py
+++ b/unpythonic/let.py
@@ -212,7 +212,7 @@ def bletrec(**bindings):
     This chains ``@dletrec`` and ``@call``."""
     return _blet("letrec", **bindings)
 
-def _let(mode, body, **bindings):
+def _let(mode, body, /, **bindings):
     assert mode in ("let", "letrec")
     # Important for Python 3.6+, which preserves ordering of kwargs (PEP 468):
     #
@@ -254,11 +254,11 @@ def _let(mode, body, **bindings):
 
 # decorator factory: almost as fun as macros?
 # _envname is for co-operation with the dlet macro.
-def _dlet(mode, _envname="env", **bindings):
+def _dlet(mode, _envname="env", /, **bindings):
     def deco(body):
         # evaluate env only once, when the function def runs
         # (to preserve state between calls to the decorated function)
-        env = _let(mode, body=None, **bindings)
+        env = _let(mode, None, **bindings)
         @wraps(body)
         def withenv(*args, **kwargs):
             kwargs_with_env = kwargs.copy()
@@ -267,7 +267,7 @@ def _dlet(mode, _envname="env", **bindings):
         return withenv
     return deco
 
-def _blet(mode, _envname="env", **bindings):
+def _blet(mode, _envname="env", /, **bindings):
     dlet_deco = _dlet(mode, _envname, **bindings)
     def deco(body):
         return call(dlet_deco(body))
-- 
2.43.0


From 1fd849c484089e6b39decbc77c51a958b2514670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:55 +0000
Subject: [PATCH 070/126] fix: env rejected initial bindings named self or cls

---
 unpythonic/env.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/unpythonic/env.py b/unpythonic/env.py
index b078ed0..66db2ff 100644
--- a/unpythonic/env.py
+++ b/unpythonic/env.py
@@ -59,13 +59,13 @@ class env:
 
     # For pickle support, since unpickling calls `__new__` but not `__init__`.
     # If `self._env` is not present, `__getattr__` will crash with an infinite loop. So create it as early as possible.
-    def __new__(cls, **kwargs):
+    def __new__(cls, /, **kwargs):
         instance = super().__new__(cls)
         instance._env = {}
         instance._finalized = False  # "let" sets this once env setup done
         return instance
 
-    def __init__(self, **bindings):
+    def __init__(self, /, **bindings):
         for name, value in bindings.items():
             setattr(self, name, value)
 
@@ -143,7 +143,7 @@ class env:
         if self._finalized:
             raise TypeError("clearing a finalized environment not allowed")
         return self._env.clear()
-    def update(self, *mapping, **bindings):
+    def update(self, /, *mapping, **bindings):
         """See `dict.update` for the signature."""
         if mapping:
             if len(mapping) > 1:
-- 
2.43.0


From 71dd509a6aa23aeb669f0fc12effd9d9c723313b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:42 +0000
Subject: [PATCH 071/126] fix: forall silently dropped solutions when a line
 raised TypeError

---
 unpythonic/amb.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/unpythonic/amb.py b/unpythonic/amb.py
index cf8d3f8..d6691bf 100644
--- a/unpythonic/amb.py
+++ b/unpythonic/amb.py
@@ -212,9 +212,11 @@ def monadify(value, unpack=True):
         return value
     elif unpack:
         try:
-            return MonadicList.from_iterable(value)
+            iterator = iter(value)
         except TypeError:
-            pass  # fall through
+            pass  # not iterable; fall through
+        else:
+            return MonadicList.from_iterable(iterator)
     return MonadicList(value)  # unit(MonadicList, value)
 
 class MonadicList:  # TODO: This if anything is **the** place to use @typed.
@@ -321,10 +323,7 @@ class MonadicList:  # TODO: This if anything is **the** place to use @typed.
         Eager; the input iterable will be iterated over in its entirety
         to produce the list. If it is consumable, it will be consumed.
         """
-        try:
-            return cls(*iterable)
-        except TypeError:  # maybe a generator; try forcing it before giving up.
-            return cls(*tuple(iterable))
+        return cls(*tuple(iterable))
 
     def copy(self):
         """Return a copy of this MonadicList."""
-- 
2.43.0


From db961e1b1e53d4bd6e0c9a1cdad86d352c9fc12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:01 +0000
Subject: [PATCH 072/126] fix: forall evaluated lines after a failed guard, and
 did not scope its names lexically

---
 unpythonic/amb.py | 61 ++++++++++++++---------------------------------
 1 file changed, 18 insertions(+), 43 deletions(-)

diff --git a/unpythonic/amb.py b/unpythonic/amb.py
index d6691bf..5388d5c 100644
--- a/unpythonic/amb.py
+++ b/unpythonic/amb.py
@@ -110,38 +110,26 @@ def forall(*lines):
         - ``insist x`` = ``guard x``
         - ``deny x`` = ``guard (not x)``
     """
-    # Notation used by the monad implementation for the bind and sequence
-    # operators, with any relevant whitespace.
+    # Notation used by the monad implementation for the bind operator,
+    # with any relevant whitespace.
     bind = " >> "
-    seq = ".then"
 
     class env:
-        def __init__(self):
-            self.names = set()
-        def assign(self, k, v):
-            self.names.add(k)
-            setattr(self, k, v)
-        # simulate lexical closure property for env attrs
-        #   - freevars: set of names that "fall in" from a surrounding lexical scope
-        def close_over(self, freevars):
-            names_to_clear = {k for k in self.names if k not in freevars}
-            for k in names_to_clear:
-                delattr(self, k)
-            self.names = freevars.copy()
+        pass
 
     # stuff used inside the eval
-    e = env()
-    def begin(*exprs):  # args eagerly evaluated by Python
-        # begin(e1, e2, ..., en):
-        #   perform side effects e1, e2, ..., e[n-1], return the value of en.
-        return exprs[-1]
+    def extend(e, k, v):
+        """Return a new env that has the bindings of `e`, plus the binding `k = v`."""
+        # A new instance for each binding, so that we get proper lexical scoping.
+        out = env()
+        vars(out).update(vars(e))
+        setattr(out, k, v)
+        return out
 
     allcode = ""
-    names = set()  # names seen so far (working line by line, so textually!)
+    closing = ""
     bodys = []
-    begin_is_open = False
     for j, item in enumerate(lines):
-        is_first = (j == 0)
         is_last = (j == len(lines) - 1)
 
         if isinstance(item, Assignment):
@@ -152,10 +140,6 @@ def forall(*lines):
             raise ValueError(f"name must be valid identifier, got {repr(name)}")
         bodys.append(body)
 
-        freevars = names.copy()  # names from the surrounding scopes
-        if name:
-            names.add(name)
-
         # on the last line, don't auto-unpack iterables,
         # to allow easily returning a tuple from the computation
         unpack_flag = "True" if not is_last else "False"
@@ -170,33 +154,24 @@ def forall(*lines):
         else:  # doesn't need the environment
             code = f"monadify(bodys[{j}], {unpack_flag})"
 
-        if begin_is_open:
-            code += ")"
-            begin_is_open = False
-
-        # monadic-bind or sequence to the next item, leaving only the appropriate
-        # names defined in the env (so that we get proper lexical scoping
-        # even though we use an imperative stateful object to implement it)
+        # monadic-bind to the next item, defining the appropriate name (if any) in the env
         if not is_last:
             if name:
-                code += f"{bind}(lambda {name}:\nbegin(e.close_over({freevars}), e.assign('{name}', {name}), "
-                begin_is_open = True
+                code += f"{bind}(lambda value:\n(lambda e: "
+                closing = f")(extend(e, '{name}', value)))" + closing
             else:
-                if is_first:
-                    code += f"{bind}(lambda _:\nbegin(e.close_over(set()), "
-                    begin_is_open = True
-                else:
-                    code += f"{seq}(\n"
+                code += f"{bind}(lambda value:\n"
+                closing = ")" + closing
 
         allcode += code
-    allcode += ")" * (len(lines) - 1)
+    allcode += closing
 
 #    print(allcode)  # DEBUG
 
     # The eval'd code doesn't close over the current lexical scope at the site
     # of the eval call, but runs in its own initially blank environment,
     # so provide the necessary names as its globals.
-    mlst = eval(allcode, {"e": e, "bodys": bodys, "begin": begin, "monadify": monadify})
+    mlst = eval(allcode, {"e": env(), "bodys": bodys, "extend": extend, "monadify": monadify})
     return tuple(mlst)
 
 # --------------------------------------------------------------------------------
-- 
2.43.0


From 4b40708114290d2aa9630d8d142ee65e22fa47b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:00 +0000
Subject: [PATCH 073/126] fix: tco, continuations: tail-position and/or return
 the deciding value, do not capture `it`

---
 unpythonic/syntax/tailtools.py | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/unpythonic/syntax/tailtools.py b/unpythonic/syntax/tailtools.py
index cb5f5e4..929907d 100644
--- a/unpythonic/syntax/tailtools.py
+++ b/unpythonic/syntax/tailtools.py
@@ -27,7 +27,7 @@ from mcpyrate.quotes import capture_as_macro, is_captured_value
 from mcpyrate.utils import NestingLevelTracker
 from mcpyrate.walkers import ASTTransformer, ASTVisitor
 
-from .ifexprs import aif, it
+from .letdo import let
 from .letdoutil import isdo, islet, ExpandedLetView, ExpandedDoView
 from .util import (isx, isec,
                    detect_callec, detect_lambda,
@@ -41,15 +41,8 @@ from ..funutil import Values
 from ..it import uniqify
 from ..tco import trampolined, jump
 
-# In `continuations`, we use `aif` and `it` as hygienically captured macros.
-# Note the difference between `aif[..., it, ...]` and `q[a[_our_aif][..., a[_our_it], ...]]`.
-#
-# If `it` is bound in the current expander, even *mentioning* it outside an `aif` is a syntax error, by design.
-#
-# When constructing a quasiquoted tree that invokes `aif[]`, we can splice in a hygienic reference to `it`
-# as `a[_our_it]` without even having the macro bound in the expander that expands *this* module.
-_our_aif = capture_as_macro(aif)
-_our_it = capture_as_macro(it)
+# In `tco` and `continuations`, we use `let` as a hygienically captured macro.
+_our_let = capture_as_macro(let)
 
 # --------------------------------------------------------------------------------
 # Macro interface
@@ -1624,18 +1617,20 @@ def _transform_retexpr(tree, known_ecs, call_cb=None, data_cb=None):
                     op_of_others = BoolOp(op=tree.op, values=tree.values[:-1])
                 else:
                     op_of_others = tree.values[0]
+                name = gensym("it")
+                data = transform_data(q[n[name]])
+                tail = transform(tree.values[-1])  # tail-call item
                 if type(tree.op) is Or:
-                    # or(data1, ..., datan, tail) --> aif[any(others), it, tail]
-                    tree = q[a[_our_aif][a[op_of_others],
-                                         a[transform_data(_our_it)],
-                                         a[transform(tree.values[-1])]]]  # tail-call item
+                    # or(data1, ..., datan, tail) --> let[it << any(others)][it if it else tail]
+                    body = q[a[data] if n[name] else a[tail]]
                 elif type(tree.op) is And:
-                    # and(data1, ..., datan, tail) --> tail if all(others) else False
-                    tree = q[a[transform(tree.values[-1])]
-                             if a[op_of_others]
-                             else a[transform_data(q[False])]]
+                    # and(data1, ..., datan, tail) --> let[it << all(others)][tail if it else it]
+                    # In `continuations`, a false `and` sends `False` into the continuation.
+                    body = q[a[tail] if n[name] else a[transform_data(q[False]) if data_cb else data]]
                 else:  # cannot happen
                     raise SyntaxError(f"unknown BoolOp type {tree.op}")  # pragma: no cover
+                # Use a gensymmed name, so that a user variable named `it` is not shadowed.
+                tree = q[a[_our_let][(n[name], a[op_of_others])][a[body]]]
             else:  # optimization: BoolOp, no call or compound in tail position --> treat as single data item
                 tree = transform_data(tree)
         else:
-- 
2.43.0


From 43fdcf94da9928559ffe44420f085cfb19008ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:51 +0000
Subject: [PATCH 074/126] fix: tco: do not turn a call inside try/with, or in
 an async function or a generator, into a jump

---
 unpythonic/syntax/tailtools.py | 40 +++++++++++++++++++++++++++++-----
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/unpythonic/syntax/tailtools.py b/unpythonic/syntax/tailtools.py
index 929907d..29b1750 100644
--- a/unpythonic/syntax/tailtools.py
+++ b/unpythonic/syntax/tailtools.py
@@ -15,8 +15,8 @@ from ast import (Lambda, FunctionDef, AsyncFunctionDef, ClassDef,
                  Call, Name, Starred, Constant,
                  BoolOp, And, Or,
                  With, AsyncWith, If, IfExp, Try, Assign, Return, Expr,
-                 Await,
-                 copy_location)
+                 Await, Yield, YieldFrom,
+                 copy_location, iter_child_nodes)
 import sys
 
 from mcpyrate.quotes import macros, q, u, n, a, h  # noqa: F401
@@ -731,7 +731,8 @@ def _tco(block_body):
             continue
 
         stmt = _tco_transform_return(stmt, known_ecs=known_ecs,
-                                     transform_retexpr=transform_retexpr)
+                                     transform_retexpr=transform_retexpr,
+                                     protect=True)
         stmt = _tco_transform_def(stmt, preproc_cb=None)
         stmt = _tco_transform_lambda(stmt, preproc_cb=None,
                                      userlambdas=userlambdas,
@@ -1483,11 +1484,27 @@ def _tco_transform_def(tree, *, preproc_cb):
 # Transform return statements and calls to escape continuations (ec).
 # known_ecs: list of names (str) of known escape continuations.
 # transform_retexpr: return-value expression transformer (for TCO and stuff).
-def _tco_transform_return(tree, *, known_ecs, transform_retexpr):
+# protect: if `True`, leave alone each `return` where a jump would change what the program does:
+#   - inside a `with`, or a `try` (except in a part with nothing left to run after it), because
+#     the call must run while the context managers, exception handlers and finalizers are in effect;
+#   - in an `async` function or a generator, because no trampoline sees its return value.
+def _tco_transform_return(tree, *, known_ecs, transform_retexpr, protect=False):
     class TcoReturnTransformer(ASTTransformer):
         def transform(self, tree):
             if is_captured_value(tree):
                 return tree  # don't recurse!
+            if protect:
+                if type(tree) in (FunctionDef, AsyncFunctionDef):
+                    self.generic_withstate(tree, protected=(type(tree) is AsyncFunctionDef or _is_generator(tree)))
+                elif type(tree) in (With, AsyncWith):
+                    self.withstate(tree.body, protected=True)
+                elif type(tree) in (Try, TryStar):
+                    self.withstate(tree.body, protected=True)
+                    if tree.finalbody:
+                        self.withstate(tree.handlers, protected=True)
+                        self.withstate(tree.orelse, protected=True)
+                if self.state.protected and type(tree) is Return and not (tree.value and isec(tree.value, known_ecs)):
+                    return self.generic_visit(tree)
             if type(tree) is Return:
                 non = q[None]
                 non = copy_location(non, tree)
@@ -1501,12 +1518,23 @@ def _tco_transform_return(tree, *, known_ecs, transform_retexpr):
                     # this cleans up the code, since eliminating the "return" allows us
                     # to omit a redundant "let".
                     tree = Expr(value=value)  # return ec(...) --> ec(...)
-            elif isec(tree, known_ecs):  # TCO the arg of an ec(...) call
+            elif isec(tree, known_ecs) and not self.state.protected:  # TCO the arg of an ec(...) call
                 if len(tree.args) > 1:
                     raise SyntaxError("expected exactly one argument for escape continuation")  # pragma: no cover
                 tree.args[0] = transform_retexpr(tree.args[0], known_ecs)
             return self.generic_visit(tree)
-    return TcoReturnTransformer().visit(tree)
+    return TcoReturnTransformer(protected=False).visit(tree)
+
+def _is_generator(tree):
+    """Return whether `tree`, a `FunctionDef`, has a `yield` or `yield from` of its own."""
+    nodes = list(tree.body)
+    while nodes:
+        node = nodes.pop()
+        if type(node) in (Yield, YieldFrom):
+            return True
+        if type(node) not in (FunctionDef, AsyncFunctionDef, Lambda, ClassDef):
+            nodes.extend(iter_child_nodes(node))
+    return False
 
 # userlambdas: list of ids; the purpose is to avoid transforming lambdas implicitly added by macros (do, let).
 def _tco_transform_lambda(tree, *, preproc_cb, userlambdas, known_ecs, transform_retexpr):
-- 
2.43.0


From f56364c028dcf09bc0abccaab17400b3780ee0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:51 +0000
Subject: [PATCH 075/126] fix: autoreturn: a def or class in tail position
 inside if/with/try

---
 unpythonic/syntax/tailtools.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/unpythonic/syntax/tailtools.py b/unpythonic/syntax/tailtools.py
index 29b1750..1b810ae 100644
--- a/unpythonic/syntax/tailtools.py
+++ b/unpythonic/syntax/tailtools.py
@@ -668,31 +668,31 @@ def _autoreturn(block_body):
             if is_captured_value(tree):
                 return tree  # don't recurse!
             if type(tree) in (FunctionDef, AsyncFunctionDef):
-                newtail = TailStatementTransformer().visit(tree.body[-1])
-                if isinstance(newtail, list):  # replaced by more than one statement?
-                    tree.body = tree.body[:-1] + newtail
-                else:
-                    tree.body[-1] = newtail
+                TailStatementTransformer().visit_tail(tree.body)
             return self.generic_visit(tree)
 
     class TailStatementTransformer(ASTTransformer):
+        def visit_tail(self, body):
+            newtail = self.visit(body[-1])
+            body[-1:] = newtail if isinstance(newtail, list) else [newtail]
+
         def transform(self, tree):
             # TODO: For/AsyncFor/While?
             if type(tree) is If:
-                tree.body[-1] = self.visit(tree.body[-1])
+                self.visit_tail(tree.body)
                 if tree.orelse:
-                    tree.orelse[-1] = self.visit(tree.orelse[-1])
+                    self.visit_tail(tree.orelse)
             elif type(tree) in (With, AsyncWith):
-                tree.body[-1] = self.visit(tree.body[-1])
+                self.visit_tail(tree.body)
             elif type(tree) in (Try, TryStar):  # Python 3.11+: `try`/`except*`
                 # We don't care about finalbody; typically used for unwinding only.
                 if tree.orelse:  # tail position is in else clause if present
-                    tree.orelse[-1] = self.visit(tree.orelse[-1])
+                    self.visit_tail(tree.orelse)
                 else:  # tail position is in the body of the "try"
-                    tree.body[-1] = self.visit(tree.body[-1])
+                    self.visit_tail(tree.body)
                 # additionally, tail position is in each "except" handler
                 for handler in tree.handlers:
-                    handler.body[-1] = self.visit(handler.body[-1])
+                    self.visit_tail(handler.body)
             elif type(tree) in (FunctionDef, AsyncFunctionDef, ClassDef):  # v0.15.0+
                 # If the item in tail position is a named function definition
                 # or a class definition, it binds a name - that of the function/class.
-- 
2.43.0


From 2412403a28b79afcaaa4b3111a776de5f06a5982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:08 +0000
Subject: [PATCH 076/126] fix: keyword arguments of the called function no
 longer clash with the names of our own parameters (jump, call, curry, apply,
 invoke, ...)

---
 unpythonic/arity.py       | 4 ++--
 unpythonic/collections.py | 4 ++--
 unpythonic/conditions.py  | 6 +++---
 unpythonic/dynassign.py   | 4 ++--
 unpythonic/fold.py        | 2 +-
 unpythonic/fun.py         | 8 ++++----
 unpythonic/funutil.py     | 4 ++--
 unpythonic/it.py          | 2 +-
 unpythonic/lazyutil.py    | 2 +-
 unpythonic/seq.py         | 4 ++--
 unpythonic/tco.py         | 2 +-
 11 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/unpythonic/arity.py b/unpythonic/arity.py
index 56032de..4307e53 100644
--- a/unpythonic/arity.py
+++ b/unpythonic/arity.py
@@ -339,14 +339,14 @@ def arity_includes(f, n):
     lower, upper = arities(f)
     return lower <= n <= upper
 
-def resolve_bindings_partial(f, *args, **kwargs):
+def resolve_bindings_partial(f, /, *args, **kwargs):
     """Like `resolve_bindings`, but use `inspect.Signature.bind_partial`.
 
     That is, it is acceptable for some parameters of `f` not to have a binding.
     """
     return _resolve_bindings(f, args, kwargs, _partial=True)
 
-def resolve_bindings(f, *args, **kwargs):
+def resolve_bindings(f, /, *args, **kwargs):
     """Resolve parameter bindings established by `f` when called with the given args and kwargs.
 
     This is an inspection tool, which does not actually call `f`. This is useful for memoizers
diff --git a/unpythonic/collections.py b/unpythonic/collections.py
index 8ac2a12..14c2c47 100644
--- a/unpythonic/collections.py
+++ b/unpythonic/collections.py
@@ -427,7 +427,7 @@ class frozendict:
     """
     # Make the empty frozendict() a singleton, but allow invoking the constructor
     # multiple times, always returning the same instance.
-    def __new__(cls, *ms, **bindings):
+    def __new__(cls, /, *ms, **bindings):
         if cls is frozendict and not ms and not bindings:
             global _the_empty_frozendict
             if _the_empty_frozendict is None:
@@ -448,7 +448,7 @@ class frozendict:
             return ("nonempty",)
         return ()
 
-    def __init__(self, *ms, **bindings):
+    def __init__(self, /, *ms, **bindings):
         """Arguments:
 
                ms: mappings; optional
diff --git a/unpythonic/conditions.py b/unpythonic/conditions.py
index 4553b74..759a9a0 100644
--- a/unpythonic/conditions.py
+++ b/unpythonic/conditions.py
@@ -229,7 +229,7 @@ def _prepare_signal_instance(condition, *, cause, protocol, stacklevel):
 
     return condition
 
-def invoke(name_or_restart, *args, **kwargs):
+def invoke(name_or_restart, /, *args, **kwargs):
     """Invoke a restart currently in scope. Known as `INVOKE-RESTART` in Common Lisp.
 
     `name_or_restart` can be the name of a restart, or a restart object returned
@@ -329,7 +329,7 @@ constant args/kwargs, to instantiate a handler that sends that specific
 set of constant args/kwargs.
 """
 
-def invoker(restart_name, *args, **kwargs):
+def invoker(restart_name, /, *args, **kwargs):
     """Create a handler that just invokes the named restart.
 
     The args and kwargs are "frozen" into the created handler by closure, and
@@ -496,7 +496,7 @@ class handlers(_Stacked):
         self.dq = _stacks.handlers
 
 class InvokeRestart(BaseException):
-    def __init__(self, restart, *args, **kwargs):  # e is the context
+    def __init__(self, restart, /, *args, **kwargs):  # e is the context
         self.restart, self.a, self.kw = restart, args, kwargs
         # message when uncaught
         self.args = ("unpythonic.conditions: internal error: uncaught InvokeRestart",)
diff --git a/unpythonic/dynassign.py b/unpythonic/dynassign.py
index dc838e2..613c9d4 100644
--- a/unpythonic/dynassign.py
+++ b/unpythonic/dynassign.py
@@ -175,7 +175,7 @@ class _Dyn(Singleton):
         scope = self._resolve(name)
         scope[name] = value
 
-    def let(self, **bindings):
+    def let(self, /, **bindings):
         """Introduce dynamic bindings.
 
         Context manager; usage is ``with dyn.let(name=value, ...):``
@@ -191,7 +191,7 @@ class _Dyn(Singleton):
         """
         return _EnvBlock(bindings)
 
-    def update(self, **bindings):
+    def update(self, /, **bindings):
         """Mass-update existing dynamic bindings.
 
         For each binding, the update occurs in the closest enclosing dynamic
diff --git a/unpythonic/fold.py b/unpythonic/fold.py
index c3eb4ff..05aaa3d 100644
--- a/unpythonic/fold.py
+++ b/unpythonic/fold.py
@@ -298,7 +298,7 @@ def unfold1(proc, init):
         value, state = result
         yield value
 
-def unfold(proc, *inits, **kwinits):
+def unfold(proc, /, *inits, **kwinits):
     """Like unfold1, but for n-in-(1+n)-out proc.
 
     The current state is unpacked to the argument list of ``proc``.
diff --git a/unpythonic/fun.py b/unpythonic/fun.py
index d2175d1..1996da8 100644
--- a/unpythonic/fun.py
+++ b/unpythonic/fun.py
@@ -117,7 +117,7 @@ def _unbind_method(f, args):
 # latest application winning. We must resist the temptation to override that behavior here,
 # because there are other places in the stdlib, particularly `inspect._signature_get_partial`
 # (as of Python 3.8), that expect the standard semantics.
-def partial(func, *args, **kwargs):
+def partial(func, /, *args, **kwargs):
     """Type-checking `functools.partial`.
 
     This is a wrapper that type-checks the arguments against the type annotations
@@ -209,7 +209,7 @@ def iscurried(f):
 
 @register_decorator(priority=8)
 @passthrough_lazy_args
-def curry(f, *args, _curry_force_call=False, _curry_allow_uninspectable=False, **kwargs):
+def curry(f, /, *args, _curry_force_call=False, _curry_allow_uninspectable=False, **kwargs):
     """Decorator: curry the function f.
 
     Essentially, the resulting function automatically chains partial application
@@ -473,7 +473,7 @@ def curry(f, *args, _curry_force_call=False, _curry_allow_uninspectable=False, *
     return curried
 
 @passthrough_lazy_args
-def _currycall(f, *args, **kwargs):
+def _currycall(f, /, *args, **kwargs):
     """Co-operate with unpythonic.syntax.autocurry.
 
     In a ``with autocurry`` block, we need to call `f` also when ``f()`` has
@@ -646,7 +646,7 @@ def rotate(k):
 # --------------------------------------------------------------------------------
 
 @passthrough_lazy_args
-def apply(f, arg0, *more, **kwargs):
+def apply(f, arg0, /, *more, **kwargs):
     """Scheme/Racket-like apply.
 
     Not really needed since Python has *, but included for completeness.
diff --git a/unpythonic/funutil.py b/unpythonic/funutil.py
index 68519e8..9064ffb 100644
--- a/unpythonic/funutil.py
+++ b/unpythonic/funutil.py
@@ -25,7 +25,7 @@ def _init_module():  # called by unpythonic.__init__ when otherwise done
 # pass arguments and then call f from a decorator position.
 @register_decorator(priority=80)
 @passthrough_lazy_args
-def call(f, *args, **kwargs):
+def call(f, /, *args, **kwargs):
     """Call the function f.
 
     **When used as a decorator**:
@@ -295,7 +295,7 @@ class Values:
     applies when that value is a `tuple`, when the intent is to return it as a
     single `tuple`, in contexts where this distinction matters.)
     """
-    def __init__(self, *rets, **kwrets):
+    def __init__(self, /, *rets, **kwrets):
         """Create a `Values` object.
 
         `rets`: positional return values
diff --git a/unpythonic/it.py b/unpythonic/it.py
index 4b28334..deb1070 100644
--- a/unpythonic/it.py
+++ b/unpythonic/it.py
@@ -564,7 +564,7 @@ def iterate1(f, x):
         yield x
         x = f(x)
 
-def iterate(f, *args, **kwargs):
+def iterate(f, /, *args, **kwargs):
     """Multiple-argument version of iterate1.
 
     The initial ``args`` and ``kwargs`` are packed into a ``Values`` object,
diff --git a/unpythonic/lazyutil.py b/unpythonic/lazyutil.py
index 7058798..144e301 100644
--- a/unpythonic/lazyutil.py
+++ b/unpythonic/lazyutil.py
@@ -110,7 +110,7 @@ def islazy(f):
     # special-case "_let" for lazify/curry combo when let[] expressions are present
     return hasattr(f, "_passthrough_lazy_args") or (hasattr(f, "__name__") and f.__name__ == "_let")
 
-def maybe_force_args(f, *thunks, **kwthunks):
+def maybe_force_args(f, /, *thunks, **kwthunks):
     """Internal. Helps calling strict functions from inside a ``with lazify`` block.
 
     If `not islazy(f)`, forces the given args and kwargs, and then calls `f` with them.
diff --git a/unpythonic/seq.py b/unpythonic/seq.py
index ca37025..a8eb16b 100644
--- a/unpythonic/seq.py
+++ b/unpythonic/seq.py
@@ -370,7 +370,7 @@ class piped:
     returns. Use a `Values` object to denote multiple-return-values, and/or
     named return values.
     """
-    def __init__(self, *xs, **kws):
+    def __init__(self, /, *xs, **kws):
         """Set up a pipe and load the initial values xs and kws into it.
 
         The inputs are automatically packed into a `Values`.
@@ -434,7 +434,7 @@ class lazy_piped:
         assert p | exitpipe == Values(a=89, b=144)  # run; check final state
         assert fibos == [1, 1, 2, 3, 5, 8, 13, 21, 34, 55]
     """
-    def __init__(self, *xs, _funcs=None, **kws):
+    def __init__(self, /, *xs, _funcs=None, **kws):
         """Set up a lazy pipe and load the initial values xs and kws into it.
 
         The inputs are automatically packed into a `Values`.
diff --git a/unpythonic/tco.py b/unpythonic/tco.py
index 1566a68..3d653b3 100644
--- a/unpythonic/tco.py
+++ b/unpythonic/tco.py
@@ -138,7 +138,7 @@ from .dynassign import dyn
 # In principle, jump should have @passthrough_lazy_args, but for performance reasons
 # it doesn't. "force(target)" is slow, so strict code shouldn't have to do that.
 # This is handled by a special case in maybe_force_args.
-def jump(target, *args, **kwargs):
+def jump(target, /, *args, **kwargs):
     """A jump (noun, not verb).
 
     Used in the syntax `return jump(f, ...)` to request the trampoline to
-- 
2.43.0


From d7a56d3f7b20809ae55b349085bb624af3a38090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:39 +0000
Subject: [PATCH 077/126] fix: terminate() inside a test construct did not
 terminate the session

---
 unpythonic/syntax/testingtools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/unpythonic/syntax/testingtools.py b/unpythonic/syntax/testingtools.py
index 73fcad0..9353a8b 100644
--- a/unpythonic/syntax/testingtools.py
+++ b/unpythonic/syntax/testingtools.py
@@ -535,6 +535,8 @@ def _observe(thunk):
         return fixtures.signaled, unbox(sig)
     # This testing framework always signals, never raises, so we don't need any
     # special handling here.
+    except fixtures.TestSessionExit:  # pass through, it belongs to session, not us
+        raise
     except Exception as err:  # including ControlError raised by an unhandled `unpythonic.conditions.error`
         return fixtures.raised, err
 
-- 
2.43.0


From 6d97fc4db195921a1163dfbbccb9c6952a216ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:01 +0000
Subject: [PATCH 078/126] fix: REPL server: fg() always raised TypeError; races
 between bg(), fg() and the job

---
 unpythonic/net/server.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/unpythonic/net/server.py b/unpythonic/net/server.py
index a62a3a0..021dfbc 100644
--- a/unpythonic/net/server.py
+++ b/unpythonic/net/server.py
@@ -245,14 +245,15 @@ def bg(thunk):
     """
     @namelambda(thunk.__name__)
     def worker():
-        _bg_results[thread.ident] = (_bg_running, None)
         try:
             result = thunk()
         except Exception as err:
-            _bg_results[thread.ident] = (_bg_fail, err)
+            _bg_results[thread] = (_bg_fail, err)
         else:
-            _bg_results[thread.ident] = (_bg_success, result)
+            _bg_results[thread] = (_bg_success, result)
     thread = threading.Thread(target=worker, name=thunk.__name__, daemon=True)
+    # Key by the thread object; a thread ident may be recycled once the thread exits.
+    _bg_results[thread] = (_bg_running, None)
     thread.start()
     return thread
 
@@ -268,15 +269,16 @@ def fg(thread):
       - returned normally: return the value.
       - raised an exception: raise that exception.
     """
-    if "ident" not in thread:
+    if not isinstance(thread, threading.Thread):
         raise TypeError(f"Expected a Thread object, got {type(thread)} with value {repr(thread)}.")
-    if thread.ident not in _bg_results:
-        raise ValueError(f"No result for thread {repr(thread)}")
     # This pattern is very similar to that used by unpythonic.fun.memoize...
-    status, value = _bg_results[thread.ident]
-    if status is _bg_running:
-        return thread
-    _bg_results.pop(thread.ident)
+    try:
+        status, value = _bg_results[thread]
+        if status is _bg_running:
+            return thread
+        _bg_results.pop(thread)  # fails if another session got here first
+    except KeyError:
+        raise ValueError(f"No result for thread {repr(thread)}") from None
     if status is _bg_success:
         return value
     elif status is _bg_fail:
-- 
2.43.0


From 1cdc4a6eec44cfd34ded43f395f188cdf495baf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:01 +0000
Subject: [PATCH 079/126] fix: REPL control channel: an empty or non-dict
 request closed the session instead of getting a reply

---
 unpythonic/net/server.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unpythonic/net/server.py b/unpythonic/net/server.py
index 021dfbc..29fbb37 100644
--- a/unpythonic/net/server.py
+++ b/unpythonic/net/server.py
@@ -347,11 +347,11 @@ class ControlSession(socketserver.BaseRequestHandler, ApplevelProtocolMixin):
                 # field may contain a short description about the failure.
                 # More information may be included in arbitrary other fields.
                 request = self._recv()
-                if not request:
+                if request is None:
                     server_print(f"Socket for {client_address_str} closed by client.")
                     raise ClientExit
 
-                if "command" not in request:
+                if not isinstance(request, dict) or "command" not in request:
                     reply = {"status": "failed", "reason": "Request is missing the 'command' field."}
 
                 elif request["command"] == "DescribeServer":
-- 
2.43.0


From 1e200a4fe5aa5fa4777f514dd3a8ab9d3ac32f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:22 +0000
Subject: [PATCH 080/126] fix: REPL control channel: invalid PairWithSession or
 TabComplete parameters closed the session

---
 unpythonic/net/server.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/unpythonic/net/server.py b/unpythonic/net/server.py
index 29fbb37..01c807a 100644
--- a/unpythonic/net/server.py
+++ b/unpythonic/net/server.py
@@ -366,7 +366,7 @@ class ControlSession(socketserver.BaseRequestHandler, ApplevelProtocolMixin):
                     if "id" not in request:
                         reply = {"status": "failed", "reason": "Request is missing the PairWithSession parameter 'id'."}
                     else:
-                        if request["id"] not in _active_sessions:
+                        if request["id"] not in tuple(_active_sessions):  # the `id` may be unhashable
                             errmsg = f"Pairing control session failed; there is no active REPL session with id={request['id']}."
                             reply = {"status": "failed", "reason": errmsg}
                             server_print(errmsg)
@@ -379,9 +379,13 @@ class ControlSession(socketserver.BaseRequestHandler, ApplevelProtocolMixin):
                     if "text" not in request or "state" not in request:
                         reply = {"status": "failed", "reason": "Request is missing at least one of the TabComplete parameters 'text' and 'state'."}
                     else:
-                        completion = completer_backend.complete(request["text"], request["state"])
-                        # server_print(request, reply)  # DEBUG
-                        reply = {"status": "ok", "result": completion}
+                        try:
+                            completion = completer_backend.complete(request["text"], request["state"])
+                        except Exception as err:
+                            reply = {"status": "failed", "reason": f"Tab completion failed: {err}"}
+                        else:
+                            # server_print(request, reply)  # DEBUG
+                            reply = {"status": "ok", "result": completion}
 
                 elif request["command"] == "KeyboardInterrupt":
                     server_print(f"Client {client_address_str} sent request for remote Ctrl+C.")
-- 
2.43.0


From 084cd8eeb3bd7cea2d9bec811e3d6e8509839b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:22 +0000
Subject: [PATCH 081/126] fix: PTYSocketProxy lost output when the socket
 accepted only a part of it

---
 unpythonic/net/ptyproxy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpythonic/net/ptyproxy.py b/unpythonic/net/ptyproxy.py
index 7e870ca..b682e0d 100644
--- a/unpythonic/net/ptyproxy.py
+++ b/unpythonic/net/ptyproxy.py
@@ -85,7 +85,7 @@ class PTYSocketProxy:
                             if len(request) == 0:  # disconnect by PTY slave
                                 self.on_slave_disconnect(self)
                                 return
-                            self.sock.send(request)
+                            self.sock.sendall(request)
                         else:
                             request = self.sock.recv(4096)
                             if len(request) == 0:  # disconnect by client behind socket
-- 
2.43.0


From c1e9c54d65f15152c1b21a579c331422a6f29f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:11 +0000
Subject: [PATCH 082/126] fix: PTYSocketProxy did not report a disconnect
 detected while sending

---
 unpythonic/net/ptyproxy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpythonic/net/ptyproxy.py b/unpythonic/net/ptyproxy.py
index b682e0d..fd9b002 100644
--- a/unpythonic/net/ptyproxy.py
+++ b/unpythonic/net/ptyproxy.py
@@ -92,7 +92,7 @@ class PTYSocketProxy:
                                 self.on_socket_disconnect(self)
                                 return
                             os.write(self.master, request)
-                except ConnectionResetError:
+                except (ConnectionResetError, BrokenPipeError):
                     self.on_socket_disconnect(self)
                     return
 
-- 
2.43.0


From 78a631f70e201746ea00c044ace303b5b5d1e928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:24 +0000
Subject: [PATCH 083/126] fix: a let or do nested inside a do could not bind a
 name that is local in the outer do

---
 unpythonic/syntax/letdo.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/unpythonic/syntax/letdo.py b/unpythonic/syntax/letdo.py
index 5bda9cf..4294568 100644
--- a/unpythonic/syntax/letdo.py
+++ b/unpythonic/syntax/letdo.py
@@ -26,7 +26,7 @@ from ast import (Name,
                  FunctionDef, Return,
                  AsyncFunctionDef,
                  arguments, arg,
-                 Load)
+                 Load, walk)
 import sys
 
 from mcpyrate.quotes import macros, q, u, n, a, t, h  # noqa: F401
@@ -40,7 +40,7 @@ from ..lispylet import _let as letf, _dlet as dletf, _blet as bletf
 from ..misc import namelambda
 from ..seq import do as dof
 
-from .letdoutil import (isdo, isenvassign, UnexpandedEnvAssignView,
+from .letdoutil import (islet, isdo, isenvassign, UnexpandedEnvAssignView,
                         UnexpandedLetView, canonize_bindings)
 from .nameutil import getname, is_unexpanded_expr_macro
 from .scopeanalyzer import scoped_transform
@@ -908,6 +908,9 @@ def _do(tree):
         # the name transform (RHS) should use the previous bindings, so that any
         # changes to bindings take effect starting from the **next** do-item.
         updated_names = [x for x in names + newnames if x not in deletednames]
+        # Any nested let or do must bind its own names first, so that those shadow ours.
+        if any(islet(node, expanded=False) or isdo(node, expanded=False) for node in walk(expr)):
+            expr = dyn._macro_expander.visit_recursively(expr)
         expr = _letlike_transform(expr, e, lhsnames=updated_names, rhsnames=names, setter=envset)
         expr = q[h[namelambda](u[f"do_line{j}"])(a[expr])]
         names = updated_names
-- 
2.43.0


From fde3b76db194fbbc59f7677e378f46591f096515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:27 +0000
Subject: [PATCH 084/126] fix: scope analysis: parameters of an inner function
 leaked into the surrounding function

---
 unpythonic/syntax/scopeanalyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpythonic/syntax/scopeanalyzer.py b/unpythonic/syntax/scopeanalyzer.py
index 27d7a8c..85645e7 100644
--- a/unpythonic/syntax/scopeanalyzer.py
+++ b/unpythonic/syntax/scopeanalyzer.py
@@ -133,7 +133,7 @@ def scoped_transform(tree, *, callback):
                 tree.args = self.visit(tree.args)
 
                 # The body sees the parameters and any new nonlocals
-                args += moreargs
+                args = args + moreargs  # not in-place; the list belongs to the surrounding scope
                 nonlocals = newnonlocals
                 newbody = []
                 for stmt in tree.body:
-- 
2.43.0


From 222caf8d9c80cd18538de9ef65fc6393bf181955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:27 +0000
Subject: [PATCH 085/126] fix: scope analysis: parameter defaults, class bases
 and the outermost iterable of a comprehension belong to the surrounding scope

---
 unpythonic/syntax/scopeanalyzer.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/unpythonic/syntax/scopeanalyzer.py b/unpythonic/syntax/scopeanalyzer.py
index 85645e7..e9cb50e 100644
--- a/unpythonic/syntax/scopeanalyzer.py
+++ b/unpythonic/syntax/scopeanalyzer.py
@@ -120,7 +120,13 @@ def scoped_transform(tree, *, callback):
                 names_in_scope = args + localvars + nonlocals
                 tree = callback(tree, names_in_scope)
                 if tree:  # allow deletions by the custom transformer
-                    self.generic_withstate(tree, args=(args + moreargs))
+                    # The default values of a lambda, the bases and decorators of a class, and
+                    # the outermost iterable of a comprehension belong to the surrounding scope.
+                    if type(tree) in (Lambda, ClassDef):
+                        self.withstate(tree.body, args=(args + moreargs))
+                    else:
+                        self.generic_withstate(tree, args=(args + moreargs))
+                        self.withstate(tree.generators[0].iter)
                     return self.generic_visit(tree)
             elif type(tree) in (FunctionDef, AsyncFunctionDef):
                 # Decorator list is processed in the surrounding scope
@@ -128,8 +134,7 @@ def scoped_transform(tree, *, callback):
 
                 moreargs, newnonlocals = get_lexical_variables(tree, collect_locals=False)
 
-                # The function parameters see each other (TODO: check if this is right)
-                self.withstate(tree.args, args=(args + moreargs))
+                # Default values are processed in the surrounding scope
                 tree.args = self.visit(tree.args)
 
                 # The body sees the parameters and any new nonlocals
-- 
2.43.0


From 75f0c2c139f3e8090732ef44cf8bea7cb2f226a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:27 +0000
Subject: [PATCH 086/126] fix: scope analysis crashed on mapping and class
 patterns of match

---
 unpythonic/syntax/scopeanalyzer.py | 27 ++++-----------------------
 1 file changed, 4 insertions(+), 23 deletions(-)

diff --git a/unpythonic/syntax/scopeanalyzer.py b/unpythonic/syntax/scopeanalyzer.py
index e9cb50e..4f8c7e6 100644
--- a/unpythonic/syntax/scopeanalyzer.py
+++ b/unpythonic/syntax/scopeanalyzer.py
@@ -80,7 +80,7 @@ from ast import (Name, Tuple, Lambda, FunctionDef, AsyncFunctionDef, ClassDef,
                  Import, ImportFrom, Try, ListComp, SetComp, GeneratorExp,
                  DictComp, Store, Del, Global, Nonlocal)
 
-from mcpyrate.astcompat import TryStar, MatchStar, MatchMapping, MatchClass, MatchAs
+from mcpyrate.astcompat import TryStar, MatchStar, MatchMapping, MatchAs
 from mcpyrate.core import Done
 from mcpyrate.walkers import ASTTransformer, ASTVisitor
 
@@ -321,12 +321,6 @@ def get_names_in_store_context(tree):
     by ``get_lexical_variables`` for the nearest lexically surrounding parent
     tree that represents a scope.
     """
-    class MatchCapturesCollector(ASTVisitor):  # Python 3.10+: `match`/`case`
-        def examine(self, tree):
-            if type(tree) is Name:
-                self.collect(tree.id)
-            self.generic_visit(tree)
-
     class StoreNamesCollector(ASTVisitor):
         # def _collect_name_or_list(self, t):
         #     if type(t) is Name:
@@ -360,28 +354,15 @@ def get_names_in_store_context(tree):
                 # TODO: `try`, even inside the `except` blocks, will be bound in the whole parent scope.
                 for h in tree.handlers:
                     self.collect(h.name)
-            # Python 3.10+: `match`/`case` uses names in `Load` context to denote captures.
-            # Also there are some bare strings, and sometimes `None` actually means "_" (but doesn't capture).
+            # Python 3.10+: `match`/`case` uses bare strings to denote captures,
+            # and sometimes `None` actually means "_" (but doesn't capture).
             # So we special-case all of this.
-            elif type(tree) in (MatchAs, MatchStar):  # a `MatchSequence` also consists of these
+            elif type(tree) in (MatchAs, MatchStar):  # the other patterns also consist of these
                 if tree.name is not None:
                     self.collect(tree.name)
             elif type(tree) is MatchMapping:
-                mcc = MatchCapturesCollector(tree.patterns)
-                mcc.visit()
-                for name in mcc.collected:
-                    self.collect(name)
                 if tree.rest is not None:  # `rest` is a capture if present
                     self.collect(tree.rest)
-            elif type(tree) is MatchClass:
-                mcc = MatchCapturesCollector(tree.patterns)
-                mcc.visit()
-                for name in mcc.collected:
-                    self.collect(name)
-                mcc = MatchCapturesCollector(tree.kwd_patterns)
-                mcc.visit()
-                for name in mcc.collected:
-                    self.collect(name)
 
             # Python 3.12+: `TypeAlias` uses a name in `Store` context on its LHS so it needs no special handling here.
 
-- 
2.43.0


From 1a581474245ae74fdaba6bb726478561fd14c5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:27 +0000
Subject: [PATCH 087/126] fix: scope analysis rejected a list as comprehension
 target

---
 unpythonic/syntax/scopeanalyzer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unpythonic/syntax/scopeanalyzer.py b/unpythonic/syntax/scopeanalyzer.py
index 4f8c7e6..22e6348 100644
--- a/unpythonic/syntax/scopeanalyzer.py
+++ b/unpythonic/syntax/scopeanalyzer.py
@@ -76,7 +76,7 @@ __all__ = ["isnewscope",
            "collect_globals",
            "collect_nonlocals"]
 
-from ast import (Name, Tuple, Lambda, FunctionDef, AsyncFunctionDef, ClassDef,
+from ast import (Name, Tuple, List, Lambda, FunctionDef, AsyncFunctionDef, ClassDef,
                  Import, ImportFrom, Try, ListComp, SetComp, GeneratorExp,
                  DictComp, Store, Del, Global, Nonlocal)
 
@@ -274,7 +274,7 @@ def get_lexical_variables(tree, collect_locals=True):
             # The `Done` may be produced by expanded `@namemacro`s.
             elif isinstance(g.target, Done) and type(g.target.body) is Name:
                 targetnames.append(g.target.body.id)
-            elif type(g.target) is Tuple:
+            elif type(g.target) in (Tuple, List):
                 class NamesCollector(ASTVisitor):
                     def examine(self, tree):
                         if type(tree) is Name:
-- 
2.43.0


From 729c71f9de48777ee0ec1f5acb2321fe991f9a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:27 +0000
Subject: [PATCH 088/126] fix: scope analysis: names bound inside a compound
 statement (for, with, except, match, ...) are in scope in the rest of that
 statement

---
 unpythonic/syntax/scopeanalyzer.py | 89 ++++++++++++++++++++++--------
 1 file changed, 67 insertions(+), 22 deletions(-)

diff --git a/unpythonic/syntax/scopeanalyzer.py b/unpythonic/syntax/scopeanalyzer.py
index 22e6348..7048a0e 100644
--- a/unpythonic/syntax/scopeanalyzer.py
+++ b/unpythonic/syntax/scopeanalyzer.py
@@ -78,9 +78,10 @@ __all__ = ["isnewscope",
 
 from ast import (Name, Tuple, List, Lambda, FunctionDef, AsyncFunctionDef, ClassDef,
                  Import, ImportFrom, Try, ListComp, SetComp, GeneratorExp,
-                 DictComp, Store, Del, Global, Nonlocal)
+                 DictComp, Store, Del, Global, Nonlocal, For, AsyncFor,
+                 ExceptHandler, AST, stmt, iter_fields)
 
-from mcpyrate.astcompat import TryStar, MatchStar, MatchMapping, MatchAs
+from mcpyrate.astcompat import TryStar, Match, MatchStar, MatchMapping, MatchAs
 from mcpyrate.core import Done
 from mcpyrate.walkers import ASTTransformer, ASTVisitor
 
@@ -93,6 +94,10 @@ def isnewscope(tree):
     """
     return type(tree) in (Lambda, FunctionDef, AsyncFunctionDef, ClassDef, ListComp, SetComp, GeneratorExp, DictComp)
 
+def _is_suite(x):
+    """Return whether `x` is a (nonempty) statement suite."""
+    return isinstance(x, list) and bool(x) and all(isinstance(elt, stmt) for elt in x)
+
 # TODO: make this fit `mcpyrate`'s `ASTTransformer` paradigm better.
 # TODO: maybe allow passing initial args, localvars, nonlocals?
 def scoped_transform(tree, *, callback):
@@ -140,32 +145,72 @@ def scoped_transform(tree, *, callback):
                 # The body sees the parameters and any new nonlocals
                 args = args + moreargs  # not in-place; the list belongs to the surrounding scope
                 nonlocals = newnonlocals
-                newbody = []
-                for stmt in tree.body:
-                    self.withstate(stmt, args=args, localvars=localvars, nonlocals=nonlocals)
-                    stmt = self.visit(stmt)
-                    # TODO: should we allow the custom transformer to return a list of statements, too?
-                    if stmt:  # allow deletions by the custom transformer
-                        newbody.append(stmt)
-                    # new local variables come into scope at the next statement (not yet on the RHS of the assignment).
-                    # TODO: Nonsense, scoping is a purely lexical thing. Fix this.
-                    newlocalvars = uniqify(get_names_in_store_context(stmt))
-                    newlocalvars = [x for x in newlocalvars if x not in nonlocals]
-                    if newlocalvars:
-                        localvars = localvars + newlocalvars
-                    # deletions of local vars also take effect from the next statement
-                    deletedlocalvars = uniqify(get_names_in_del_context(stmt))
-                    # ignore deletion of nonlocals (too dynamic for a static analysis to make sense)
-                    deletedlocalvars = [x for x in deletedlocalvars if x not in nonlocals]
-                    if deletedlocalvars:
-                        localvars = [x for x in localvars if x not in deletedlocalvars]
-                tree.body[:] = newbody  # avoid changing the id()
+                self.transform_suite(tree.body, localvars, args=args, nonlocals=nonlocals)
                 return tree
+            elif any(_is_suite(v) for _, v in iter_fields(tree)) or type(tree) is Match:  # compound statement
+                names_in_scope = args + localvars + nonlocals
+                tree = callback(tree, names_in_scope)
+                if tree:  # allow deletions by the custom transformer
+                    self.transform_compound(tree, localvars)
+                    return tree
             else:
                 names_in_scope = args + localvars + nonlocals
                 tree = callback(tree, names_in_scope)
                 if tree:  # allow deletions by the custom transformer
                     return self.generic_visit(tree)
+
+        def transform_suite(self, body, localvars, **state):
+            """Transform the statements of `body` in place. Return the updated `localvars`."""
+            newbody = []
+            for elt in body:
+                self.withstate(elt, localvars=localvars, **state)
+                elt = self.visit(elt)
+                # TODO: should we allow the custom transformer to return a list of statements, too?
+                if elt:  # allow deletions by the custom transformer
+                    newbody.append(elt)
+                    # new local variables come into scope at the next statement (not yet on the RHS of the assignment).
+                    # TODO: Nonsense, scoping is a purely lexical thing. Fix this.
+                    localvars = self.update_localvars(elt, localvars, **state)
+            body[:] = newbody  # avoid changing the id()
+            return localvars
+
+        def update_localvars(self, tree, localvars, **state):
+            nonlocals = state.get("nonlocals", self.state.nonlocals)
+            newlocalvars = uniqify(get_names_in_store_context(tree))
+            newlocalvars = [x for x in newlocalvars if x not in nonlocals]
+            if newlocalvars:
+                localvars = localvars + newlocalvars
+            # deletions of local vars also take effect from the next statement
+            deletedlocalvars = uniqify(get_names_in_del_context(tree))
+            # ignore deletion of nonlocals (too dynamic for a static analysis to make sense)
+            deletedlocalvars = [x for x in deletedlocalvars if x not in nonlocals]
+            if deletedlocalvars:
+                localvars = [x for x in localvars if x not in deletedlocalvars]
+            return localvars
+
+        def transform_compound(self, tree, localvars):
+            """Transform the parts of a compound statement in place. Return the updated `localvars`.
+
+            The names bound by the header, and those bound by the statements in a suite,
+            are in scope in the lexically remaining part of the compound statement.
+            """
+            fields = list(iter_fields(tree))
+            if type(tree) in (For, AsyncFor):  # the target is bound after the iterable is evaluated
+                fields.sort(key=lambda item: item[0] != "iter")
+            for name, value in fields:
+                if _is_suite(value):
+                    localvars = self.transform_suite(value, localvars)
+                elif isinstance(value, list):  # with-items, exception handlers, match cases
+                    for item in value:
+                        localvars = self.transform_compound(item, localvars)
+                elif isinstance(value, AST):
+                    self.withstate(value, localvars=localvars)
+                    value = self.visit(value)
+                    setattr(tree, name, value)
+                    localvars = self.update_localvars(value, localvars)
+                elif type(tree) is ExceptHandler and name == "name" and value is not None:
+                    localvars = localvars + [value]
+            return localvars
     return ScopedTransformer(args=[], localvars=[], nonlocals=[]).visit(tree)
 
 def get_lexical_variables(tree, collect_locals=True):
-- 
2.43.0


From cd2231bc270256e50b9713adae6045f984f81c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:13 +0000
Subject: [PATCH 089/126] fix: local[] and delete[] in a multiple-expression
 let body nested in a do were rejected

---
 unpythonic/syntax/letdo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unpythonic/syntax/letdo.py b/unpythonic/syntax/letdo.py
index 4294568..9666204 100644
--- a/unpythonic/syntax/letdo.py
+++ b/unpythonic/syntax/letdo.py
@@ -871,8 +871,8 @@ def _do(tree):
             def examine(self, tree):
                 if is_captured_value(tree):
                     return  # don't recurse!
-                elif isdo(tree, expanded=False):
-                    return  # don't recurse!
+                elif isdo(tree, expanded=False) or islet(tree, expanded=False):
+                    return  # don't recurse! (a let may have a multiple-expression body, which is an implicit do)
                 elif ismatch(tree):
                     # Expand the stray helper macro invocation, to trigger its `SyntaxError`
                     # with a useful message, and *make the expander generate a use site traceback*.
-- 
2.43.0


From 513a84f68ecb3a506cb2490d993dd692aa8276ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:13 +0000
Subject: [PATCH 090/126] fix: do: an assignment inside the value of a local[]
 wrote to the new local instead of the binding visible there

---
 unpythonic/syntax/letdo.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/unpythonic/syntax/letdo.py b/unpythonic/syntax/letdo.py
index 9666204..a531b65 100644
--- a/unpythonic/syntax/letdo.py
+++ b/unpythonic/syntax/letdo.py
@@ -845,7 +845,7 @@ def _do(tree):
                     view = UnexpandedEnvAssignView(expr)
                     self.collect(view.name)
                     view.value = self.visit(view.value)  # nested local[] (e.g. from `do0[local[y := 5],]`)
-                    return expr  # `local[x := 21]` --> `x := 21`; compiling *that* makes the env-assignment occur.
+                    return q[a[envset](u[view.name], a[view.value])]  # `local[x := 21]` --> `e._set('x', 21)`
                 return tree  # don't recurse!
         c = LocaldefCollector()
         tree = c.visit(tree)
@@ -904,14 +904,14 @@ def _do(tree):
         check_stray_localdefs(expr)
         check_stray_deletes(expr)
 
-        # The envassignment transform (LHS) needs the updated bindings, whereas
-        # the name transform (RHS) should use the previous bindings, so that any
-        # changes to bindings take effect starting from the **next** do-item.
+        # Both the envassignment transform (LHS) and the name transform (RHS) should use
+        # the previous bindings, so that any changes to bindings take effect starting
+        # from the **next** do-item.
         updated_names = [x for x in names + newnames if x not in deletednames]
         # Any nested let or do must bind its own names first, so that those shadow ours.
         if any(islet(node, expanded=False) or isdo(node, expanded=False) for node in walk(expr)):
             expr = dyn._macro_expander.visit_recursively(expr)
-        expr = _letlike_transform(expr, e, lhsnames=updated_names, rhsnames=names, setter=envset)
+        expr = _letlike_transform(expr, e, lhsnames=names, rhsnames=names, setter=envset)
         expr = q[h[namelambda](u[f"do_line{j}"])(a[expr])]
         names = updated_names
         lines.append(expr)
-- 
2.43.0


From 6d1cfd386ae60e37e306fc8ad531640f5e132048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:38 +0000
Subject: [PATCH 091/126] fix: dletseq, bletseq: parameters did not shadow the
 bindings (and were visible in them); bindings were re-evaluated at each call

---
 unpythonic/syntax/letdo.py | 58 +++++++++++++-------------------------
 1 file changed, 20 insertions(+), 38 deletions(-)

diff --git a/unpythonic/syntax/letdo.py b/unpythonic/syntax/letdo.py
index a531b65..5e6a7cd 100644
--- a/unpythonic/syntax/letdo.py
+++ b/unpythonic/syntax/letdo.py
@@ -568,15 +568,15 @@ def _dletseq_impl(bindings, body, kind):
     #
     # -->
     #
-    # @dlet[x := 1]
-    # def g(*args, **kwargs, e1):  # original args from tree go to the outermost def
-    #   @dlet[x := x + 1]          # on RHS, important for e1.x to be in scope
+    # @blet[x := 1]
+    # def g(*, e1):              # the outer layers run once, at definition time
+    #   @blet[x := x + 1]        # on RHS, important for e1.x to be in scope
     #   def g2(*, e2):
     #       @dlet[x := x + 2]
-    #       def g3(*, e3):         # expansion proceeds from inside out
-    #           return e3.x        # original args travel here by the closure property
-    #       return g3()
-    #   return g2()
+    #       def g(*args, e3, **kwargs):  # original args from tree go to the innermost def
+    #           return e3.x      # expansion proceeds from inside out
+    #       return g
+    #   return g2
     # assert g() == 4
     #
     assert kind in ("decorate", "call")
@@ -588,40 +588,22 @@ def _dletseq_impl(bindings, body, kind):
         # with no bindings, when used directly from other syntax transformers.
         return body  # pragma: no cover
 
-    userargs = body.args  # original arguments to the def
     fname = body.name
-    noargs = arguments(args=[], kwonlyargs=[], vararg=None, kwarg=None,
-                       defaults=[], kw_defaults=[])
-    if sys.version_info >= (3, 8, 0):  # Python 3.8+: positional-only arguments
-        noargs.posonlyargs = []
-    iname = gensym(f"{fname}_inner")
-    body.args = noargs
-    body.name = iname
-
     *rest, last = bindings
     dletter = _dlet if kind == "decorate" else _blet
-    innerdef = dletter([last], body)
-
-    # optimization: in the final step, no need to generate a wrapper function
-    if not rest:
-        tmpargs = innerdef.args
-        innerdef.name = fname
-        innerdef.args = userargs
-        # copy the env arg
-        innerdef.args.kwonlyargs += tmpargs.kwonlyargs
-        innerdef.args.kw_defaults += tmpargs.kw_defaults
-        return innerdef
-
-    # If kind=="decorate", the outer function needs to call the inner one
-    # after defining it.
-    # If kind=="call", then, after innerdef completes, the inner function has
-    # already been replaced by its return value.
-    ret = Return(value=q[n[iname]()]) if kind == "decorate" else Return(value=q[n[iname]])
-    outer = FunctionDef(name=fname, args=userargs,
-                        body=[innerdef, ret],
-                        decorator_list=[],
-                        returns=None)  # no return type annotation
-    return _dletseq_impl(rest, outer, kind)
+    tree = dletter([last], body)
+    for binding in reversed(rest):
+        noargs = arguments(args=[], kwonlyargs=[], vararg=None, kwarg=None,
+                           defaults=[], kw_defaults=[])
+        if sys.version_info >= (3, 8, 0):  # Python 3.8+: positional-only arguments
+            noargs.posonlyargs = []
+        outer = FunctionDef(name=gensym(f"{fname}_outer"), args=noargs,
+                            body=[tree, Return(value=q[n[tree.name]])],
+                            decorator_list=[],
+                            returns=None)  # no return type annotation
+        tree = _blet([binding], outer)
+    tree.name = fname
+    return tree
 
 # -----------------------------------------------------------------------------
 # Imperative code in expression position. Uses the "let" machinery.
-- 
2.43.0


From 5e7d508afbe7242b6269c66c6b2648f7b6bc96ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:21 +0000
Subject: [PATCH 092/126] fix: scope analysis: a name declared global or
 nonlocal in a function was not in scope in its inner functions

---
 unpythonic/syntax/scopeanalyzer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unpythonic/syntax/scopeanalyzer.py b/unpythonic/syntax/scopeanalyzer.py
index 7048a0e..dfd59c4 100644
--- a/unpythonic/syntax/scopeanalyzer.py
+++ b/unpythonic/syntax/scopeanalyzer.py
@@ -142,8 +142,8 @@ def scoped_transform(tree, *, callback):
                 # Default values are processed in the surrounding scope
                 tree.args = self.visit(tree.args)
 
-                # The body sees the parameters and any new nonlocals
-                args = args + moreargs  # not in-place; the list belongs to the surrounding scope
+                # The body sees the parameters, any new nonlocals, and names declared nonlocal or global in the surrounding function
+                args = args + nonlocals + moreargs  # not in-place; the list belongs to the surrounding scope
                 nonlocals = newnonlocals
                 self.transform_suite(tree.body, localvars, args=args, nonlocals=nonlocals)
                 return tree
-- 
2.43.0


From 88756c21c85854da3a1000fb865f335c3f791931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:10 +0000
Subject: [PATCH 093/126] fix: call_cc[None] and a skipped conditional
 call_cc[] ran the parent continuation twice

---
 unpythonic/syntax/tailtools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unpythonic/syntax/tailtools.py b/unpythonic/syntax/tailtools.py
index 1b810ae..840361a 100644
--- a/unpythonic/syntax/tailtools.py
+++ b/unpythonic/syntax/tailtools.py
@@ -1081,7 +1081,8 @@ def _continuations(block_body):  # here be dragons.
             if tree:
                 tree.keywords = [keyword(arg="cc", value=q[n[contname]])] + tree.keywords
             else:  # no call means proceed to cont directly, with args set to None
-                tree = q[n[contname](*([None] * u[len(targets)]), cc=n["cc"])]
+                # (No need to pass our `cc`; the continuation captures it as its `_pcc`.)
+                tree = q[n[contname](*([None] * u[len(targets)]))]
             return tree
         thecall = prepare_call(thecall)
         if condition:
-- 
2.43.0


From 6a72dff4003cfae945d06f91728a0d5424194676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:10 +0000
Subject: [PATCH 094/126] fix: continuations: a second call_cc[] in a function
 lost the continuation of the function

---
 unpythonic/syntax/tailtools.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/unpythonic/syntax/tailtools.py b/unpythonic/syntax/tailtools.py
index 840361a..1bcff90 100644
--- a/unpythonic/syntax/tailtools.py
+++ b/unpythonic/syntax/tailtools.py
@@ -779,6 +779,16 @@ def chain_conts(cc1, cc2, with_star=False):  # cc1=_pcc, cc2=cc
                     return jump(cc2, return_value)
     return cc
 
+def capture_pcc(pcc, cc):
+    """Internal function, used in code generated by the continuations macro.
+
+    Return the parent continuation for a continuation being captured at a point
+    where the current parent continuation is `pcc` and the current continuation `cc`.
+    """
+    if cc is identity:
+        return pcc
+    return chain_conts(pcc, cc, with_star=True)
+
 
 _continuations_level = NestingLevelTracker()  # for checking validity of call_cc[]
 
@@ -1100,10 +1110,12 @@ def _continuations(block_body):  # here be dragons.
         # TODO: needs to be modified, too.
         #
         FDef = type(owner) if owner else FunctionDef  # use same type (regular/async) as parent function
-        non = q[None]
-        maybe_capture = IfExp(test=q[n["cc"] is not h[identity]],
-                              body=q[n["cc"]],
-                              orelse=non)
+        # What remains to be done after the use site returns. If that is itself inside
+        # a continuation (i.e. after another `call_cc[]`), its `_pcc` is a part of this.
+        if owner:
+            maybe_capture = q[h[capture_pcc](n["_pcc"], n["cc"])]
+        else:
+            maybe_capture = q[h[capture_pcc](None, n["cc"])]
         contarguments = arguments(args=[arg(arg=x) for x in targets],
                                   kwonlyargs=[arg(arg="cc"), arg(arg="_pcc")],
                                   vararg=(arg(arg=starget) if starget else None),
-- 
2.43.0


From d7df899b7cd87abab159b8198ec4bf3525cef52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:10 +0000
Subject: [PATCH 095/126] fix: continuations: the cc of a function tail-called
 from a continuation could not be called

---
 unpythonic/syntax/tailtools.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/unpythonic/syntax/tailtools.py b/unpythonic/syntax/tailtools.py
index 1bcff90..fb589a7 100644
--- a/unpythonic/syntax/tailtools.py
+++ b/unpythonic/syntax/tailtools.py
@@ -755,9 +755,16 @@ def _tco(block_body):
 def chain_conts(cc1, cc2, with_star=False):  # cc1=_pcc, cc2=cc
     """Internal function, used in code generated by the continuations macro."""
     if with_star:  # to be chainable from a tail call, accept a multiple-values arglist
-        if cc1 is not None:
-            def cc(*rets, **kwrets):
-                return jump(cc1, cc=cc2, *rets, **kwrets)
+        if cc1 is not None and cc2 is identity:
+            cc = cc1
+        elif cc1 is not None:
+            # The result is visible to the user as the `cc` of the called function,
+            # so it must behave as a continuation: it can be called normally,
+            # and also when called with a `cc` of its own (tail call, `call_cc[]`).
+            @trampolined
+            def chained(*rets, cc=identity, **kwrets):
+                return jump(cc1, *rets, cc=capture_pcc(cc2, cc), **kwrets)
+            cc = chained
         else:
             # Beside a small optimization, it is important to preserve
             # "identity" as "identity", so that the call_cc logic that
-- 
2.43.0


From e9cf9126de128cdba3d917238657db36e6252874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:16 +0000
Subject: [PATCH 096/126] fix: continuations: a continuation captured at the
 top level of the block did not return to the cc of its invoker

---
 unpythonic/syntax/tailtools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/unpythonic/syntax/tailtools.py b/unpythonic/syntax/tailtools.py
index fb589a7..f1aff02 100644
--- a/unpythonic/syntax/tailtools.py
+++ b/unpythonic/syntax/tailtools.py
@@ -1116,6 +1116,8 @@ def _continuations(block_body):  # here be dragons.
         # TODO: We should at least `await` the continuation when calling it. Maybe something else
         # TODO: needs to be modified, too.
         #
+        if not owner:  # At the top level of the block, the body has no implicit `return` yet.
+            contbody = contbody + [Return(value=transform_retexpr(q[None], known_ecs))]
         FDef = type(owner) if owner else FunctionDef  # use same type (regular/async) as parent function
         # What remains to be done after the use site returns. If that is itself inside
         # a continuation (i.e. after another `call_cc[]`), its `_pcc` is a part of this.
-- 
2.43.0


From 4fd62fb41f39c44a75878e419a526d942a3cc789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:39 +0000
Subject: [PATCH 097/126] fix: tco, continuations: properties, class methods
 and static methods returned a jump or could not be called

---
 unpythonic/syntax/tailtools.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/unpythonic/syntax/tailtools.py b/unpythonic/syntax/tailtools.py
index f1aff02..92f6d05 100644
--- a/unpythonic/syntax/tailtools.py
+++ b/unpythonic/syntax/tailtools.py
@@ -12,7 +12,7 @@ from functools import partial
 from ast import (Lambda, FunctionDef, AsyncFunctionDef, ClassDef,
                  arguments, arg, keyword,
                  List, Tuple,
-                 Call, Name, Starred, Constant,
+                 Attribute, Call, Name, Starred, Constant,
                  BoolOp, And, Or,
                  With, AsyncWith, If, IfExp, Try, Assign, Return, Expr,
                  Await, Yield, YieldFrom,
@@ -29,7 +29,7 @@ from mcpyrate.walkers import ASTTransformer, ASTVisitor
 
 from .letdo import let
 from .letdoutil import isdo, islet, ExpandedLetView, ExpandedDoView
-from .util import (isx, isec,
+from .util import (isx, isec, getname,
                    detect_callec, detect_lambda,
                    has_tco, sort_lambda_decorators,
                    suggest_decorator_index,
@@ -1496,13 +1496,22 @@ def _tco_transform_def(tree, *, preproc_cb):
                 # Enable TCO if not TCO'd already.
                 if not has_tco(tree):
                     k = suggest_decorator_index("trampolined", tree.decorator_list)
-                    if k is not None:
-                        tree.decorator_list.insert(k, q[h[trampolined]])
-                    else:  # couldn't determine insert position; just plonk it at the start and hope for the best
-                        tree.decorator_list.insert(0, q[h[trampolined]])
+                    if k is None:  # couldn't determine insert position; just plonk it at the start and hope for the best
+                        k = 0
+                    # The trampoline needs a function; a decorator that makes a descriptor must remain outside it.
+                    for j, deco in enumerate(tree.decorator_list):
+                        if _makes_descriptor(deco):
+                            k = max(k, j + 1)
+                    tree.decorator_list.insert(k, q[h[trampolined]])
             return self.generic_visit(tree)
     return TcoDefTransformer().visit(tree)
 
+def _makes_descriptor(tree):
+    """Return whether `tree`, an item of a `decorator_list`, is one of the standard descriptor-making decorators."""
+    if type(tree) is Attribute and tree.attr in ("getter", "setter", "deleter"):  # @myproperty.setter
+        return True
+    return getname(tree) in ("property", "cached_property", "abstractproperty", "classmethod", "staticmethod")
+
 # Transform return statements and calls to escape continuations (ec).
 # known_ecs: list of names (str) of known escape continuations.
 # transform_retexpr: return-value expression transformer (for TCO and stuff).
-- 
2.43.0


From 524d81d28800e07b36a9d1b3d201bde28937b0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:56 +0000
Subject: [PATCH 098/126] fix: continuations: the return value of a generator
 was a jump

---
 unpythonic/syntax/tailtools.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/unpythonic/syntax/tailtools.py b/unpythonic/syntax/tailtools.py
index 92f6d05..b998efe 100644
--- a/unpythonic/syntax/tailtools.py
+++ b/unpythonic/syntax/tailtools.py
@@ -1515,27 +1515,27 @@ def _makes_descriptor(tree):
 # Transform return statements and calls to escape continuations (ec).
 # known_ecs: list of names (str) of known escape continuations.
 # transform_retexpr: return-value expression transformer (for TCO and stuff).
-# protect: if `True`, leave alone each `return` where a jump would change what the program does:
+# A `return` in an `async` function or a generator is left alone, because no trampoline sees its return value.
+# protect: if `True`, leave alone also each `return` where a jump would change what the program does:
 #   - inside a `with`, or a `try` (except in a part with nothing left to run after it), because
-#     the call must run while the context managers, exception handlers and finalizers are in effect;
-#   - in an `async` function or a generator, because no trampoline sees its return value.
+#     the call must run while the context managers, exception handlers and finalizers are in effect.
 def _tco_transform_return(tree, *, known_ecs, transform_retexpr, protect=False):
     class TcoReturnTransformer(ASTTransformer):
         def transform(self, tree):
             if is_captured_value(tree):
                 return tree  # don't recurse!
+            if type(tree) in (FunctionDef, AsyncFunctionDef):
+                self.generic_withstate(tree, protected=(type(tree) is AsyncFunctionDef or _is_generator(tree)))
             if protect:
-                if type(tree) in (FunctionDef, AsyncFunctionDef):
-                    self.generic_withstate(tree, protected=(type(tree) is AsyncFunctionDef or _is_generator(tree)))
-                elif type(tree) in (With, AsyncWith):
+                if type(tree) in (With, AsyncWith):
                     self.withstate(tree.body, protected=True)
                 elif type(tree) in (Try, TryStar):
                     self.withstate(tree.body, protected=True)
                     if tree.finalbody:
                         self.withstate(tree.handlers, protected=True)
                         self.withstate(tree.orelse, protected=True)
-                if self.state.protected and type(tree) is Return and not (tree.value and isec(tree.value, known_ecs)):
-                    return self.generic_visit(tree)
+            if self.state.protected and type(tree) is Return and not (tree.value and isec(tree.value, known_ecs)):
+                return self.generic_visit(tree)
             if type(tree) is Return:
                 non = q[None]
                 non = copy_location(non, tree)
-- 
2.43.0


From d50b718da96463bed62ca7419402d2e6b8144a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:57 +0000
Subject: [PATCH 099/126] fix: namedlambda: a lambda in a dictionary literal
 with a constant key other than a string raised TypeError

---
 unpythonic/syntax/lambdatools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpythonic/syntax/lambdatools.py b/unpythonic/syntax/lambdatools.py
index 4b12fd2..21b56b0 100644
--- a/unpythonic/syntax/lambdatools.py
+++ b/unpythonic/syntax/lambdatools.py
@@ -368,7 +368,7 @@ def _namedlambda(block_body):
                     if k is None:  # {..., **d, ...}
                         tree.values[j] = self.visit(v)
                     else:
-                        if type(k) in (Constant, Str):  # Python 3.8+: ast.Constant
+                        if type(k) in (Constant, Str) and type(getconstant(k)) is str:  # Python 3.8+: ast.Constant
                             thename = getconstant(k)
                             tree.values[j], thelambda, match = nameit(thename, v)
                             if match:
-- 
2.43.0


From bd127c0076a62a5417f7d96fc3bab44795321e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:57 +0000
Subject: [PATCH 100/126] fix: namedlambda: lambdas in default values, and in
 the function position of a call with named arguments, were not named

---
 unpythonic/syntax/lambdatools.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/unpythonic/syntax/lambdatools.py b/unpythonic/syntax/lambdatools.py
index 21b56b0..c6ea167 100644
--- a/unpythonic/syntax/lambdatools.py
+++ b/unpythonic/syntax/lambdatools.py
@@ -318,7 +318,7 @@ def _namedlambda(block_body):
                 for b in view.bindings:
                     b.elts[1], thelambda, match = nameit(getname(b.elts[0]), b.elts[1])
                     if match:
-                        thelambda.body = self.visit(thelambda.body)
+                        self.generic_visit(thelambda)
                     else:
                         b.elts[1] = self.visit(b.elts[1])
                     newbindings.append(b)
@@ -330,21 +330,21 @@ def _namedlambda(block_body):
                 view = UnexpandedEnvAssignView(tree)
                 view.value, thelambda, match = nameit(view.name, view.value)
                 if match:
-                    thelambda.body = self.visit(thelambda.body)
+                    self.generic_visit(thelambda)
                 else:
                     view.value = self.visit(view.value)
                 return tree
             elif issingleassign(tree):  # f = lambda ...: ...
                 tree.value, thelambda, match = nameit(getname(tree.targets[0]), tree.value)
                 if match:
-                    thelambda.body = self.visit(thelambda.body)
+                    self.generic_visit(thelambda)
                 else:
                     tree.value = self.visit(tree.value)
                 return tree
             elif type(tree) is NamedExpr:  # f := lambda ...: ...  (Python 3.8+, added in unpythonic 0.15.0)
                 tree.value, thelambda, match = nameit(getname(tree.target), tree.value)
                 if match:
-                    thelambda.body = self.visit(thelambda.body)
+                    self.generic_visit(thelambda)
                 else:
                     tree.value = self.visit(tree.value)
                 return tree
@@ -356,9 +356,10 @@ def _namedlambda(block_body):
                     # a single named arg
                     kw.value, thelambda, match = nameit(kw.arg, kw.value)
                     if match:
-                        thelambda.body = self.visit(thelambda.body)
+                        self.generic_visit(thelambda)
                     else:
                         kw.value = self.visit(kw.value)
+                tree.func = self.visit(tree.func)
                 tree.args = self.visit(tree.args)
                 return tree
             elif type(tree) is Dict:  # {"f": lambda: ..., "g": lambda: ...}
@@ -372,7 +373,7 @@ def _namedlambda(block_body):
                             thename = getconstant(k)
                             tree.values[j], thelambda, match = nameit(thename, v)
                             if match:
-                                thelambda.body = self.visit(thelambda.body)
+                                self.generic_visit(thelambda)
                             else:
                                 tree.values[j] = self.visit(v)
                         else:
@@ -397,14 +398,14 @@ def _namedlambda(block_body):
             # Recurse into the lambda body in already named lambdas.
             if is_decorated_lambda(tree, mode="any") and has_deco(["namelambda"], tree):
                 decorator_list, thelambda = destructure_decorated_lambda(tree)
-                thelambda.body = self.visit(thelambda.body)
+                self.generic_visit(thelambda)
                 return tree
             elif type(tree) is Lambda:
                 if hasattr(tree, "lineno"):
                     thename = f"<lambda at {dyn._macro_expander.filename}:{tree.lineno}>"
                     tree, thelambda, match = nameit(thename, tree)
                     if match:
-                        thelambda.body = self.visit(thelambda.body)
+                        self.generic_visit(thelambda)
                     else:
                         tree = self.visit(tree)
                 return tree
-- 
2.43.0


From e4d7d31fbe9e83beba224df0f6b87974c6f43115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:57 +0000
Subject: [PATCH 101/126] fix: envify: default values, decorators and names
 local to an inner scope were taken for parameters

---
 unpythonic/syntax/lambdatools.py | 35 ++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/unpythonic/syntax/lambdatools.py b/unpythonic/syntax/lambdatools.py
index c6ea167..7cf079d 100644
--- a/unpythonic/syntax/lambdatools.py
+++ b/unpythonic/syntax/lambdatools.py
@@ -8,7 +8,8 @@ __all__ = ["multilambda",
            "envify"]
 
 from ast import (Lambda, Name, Assign, Subscript, Call, FunctionDef,
-                 AsyncFunctionDef, Attribute, keyword, Dict, Constant, arg)
+                 AsyncFunctionDef, ClassDef, ListComp, SetComp, GeneratorExp, DictComp,
+                 Attribute, keyword, Dict, Constant, arg, get_docstring)
 from copy import deepcopy
 
 from mcpyrate.quotes import macros, q, u, n, a, h  # noqa: F401
@@ -29,6 +30,8 @@ from ..symbol import sym
 from .letdo import _implicit_do, _do
 from .letdoutil import islet, isenvassign, UnexpandedLetView, UnexpandedEnvAssignView, ExpandedDoView
 from .nameutil import getname
+from .scopeanalyzer import (get_lexical_variables, get_names_in_store_context,
+                            collect_globals, collect_nonlocals)
 from .util import (is_decorated_lambda, isx, has_deco,
                    destructure_decorated_lambda, detect_lambda)
 
@@ -467,6 +470,9 @@ def _envify(block_body):
         return ((type(tree) in (FunctionDef, AsyncFunctionDef)) or
                 (type(tree) is Lambda and id(tree) in userlambdas))
 
+    def without(bindings, names):
+        return {k: v for k, v in bindings.items() if k not in names}
+
     # Create a renamed reference to the env() constructor to be sure the Call
     # nodes added by us have a unique .func (not used by other macros or user code)
     _envify = env
@@ -484,12 +490,18 @@ def _envify(block_body):
                     return False
                 return thecall.func.attr == "update" and any(isx(thecall.func.value, x) for x in enames)
 
-            if isfunctionoruserlambda(tree):
+            if type(tree) in (FunctionDef, AsyncFunctionDef, Lambda):
                 argnames = getargs(tree)
-                if argnames:
+                # Everything but the body belongs to the surrounding scope.
+                newbindings = without(bindings, argnames)
+                if type(tree) is not Lambda:
+                    declared = collect_nonlocals(tree.body)
+                    newbindings = without(newbindings, collect_globals(tree.body))
+                    newbindings = without(newbindings, [k for k in get_names_in_store_context(tree.body)
+                                                        if k not in declared])
+                if argnames and isfunctionoruserlambda(tree):
                     # prepend env init to function body, update bindings
                     kws = [keyword(arg=k, value=q[n[k]]) for k in argnames]  # "x" --> x
-                    newbindings = bindings.copy()
                     if type(tree) in (FunctionDef, AsyncFunctionDef):
                         ename = gensym("e")
                         theenv = q[h[_envify]()]
@@ -497,7 +509,7 @@ def _envify(block_body):
                         with q as quoted:
                             n[ename] = a[theenv]
                         assignment = quoted[0]
-                        tree.body.insert(0, assignment)
+                        tree.body.insert(0 if get_docstring(tree, clean=False) is None else 1, assignment)
                     elif type(tree) is Lambda and id(tree) in userlambdas:
                         # We must in general inject a new do[] even if one is already there,
                         # due to scoping rules. If the user code writes to the same names in
@@ -514,7 +526,18 @@ def _envify(block_body):
                         thecall.keywords = kws
                         tree.body = splice_expression(thecall, tree.body, "_here_")
                     newbindings.update({k: q[n[f"{ename}.{k}"]] for k in argnames})  # "x" --> e.x
-                    self.generic_withstate(tree, enames=(enames + [ename]), bindings=newbindings)
+                    enames = enames + [ename]
+                self.withstate(tree.body, enames=enames, bindings=newbindings)
+            elif type(tree) in (ListComp, SetComp, GeneratorExp, DictComp):
+                targetnames = get_lexical_variables(tree)[0]
+                self.generic_withstate(tree, bindings=without(bindings, targetnames))
+                self.withstate(tree.generators[0].iter)  # the outermost iterable belongs to the surrounding scope
+            elif type(tree) is ClassDef:
+                # The names of a class body are not visible in the methods.
+                classnames = get_names_in_store_context(tree.body)
+                for elt in tree.body:
+                    if type(elt) not in (FunctionDef, AsyncFunctionDef):
+                        self.withstate(elt, bindings=without(bindings, classnames))
             else:
                 # leave alone the _envify() added by us
                 if type(tree) is Call and (isx(tree.func, "_envify") or isourupdate(tree)):
-- 
2.43.0


From 3e0d1d879eb79036db1d218d4448eebba5466542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:00 +0000
Subject: [PATCH 102/126] fix: envify: an annotated assignment to a parameter
 failed to compile

---
 unpythonic/syntax/lambdatools.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/unpythonic/syntax/lambdatools.py b/unpythonic/syntax/lambdatools.py
index 7cf079d..ef759c1 100644
--- a/unpythonic/syntax/lambdatools.py
+++ b/unpythonic/syntax/lambdatools.py
@@ -7,7 +7,7 @@ __all__ = ["multilambda",
            "quicklambda",
            "envify"]
 
-from ast import (Lambda, Name, Assign, Subscript, Call, FunctionDef,
+from ast import (Lambda, Name, Assign, AnnAssign, Subscript, Call, FunctionDef,
                  AsyncFunctionDef, ClassDef, ListComp, SetComp, GeneratorExp, DictComp,
                  Attribute, keyword, Dict, Constant, arg, get_docstring)
 from copy import deepcopy
@@ -552,6 +552,9 @@ def _envify(block_body):
                         envset = q[n[f"{bindings[view.name].value.id}.set"]]
                         newvalue = self.visit(view.value)
                         return q[a[envset](u[view.name], a[newvalue])]
+                # x: T = ... --> e14.x: T = ...
+                elif type(tree) is AnnAssign and type(tree.target) is Name and tree.target.id in bindings.keys():
+                    tree.simple = 0  # the target is not going to be a bare name
                 # transform references to currently active bindings
                 # x --> e14.x
                 # It doesn't matter if this hits an already expanded inner `with envify`,
-- 
2.43.0


From 197acad470ae782cabdeb9ea156cd5ee636d0c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:06 +0000
Subject: [PATCH 103/126] fix: autocurry: calling next, iter, getattr and other
 builtins with an invalid signature raised ValueError

---
 unpythonic/fun.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unpythonic/fun.py b/unpythonic/fun.py
index 1996da8..4c342b9 100644
--- a/unpythonic/fun.py
+++ b/unpythonic/fun.py
@@ -345,7 +345,7 @@ def curry(f, /, *args, _curry_force_call=False, _curry_allow_uninspectable=False
             signature(f.func if isinstance(f, functools_partial) else f)
         except ValueError as err:  # inspection failed in inspect.signature()?
             msg = err.args[0]
-            if "no signature found" in msg:
+            if "no signature found" in msg or "has invalid signature" in msg:
                 return fallback()
             raise
 
@@ -362,7 +362,7 @@ def curry(f, /, *args, _curry_force_call=False, _curry_allow_uninspectable=False
                 action, analysis = _decide_curry_action(f, args, kwargs)
             except ValueError as err:  # inspection failed in inspect.signature()?
                 msg = err.args[0]
-                if "no signature found" in msg:
+                if "no signature found" in msg or "has invalid signature" in msg:
                     return fallback()
                 raise
 
-- 
2.43.0


From 9df52da0da13d60b7ef96e5fb75c1f15525406a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:06 +0000
Subject: [PATCH 104/126] fix: autocurry: super() without arguments raised
 RuntimeError

---
 unpythonic/syntax/autocurry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/unpythonic/syntax/autocurry.py b/unpythonic/syntax/autocurry.py
index 0124c3b..2990532 100644
--- a/unpythonic/syntax/autocurry.py
+++ b/unpythonic/syntax/autocurry.py
@@ -100,7 +100,9 @@ def _autocurry(block_body):
                 #     This has the effect that in `with continuations`, the tail-calls to continuation
                 #     functions won't be curried, but perhaps that's ok. This allows the Pytkell dialect's
                 #     `with lazify, autocurry` combo to work with an inner `with continuations`.
+                #   - `super()` looks at the stack frame that calls it.
                 if (isx(tree.func, "Values") or
+                        isx(tree.func, "super", accept_attr=False) or
                         (type(tree.func) is Call and isx(tree.func.func, "chain_conts"))):
                     # However, *do* auto-curry in the positional and named args of the call.
                     tree.args = self.visit(tree.args)
-- 
2.43.0


From 666222fd1b0633521fb02e8d104a50e56d76ac45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:06 +0000
Subject: [PATCH 105/126] fix: lazify: super() without arguments raised
 RuntimeError

---
 unpythonic/syntax/lazify.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/unpythonic/syntax/lazify.py b/unpythonic/syntax/lazify.py
index af2207b..095787b 100644
--- a/unpythonic/syntax/lazify.py
+++ b/unpythonic/syntax/lazify.py
@@ -731,6 +731,7 @@ def _lazify(body):
                 #   - `Lazy` takes a lambda, constructs a `Lazy` object; if we're calling `Lazy`,
                 #     the expression is already lazy.
                 #   - `_autoref_resolve` does the name lookup in `with autoref` blocks.
+                #   - `super()` looks at the stack frame that calls it.
                 #
                 # Don't lazify in calls to return-value utilities, because return values
                 # are never implicitly lazy in `unpythonic`.
@@ -740,6 +741,7 @@ def _lazify(body):
                       any(isx(tree.func, s) for s in _ctorcalls_all) or
                       isx(tree.func, _expanded_lazy_name) or
                       isx(tree.func, "_autoref_resolve") or
+                      isx(tree.func, "super", accept_attr=False) or
                       isx(tree.func, "Values") or
                       (type(tree.func) is Call and isx(tree.func.func, "chain_conts"))):
                     # Here we know the operator (.func) to be one of specific names;
-- 
2.43.0


From 9ca747dff20a82385ff3e793c70f35ddbc332237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:55 +0000
Subject: [PATCH 106/126] fix: do: a multiple-expression body with local names
 (multilambda, aif, cond) nested in a do item was rejected or took the names
 of the outer do

---
 unpythonic/syntax/letdo.py | 33 +++++----------------------------
 1 file changed, 5 insertions(+), 28 deletions(-)

diff --git a/unpythonic/syntax/letdo.py b/unpythonic/syntax/letdo.py
index 5e6a7cd..eb1e428 100644
--- a/unpythonic/syntax/letdo.py
+++ b/unpythonic/syntax/letdo.py
@@ -33,7 +33,7 @@ from mcpyrate.quotes import macros, q, u, n, a, t, h  # noqa: F401
 
 from mcpyrate import gensym, namemacro, parametricmacro
 from mcpyrate.quotes import capture_as_macro, is_captured_value
-from mcpyrate.walkers import ASTTransformer, ASTVisitor
+from mcpyrate.walkers import ASTTransformer
 
 from ..dynassign import dyn
 from ..lispylet import _let as letf, _dlet as dletf, _blet as bletf
@@ -848,25 +848,6 @@ def _do(tree):
         tree = c.visit(tree)
         return tree, c.collected
 
-    def check_strays(ismatch, tree):
-        class StrayHelperMacroChecker(ASTVisitor):  # TODO: refactor this?
-            def examine(self, tree):
-                if is_captured_value(tree):
-                    return  # don't recurse!
-                elif isdo(tree, expanded=False) or islet(tree, expanded=False):
-                    return  # don't recurse! (a let may have a multiple-expression body, which is an implicit do)
-                elif ismatch(tree):
-                    # Expand the stray helper macro invocation, to trigger its `SyntaxError`
-                    # with a useful message, and *make the expander generate a use site traceback*.
-                    #
-                    # (If we just `raise` here directly, the expander won't see the use site
-                    #  of the `local[]` or `delete[]`, but just that of the `do[]`.)
-                    dyn._macro_expander.visit(tree)
-                self.generic_visit(tree)
-        StrayHelperMacroChecker().visit(tree)
-    check_stray_localdefs = partial(check_strays, islocaldef)
-    check_stray_deletes = partial(check_strays, isdelete)
-
     names = []
     lines = []
     for j, expr in enumerate(tree.elts, start=1):
@@ -880,18 +861,14 @@ def _do(tree):
             if any(x in names for x in newnames):
                 raise SyntaxError("local names must be unique in the same do")  # pragma: no cover
 
-        # Before transforming any further, check that there are no local[] or delete[] further in, where
-        # they don't belong. This allows the error message to show the *untransformed* source code for
-        # the erroneous invocation. These checkers respect the boundaries of any nested do[].
-        check_stray_localdefs(expr)
-        check_stray_deletes(expr)
-
         # Both the envassignment transform (LHS) and the name transform (RHS) should use
         # the previous bindings, so that any changes to bindings take effect starting
         # from the **next** do-item.
         updated_names = [x for x in names + newnames if x not in deletednames]
-        # Any nested let or do must bind its own names first, so that those shadow ours.
-        if any(islet(node, expanded=False) or isdo(node, expanded=False) for node in walk(expr)):
+        # Any nested let or do (also an implicit one) must bind its own names first, so that those shadow ours.
+        # A local[] or delete[] further in, where it doesn't belong, errors out here.
+        if any(islet(node, expanded=False) or isdo(node, expanded=False) or islocaldef(node) or isdelete(node)
+               for node in walk(expr)):
             expr = dyn._macro_expander.visit_recursively(expr)
         expr = _letlike_transform(expr, e, lhsnames=names, rhsnames=names, setter=envset)
         expr = q[h[namelambda](u[f"do_line{j}"])(a[expr])]
-- 
2.43.0


From b0b7ab3c4aed3aa0d720951b58c98b47b9082088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:44 +0000
Subject: [PATCH 107/126] fix: aif: a multilambda with local names in a branch
 of an aif was rejected

---
 unpythonic/syntax/ifexprs.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/unpythonic/syntax/ifexprs.py b/unpythonic/syntax/ifexprs.py
index a915f7e..9da527f 100644
--- a/unpythonic/syntax/ifexprs.py
+++ b/unpythonic/syntax/ifexprs.py
@@ -4,14 +4,16 @@
 __all__ = ["aif", "it",
            "cond"]
 
-from ast import Tuple
+from ast import Name, Tuple
 
 from mcpyrate.quotes import macros, q, n, a, h  # noqa: F811, F401
 from .letdo import macros, let  # noqa: F811, F401
 
 from mcpyrate import namemacro
 from mcpyrate.expander import MacroExpander
+from mcpyrate.quotes import is_captured_value
 from mcpyrate.utils import extract_bindings, NestingLevelTracker
+from mcpyrate.walkers import ASTTransformer
 
 from .letdo import _implicit_do
 
@@ -59,8 +61,17 @@ _aif_level = NestingLevelTracker()
 
 def _aif(tree, bindings_of_it):
     # expand any `it` inside the `aif` (thus confirming those uses are valid)
+    # Leave any other macros alone, also the hygienically captured ones.
+    expander_for_it = MacroExpander(bindings_of_it, dyn._macro_expander.filename)
+    class ItTransformer(ASTTransformer):
+        def transform(self, tree):
+            if is_captured_value(tree):
+                return tree  # don't recurse!
+            if type(tree) is Name:
+                return expander_for_it.visit(tree)
+            return self.generic_visit(tree)
     def expand_it(tree):
-        return MacroExpander(bindings_of_it, dyn._macro_expander.filename).visit(tree)
+        return ItTransformer().visit(tree)
 
     # careful here: `it` is only valid in the `then` and `otherwise` parts.
     test, then, otherwise = tree.elts
-- 
2.43.0


From 6c6465a3eacf2d6e2baa55e71e93bcda68b35f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:50 +0000
Subject: [PATCH 108/126] fix: autocurry: lambdas in the default values of a
 lambda, or inside a manually curried lambda, were not curried

---
 unpythonic/syntax/autocurry.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/unpythonic/syntax/autocurry.py b/unpythonic/syntax/autocurry.py
index 2990532..7b50e50 100644
--- a/unpythonic/syntax/autocurry.py
+++ b/unpythonic/syntax/autocurry.py
@@ -127,13 +127,14 @@ def _autocurry(block_body):
                         tree.decorator_list.append(q[h[curryf]])
 
             elif type(tree) is Lambda:
+                thelambda = tree
                 if not hascurry:
-                    thelambda = tree
                     tree = q[h[curryf](a[thelambda])]  # plonk it as innermost, we'll sort them later
-                    # don't recurse on the lambda we just moved, but recurse inside it.
-                    self.withstate(thelambda.body, hascurry=False)
-                    thelambda.body = self.visit(thelambda.body)
-                    return tree
+                # don't recurse on the lambda we just moved, but recurse inside it.
+                # (A manual curry applies to this lambda only, not to those inside it.)
+                self.generic_withstate(thelambda, hascurry=False)
+                self.generic_visit(thelambda)
+                return tree
 
             return self.generic_visit(tree)
 
-- 
2.43.0


From 81d6d59c6797d737990d202b7c8508216a6f08d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:18 +0000
Subject: [PATCH 109/126] fix: prefix: a let decorator (dlet, blet, ...) inside
 the block raised TypeError at macro expansion time

---
 unpythonic/syntax/prefix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpythonic/syntax/prefix.py b/unpythonic/syntax/prefix.py
index 671358f..a672318 100644
--- a/unpythonic/syntax/prefix.py
+++ b/unpythonic/syntax/prefix.py
@@ -175,7 +175,7 @@ def _prefix(block_body):
                     binding.elts[1] = self.visit(value)
                     newbindings.append(binding)
                 view.bindings = newbindings  # write the new bindings (important!)
-                if view.body:
+                if islet(tree, expanded=False)[0] != "decorator":  # the body is then not in the let
                     view.body = self.visit(view.body)
                 return tree
             elif isdo(tree, expanded=False):
-- 
2.43.0


From 0dfd94c04f31757322ed120220932e2ebb542178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:18 +0000
Subject: [PATCH 110/126] fix: prefix: an empty tuple inside the block raised
 ValueError at macro expansion time

---
 unpythonic/syntax/prefix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpythonic/syntax/prefix.py b/unpythonic/syntax/prefix.py
index a672318..4f6dd70 100644
--- a/unpythonic/syntax/prefix.py
+++ b/unpythonic/syntax/prefix.py
@@ -210,7 +210,7 @@ def _prefix(block_body):
 
             # general case
             # macro-created nodes might not have a ctx, but we run outside in.
-            if not (type(tree) is Tuple and type(tree.ctx) is Load):
+            if not (type(tree) is Tuple and type(tree.ctx) is Load and tree.elts):  # the empty tuple has no operator
                 return self.generic_visit(tree)
             op, *data = tree.elts
             quotelevel = self.state.quotelevel
-- 
2.43.0


From 2bf8b94004b4fab27a1c10751ab3f2d9770306f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:18 +0000
Subject: [PATCH 111/126] fix: namedlambda: a let decorator (dlet, blet, ...)
 inside the block raised TypeError at macro expansion time

---
 unpythonic/syntax/lambdatools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unpythonic/syntax/lambdatools.py b/unpythonic/syntax/lambdatools.py
index ef759c1..01fb94d 100644
--- a/unpythonic/syntax/lambdatools.py
+++ b/unpythonic/syntax/lambdatools.py
@@ -326,7 +326,8 @@ def _namedlambda(block_body):
                         b.elts[1] = self.visit(b.elts[1])
                     newbindings.append(b)
                 view.bindings = newbindings  # write the new bindings (important!)
-                view.body = self.visit(view.body)
+                if islet(tree, expanded=False)[0] != "decorator":  # the body is then not in the let
+                    view.body = self.visit(view.body)
                 return tree
             # assumption: no one left-shifts by a literal lambda :)
             elif isenvassign(tree):  # f << (lambda ...: ...)
-- 
2.43.0


From d0ffa851c30733962bf210b94f011e7f7502754c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:50 +0000
Subject: [PATCH 112/126] fix: dlet: the decorated function had the env among
 its required parameters, so currying it never called it

---
 unpythonic/let.py      | 8 ++++++++
 unpythonic/lispylet.py | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/unpythonic/let.py b/unpythonic/let.py
index f298e0c..5057516 100644
--- a/unpythonic/let.py
+++ b/unpythonic/let.py
@@ -4,6 +4,7 @@
 __all__ = ["let", "letrec", "dlet", "dletrec", "blet", "bletrec"]
 
 from functools import wraps
+from inspect import signature
 
 from .arity import arity_includes, UnknownArity
 from .env import env as _envcls
@@ -264,6 +265,13 @@ def _dlet(mode, _envname="env", /, **bindings):
             kwargs_with_env = kwargs.copy()
             kwargs_with_env[_envname] = env
             return body(*args, **kwargs_with_env)
+        # the caller does not pass the env (this matters e.g. to `curry`)
+        try:
+            sig = signature(body)
+        except (TypeError, ValueError):  # uninspectable
+            pass
+        else:
+            withenv.__signature__ = sig.replace(parameters=[p for k, p in sig.parameters.items() if k != _envname])
         return withenv
     return deco
 
diff --git a/unpythonic/lispylet.py b/unpythonic/lispylet.py
index da9c151..95f9643 100644
--- a/unpythonic/lispylet.py
+++ b/unpythonic/lispylet.py
@@ -4,6 +4,7 @@
 __all__ = ["let", "letrec", "dlet", "dletrec", "blet", "bletrec"]
 
 from functools import wraps
+from inspect import signature
 
 from .arity import arity_includes, UnknownArity
 from .env import env as _envcls
@@ -258,6 +259,13 @@ def _dlet(bindings, mode="let", _envname="env"):  # let and letrec decorator fac
             kwargs_with_env = kwargs.copy()
             kwargs_with_env[_envname] = env
             return body(*args, **kwargs_with_env)
+        # the caller does not pass the env (this matters e.g. to `curry`)
+        try:
+            sig = signature(body)
+        except (TypeError, ValueError):  # uninspectable
+            pass
+        else:
+            withenv.__signature__ = sig.replace(parameters=[p for k, p in sig.parameters.items() if k != _envname])
         return withenv
     return deco
 
-- 
2.43.0


From 8c6ad8a1368705e8b7fe24246e21b572b3e1a910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:00 +0000
Subject: [PATCH 113/126] fix: autocurry: calling type(obj) inside the block
 raised TypeError on Python 3.12

---
 unpythonic/fun.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/unpythonic/fun.py b/unpythonic/fun.py
index 4c342b9..40b3bfa 100644
--- a/unpythonic/fun.py
+++ b/unpythonic/fun.py
@@ -339,7 +339,9 @@ def curry(f, /, *args, _curry_force_call=False, _curry_allow_uninspectable=False
     # Try to fail-fast with uninspectable builtins, even if no arguments were passed.
     # (If we get arguments, there's no landmine, because calling the curried function
     # will perform the signature analysis.)
-    if not (args or kwargs):
+    #
+    # `type` is uninspectable, and Python 3.12's `functools.wraps` doesn't accept it, so check it now.
+    if f is type or not (args or kwargs):
         try:
             # The args/kwargs already in a partial may include extra ones (for passthrough), so inspect the original.
             signature(f.func if isinstance(f, functools_partial) else f)
-- 
2.43.0


From 4e65d0ae09fad11b9c279d45f6dfd510cdf6dff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:07 +0000
Subject: [PATCH 114/126] fix: autoreturn: a function ending in a try/except*
 failed to compile

---
 unpythonic/syntax/tailtools.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/unpythonic/syntax/tailtools.py b/unpythonic/syntax/tailtools.py
index b998efe..272aa29 100644
--- a/unpythonic/syntax/tailtools.py
+++ b/unpythonic/syntax/tailtools.py
@@ -691,8 +691,10 @@ def _autoreturn(block_body):
                 else:  # tail position is in the body of the "try"
                     self.visit_tail(tree.body)
                 # additionally, tail position is in each "except" handler
-                for handler in tree.handlers:
-                    self.visit_tail(handler.body)
+                # (but Python doesn't allow a `return` in an `except*`)
+                if type(tree) is Try:
+                    for handler in tree.handlers:
+                        self.visit_tail(handler.body)
             elif type(tree) in (FunctionDef, AsyncFunctionDef, ClassDef):  # v0.15.0+
                 # If the item in tail position is a named function definition
                 # or a class definition, it binds a name - that of the function/class.
-- 
2.43.0


From 42323698dfe7114851b9ece32af32fef87c09c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:59 +0000
Subject: [PATCH 115/126] fix: let_syntax: a template in the haskelly formats
 (in, where) was rejected

---
 unpythonic/syntax/letdo.py     |  2 +-
 unpythonic/syntax/letdoutil.py | 12 ++++++++----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/unpythonic/syntax/letdo.py b/unpythonic/syntax/letdo.py
index eb1e428..43cd5cd 100644
--- a/unpythonic/syntax/letdo.py
+++ b/unpythonic/syntax/letdo.py
@@ -80,7 +80,7 @@ def _destructure_and_apply_let(tree, args, macro_expander, let_transformer, lets
             bs = canonize_bindings(args, letsyntax_mode=letsyntax_mode)
             return let_transformer(bindings=bs, body=tree)
         # haskelly syntax, let[[...] in ...], let[..., where[...]]
-        view = UnexpandedLetView(tree)  # note "tree" here is only the part inside the brackets
+        view = UnexpandedLetView(tree, letsyntax_mode)  # note "tree" here is only the part inside the brackets
         return let_transformer(bindings=view.bindings, body=view.body)
 
 # --------------------------------------------------------------------------------
diff --git a/unpythonic/syntax/letdoutil.py b/unpythonic/syntax/letdoutil.py
index d286d0e..8f3b211 100644
--- a/unpythonic/syntax/letdoutil.py
+++ b/unpythonic/syntax/letdoutil.py
@@ -458,9 +458,12 @@ class UnexpandedLetView:
         If ``tree`` is just the bracketed part of a haskelly let, then ``mode`` is
         ``None``, because the mode information is contained in the surrounding
         subscript form (expr macro invocation) and hence not accessible from here.
+
+    ``letsyntax_mode``: used by let_syntax to allow template definitions (haskelly formats).
     """
-    def __init__(self, tree):
+    def __init__(self, tree, letsyntax_mode=False):
         data = islet(tree, expanded=False)
+        self._letsyntax_mode = letsyntax_mode
         self._has_subscript_container = True
         if not data:
             # The macro interface only gets the bracketed part as "tree",
@@ -505,13 +508,14 @@ class UnexpandedLetView:
         else:  # haskelly let, `let[[...] in ...]`, `let[..., where[...]]`
             theexpr = self._theexpr_ref()  # `[...] in ...`, `..., where[...]`
             if t == "in_expr":
-                return canonize_bindings(_canonize_macroargs_node(theexpr.left))
+                return canonize_bindings(_canonize_macroargs_node(theexpr.left), letsyntax_mode=self._letsyntax_mode)
             elif t == "where_expr":
                 thewhere = theexpr.elts[1]
                 if type(thewhere) is Call:
-                    return canonize_bindings(thewhere.args)
+                    return canonize_bindings(thewhere.args, letsyntax_mode=self._letsyntax_mode)
                 else:  # Subscript
-                    return canonize_bindings(_canonize_macroargs_node(_get_subscript_slice(thewhere)))
+                    return canonize_bindings(_canonize_macroargs_node(_get_subscript_slice(thewhere)),
+                                             letsyntax_mode=self._letsyntax_mode)
             assert False
     def _setbindings(self, newbindings):
         t = self._type
-- 
2.43.0


From c7754f1fda8864536e55e60433e22f355df6957b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:59 +0000
Subject: [PATCH 116/126] fix: let_syntax: a bare name whose value uses the
 same name recursed forever

---
 unpythonic/syntax/letsyntax.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/unpythonic/syntax/letsyntax.py b/unpythonic/syntax/letsyntax.py
index 1a52807..5ac23fa 100644
--- a/unpythonic/syntax/letsyntax.py
+++ b/unpythonic/syntax/letsyntax.py
@@ -421,8 +421,7 @@ def _substitute_barename(name, value, tree, mode):
                 elif isthisname(tree):
                     if mode == "block":
                         raise SyntaxError(f"cannot substitute block '{name}' into expression position")  # pragma: no cover
-                    tree = subst()
-                    return self.generic_visit(tree)
+                    return subst()  # don't recurse; the value may use the same name
                 return self.generic_visit(tree)
         return Splicer().visit(tree)
 
-- 
2.43.0


From 396e91cb050fd228ae381f4b6c58955cf426332d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:59 +0000
Subject: [PATCH 117/126] fix: let_syntax: names in the arguments of a template
 were taken for its formal parameters, and directly nested uses were not
 expanded

---
 unpythonic/syntax/letsyntax.py | 47 ++++++++++++++++++++++++++--------
 1 file changed, 37 insertions(+), 10 deletions(-)

diff --git a/unpythonic/syntax/letsyntax.py b/unpythonic/syntax/letsyntax.py
index 5ac23fa..3b7984a 100644
--- a/unpythonic/syntax/letsyntax.py
+++ b/unpythonic/syntax/letsyntax.py
@@ -23,7 +23,7 @@ from copy import deepcopy
 from functools import partial
 import sys
 
-from mcpyrate import parametricmacro
+from mcpyrate import gensym, parametricmacro
 from mcpyrate.quotes import is_captured_value
 from mcpyrate.utils import rename
 from mcpyrate.walkers import ASTTransformer, ASTVisitor
@@ -439,6 +439,38 @@ def _substitute_barenames(barenames, tree):
         tree = _substitute_barename(name, value, tree, mode)
     return tree
 
+# Substitute the formal parameters of a template, all at once, so that names in the
+# arguments are not taken for formal parameters.
+#
+# `expand`: function that expands any uses of the template inside an argument.
+def _substitute_parameters(formalparams, theargs, tree, expand):
+    # As in bare name substitution, if the argument is also a bare name, perform the substitution
+    # (as a string) also in the name part of def and similar.
+    args = {}
+    renames = []
+    for k, v in zip(formalparams, theargs):
+        if type(v) is Name:
+            tmp = gensym(k)
+            renames.append((tmp, v.id))
+            tree = rename(k, tmp, tree)
+        else:
+            args[k] = v
+    class Splicer(ASTTransformer):
+        def transform(self, tree):
+            if is_captured_value(tree):
+                return tree  # don't recurse!
+            # can't put statements in a Subscript or in a Call, so the args are always expressions,
+            # but in a statement position, the expression may be a use of a block template.
+            if type(tree) is Expr and type(tree.value) is Name and tree.value.id in args:
+                return expand(Expr(value=deepcopy(args[tree.value.id])))
+            elif type(tree) is Name and tree.id in args:
+                return expand(deepcopy(args[tree.id]))
+            return self.generic_visit(tree)
+    tree = Splicer().visit(tree)
+    for tmp, newname in renames:
+        tree = rename(tmp, newname, tree)
+    return tree
+
 def _substitute_templates(templates, tree):
     for name, formalparams, value, mode in templates:
         def isthisfunc(tree):
@@ -448,7 +480,7 @@ def _substitute_templates(templates, tree):
             if type(tree) is Call and type(tree.func) is Name and tree.func.id == name:
                 return True
             return False
-        def subst(tree):
+        def subst(tree, expand):
             if type(tree) is Subscript:
                 theargs = _get_subscript_args(tree)
             elif type(tree) is Call:
@@ -459,10 +491,7 @@ def _substitute_templates(templates, tree):
                 raise SyntaxError(f"let_syntax template '{name}' expected {len(formalparams)} arguments, got {len(theargs)}")  # pragma: no cover
             # make a fresh deep copy of the RHS to avoid destroying the template.
             tree = deepcopy(value)  # expand the f itself in f[x, ...] or f(x, ...)
-            for k, v in zip(formalparams, theargs):  # expand the x, ... in the expanded form of f
-                # can't put statements in a Subscript or in a Call, so always treat args as expressions.
-                tree = _substitute_barename(k, v, tree, "expr")
-            return tree
+            return _substitute_parameters(formalparams, theargs, tree, expand)  # expand the x, ... in the expanded form of f
         def splice(tree):
             class Splicer(ASTTransformer):
                 def transform(self, tree):
@@ -471,13 +500,11 @@ def _substitute_templates(templates, tree):
                     # discard Expr wrapper (identifying a statement position) at use site
                     # when performing a block substitution
                     if mode == "block" and type(tree) is Expr and isthisfunc(tree.value):
-                        tree = subst(tree.value)
-                        return tree
+                        return subst(tree.value, self.visit)
                     elif isthisfunc(tree):
                         if mode == "block":
                             raise SyntaxError(f"cannot substitute block '{name}' into expression position")  # pragma: no cover
-                        tree = subst(tree)
-                        return self.generic_visit(tree)
+                        return subst(tree, self.visit)
                     return self.generic_visit(tree)
             return Splicer().visit(tree)
         tree = splice(tree)
-- 
2.43.0


From ed74b03ad356fe9aff0c14a120dfe37768fc54fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:51 +0000
Subject: [PATCH 118/126] fix: let_syntax: in block mode, an active
 substitution was applied to the formal parameters of a later template

---
 unpythonic/syntax/letsyntax.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/unpythonic/syntax/letsyntax.py b/unpythonic/syntax/letsyntax.py
index 3b7984a..b62e26b 100644
--- a/unpythonic/syntax/letsyntax.py
+++ b/unpythonic/syntax/letsyntax.py
@@ -343,12 +343,17 @@ def _let_syntax_block(block_body, *, expand_inside):
             stmt = dyn._macro_expander.visit_recursively(stmt)
             expanded = True
 
-        stmt = _substitute_templates(templates, stmt)
-        stmt = _substitute_barenames(barenames, stmt)
+        # In a binding, substitute only in the value. The formal parameters shadow any active substitutions.
         binding_data = isbinding(stmt)
         if binding_data:
             name, args, value, mode = destructure_binding(stmt, *binding_data)
+            value = _substitute_templates([t for t in templates if t[0] not in args], value)
+            value = _substitute_barenames([b for b in barenames if b[0] not in args], value)
+        else:
+            stmt = _substitute_templates(templates, stmt)
+            stmt = _substitute_barenames(barenames, stmt)
 
+        if binding_data:
             check_stray_blocks_and_exprs(value)  # before expanding it!
             if expand_inside and not expanded:
                 value = dyn._macro_expander.visit_recursively(value)
-- 
2.43.0


From f24591cfe8b21639dfdda99b1f6841c479f8978e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:51 +0000
Subject: [PATCH 119/126] fix: let_syntax: in block mode, the bindings of a
 let_syntax nested inside a statement underwent the outer substitutions

---
 unpythonic/syntax/letsyntax.py | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/unpythonic/syntax/letsyntax.py b/unpythonic/syntax/letsyntax.py
index b62e26b..d7fb8b0 100644
--- a/unpythonic/syntax/letsyntax.py
+++ b/unpythonic/syntax/letsyntax.py
@@ -29,7 +29,7 @@ from mcpyrate.utils import rename
 from mcpyrate.walkers import ASTTransformer, ASTVisitor
 
 from .letdo import _implicit_do, _destructure_and_apply_let
-from .nameutil import is_unexpanded_block_macro
+from .nameutil import is_unexpanded_block_macro, is_unexpanded_expr_macro
 from .util import eliminate_ifones
 
 from ..dynassign import dyn
@@ -333,15 +333,32 @@ def _let_syntax_block(block_body, *, expand_inside):
                 return mode, "template"
         return False
 
+    # `let_syntax` mode (expand_inside): respect lexical scoping of nested `let_syntax`/`abbrev`,
+    # by expanding them before applying our substitutions.
+    def is_let_syntax_expr(tree):
+        if type(tree) is not Subscript:
+            return False
+        themacro = tree.value
+        if type(themacro) is Subscript:  # discard args if any
+            themacro = themacro.value
+        elif type(themacro) is Call:  # parenthesis syntax for macro arguments  TODO: Python 3.9+: remove once we bump minimum Python to 3.9
+            themacro = themacro.func
+        invocation = Subscript(value=themacro, slice=tree.slice)
+        return any(is_unexpanded_expr_macro(m, dyn._macro_expander, invocation) for m in (let_syntax, abbrev))
+    class NestedLetSyntaxExpander(ASTTransformer):
+        def transform(self, tree):
+            if is_captured_value(tree):
+                return tree  # don't recurse!
+            if is_let_syntax(tree) or is_abbrev(tree) or is_let_syntax_expr(tree):
+                return dyn._macro_expander.visit_recursively(tree)
+            return self.generic_visit(tree)
+
     templates = []
     barenames = []
     new_block_body = []
     for stmt in block_body:
-        # `let_syntax` mode (expand_inside): respect lexical scoping of nested `let_syntax`/`abbrev`
-        expanded = False
-        if expand_inside and (is_let_syntax(stmt) or is_abbrev(stmt)):
-            stmt = dyn._macro_expander.visit_recursively(stmt)
-            expanded = True
+        if expand_inside:
+            stmt = NestedLetSyntaxExpander().visit(stmt)
 
         # In a binding, substitute only in the value. The formal parameters shadow any active substitutions.
         binding_data = isbinding(stmt)
@@ -355,14 +372,14 @@ def _let_syntax_block(block_body, *, expand_inside):
 
         if binding_data:
             check_stray_blocks_and_exprs(value)  # before expanding it!
-            if expand_inside and not expanded:
+            if expand_inside:
                 value = dyn._macro_expander.visit_recursively(value)
 
             target = templates if args else barenames
             target.append((name, args, value, mode))
         else:
             check_stray_blocks_and_exprs(stmt)  # before expanding it!
-            if expand_inside and not expanded:
+            if expand_inside:
                 stmt = dyn._macro_expander.visit_recursively(stmt)
 
             new_block_body.append(stmt)
-- 
2.43.0


From c392271f1fef6d1a0bb966e8eb5fa90dcd767718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:51 +0000
Subject: [PATCH 120/126] fix: let_syntax: an `if` with a constant test inside
 the block was removed, leaving a function without a body, or making it not a
 generator

---
 unpythonic/syntax/letsyntax.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/unpythonic/syntax/letsyntax.py b/unpythonic/syntax/letsyntax.py
index d7fb8b0..a06e66a 100644
--- a/unpythonic/syntax/letsyntax.py
+++ b/unpythonic/syntax/letsyntax.py
@@ -30,7 +30,7 @@ from mcpyrate.walkers import ASTTransformer, ASTVisitor
 
 from .letdo import _implicit_do, _destructure_and_apply_let
 from .nameutil import is_unexpanded_block_macro, is_unexpanded_expr_macro
-from .util import eliminate_ifones
+from .util import transform_statements
 
 from ..dynassign import dyn
 
@@ -306,6 +306,7 @@ def _let_syntax_block(block_body, *, expand_inside):
                 if 1:
                     with a:
                         withstmt.body
+            value[0]._let_syntax_block = True  # to tell it apart from an `if 1` of the user
         else:  # mode == "expr":
             if len(withstmt.body) != 1:
                 raise SyntaxError("'with expr:' expected a one-item body (use a do[] if need more)")  # pragma: no cover
@@ -383,7 +384,9 @@ def _let_syntax_block(block_body, *, expand_inside):
                 stmt = dyn._macro_expander.visit_recursively(stmt)
 
             new_block_body.append(stmt)
-    new_block_body = eliminate_ifones(new_block_body)
+    def splice_blocks(stmt):  # stmt -> stmt or list of stmts
+        return stmt.body if getattr(stmt, "_let_syntax_block", False) else stmt
+    new_block_body = transform_statements(splice_blocks, new_block_body)
     if not new_block_body:
         raise SyntaxError("let_syntax: expected at least one statement beside definitions")  # pragma: no cover
     return new_block_body
-- 
2.43.0


From f8bc1b5a1437801f1fe6cc1b060a924f44dc8819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:26 +0000
Subject: [PATCH 121/126] fix: autoref: a let decorator (dlet, blet, ...)
 inside the block raised TypeError at macro expansion time

---
 unpythonic/syntax/autoref.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/unpythonic/syntax/autoref.py b/unpythonic/syntax/autoref.py
index 739b22d..acaa4a8 100644
--- a/unpythonic/syntax/autoref.py
+++ b/unpythonic/syntax/autoref.py
@@ -226,8 +226,9 @@ def _autoref(block_body, args, asname):
                 return tree
             # skip autoref lookup for let/do envs
             elif islet(tree):
-                view = ExpandedLetView(tree)
-                self.generic_withstate(tree, referents=referents + [view.body.args.args[0].arg])  # lambda e14: ...
+                if not islet(tree)[0].endswith("decorator"):  # in a let decorator, the body is not part of the let form
+                    view = ExpandedLetView(tree)
+                    self.generic_withstate(tree, referents=referents + [view.body.args.args[0].arg])  # lambda e14: ...
             elif isdo(tree):
                 view = ExpandedDoView(tree)
                 self.generic_withstate(tree, referents=referents + [view.body[0].args.args[0].arg])  # lambda e14: ...
-- 
2.43.0


From b821162ae38f33734025c639559d79f12dc785fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:20 +0000
Subject: [PATCH 122/126] fix: REPL server: sessions were left running forever
 if the client disconnected during an input or output, deadlocked on a large
 paste, and lost the output printed just before quitting

---
 unpythonic/net/ptyproxy.py | 62 +++++++++++++++++++++++++++++---------
 unpythonic/net/server.py   |  2 +-
 2 files changed, 48 insertions(+), 16 deletions(-)

diff --git a/unpythonic/net/ptyproxy.py b/unpythonic/net/ptyproxy.py
index fd9b002..c2d67de 100644
--- a/unpythonic/net/ptyproxy.py
+++ b/unpythonic/net/ptyproxy.py
@@ -73,33 +73,65 @@ class PTYSocketProxy:
         # which bypass all niceties file objects have.
         # https://docs.python.org/3/library/os.html
         def forward_traffic():
-            mypoll = select.poll()
-            mypoll.register(self.sock, select.POLLIN)
-            mypoll.register(self.master, select.POLLIN)
-            while not self._terminated:
+            pending = b""  # input from the client that the PTY did not accept yet
+            disconnected = False
+            while True:
+                # Check before polling, to forward also whatever was printed just before `stop`.
+                terminated = self._terminated
+                # To avoid a deadlock, keep reading the output also when the PTY does not accept
+                # more input (the software on the slave side could be blocked in a print).
+                mypoll = select.poll()
+                mypoll.register(self.master, select.POLLIN | (select.POLLOUT if pending else 0))
+                if not pending and not disconnected:
+                    mypoll.register(self.sock, select.POLLIN)
+                fdlist = mypoll.poll(0 if terminated else 1000)
+                if terminated and not any(fd == self.master and event & select.POLLIN for fd, event in fdlist):
+                    return
                 try:
-                    fdlist = mypoll.poll(1000)
                     for fd, event in fdlist:
                         if fd == self.master:
-                            request = os.read(fd, 4096)
-                            if len(request) == 0:  # disconnect by PTY slave
-                                self.on_slave_disconnect(self)
-                                return
-                            self.sock.sendall(request)
+                            if event & select.POLLOUT:
+                                n = os.write(fd, pending)
+                                pending = pending[n:]
+                            if event & ~select.POLLOUT:
+                                request = os.read(fd, 4096)
+                                if len(request) == 0:  # disconnect by PTY slave
+                                    self.on_slave_disconnect(self)
+                                    return
+                                if not disconnected:
+                                    self.sock.sendall(request)
                         else:
-                            request = self.sock.recv(4096)
-                            if len(request) == 0:  # disconnect by client behind socket
+                            pending = self.sock.recv(4096)
+                            if len(pending) == 0:  # disconnect by client behind socket
+                                disconnected = True
                                 self.on_socket_disconnect(self)
-                                return
-                            os.write(self.master, request)
                 except (ConnectionResetError, BrokenPipeError):
+                    disconnected = True
+                    pending = b""
                     self.on_socket_disconnect(self)
-                    return
 
+        os.set_blocking(self.master, False)
         self._terminated = False
         self._thread = threading.Thread(target=forward_traffic, name=f"PTY on {os.ttyname(self.slave)}", daemon=True)
         self._thread.start()
 
+    def send_eof(self):
+        """Make the PTY slave see an EOF, once it has read everything sent so far.
+
+        Contrary to sending a command, this works regardless of what the software
+        on the slave side currently expects as its input.
+        """
+        # In raw mode there is no EOF character; but with VMIN = VTIME = 0, a read
+        # returns nothing, i.e. EOF, when there is no data left.
+        attrs = termios.tcgetattr(self.slave)
+        attrs[6][termios.VMIN] = 0
+        attrs[6][termios.VTIME] = 0
+        termios.tcsetattr(self.slave, termios.TCSANOW, attrs)
+        try:
+            os.write(self.master, b"\n")  # wake up a read already in progress
+        except BlockingIOError:  # lots of unread input, so no read is waiting for more
+            pass
+
     def stop(self):
         """Shut down. This also closes the PTY."""
         if self._thread:
diff --git a/unpythonic/net/server.py b/unpythonic/net/server.py
index 01c807a..bc4d3f7 100644
--- a/unpythonic/net/server.py
+++ b/unpythonic/net/server.py
@@ -452,7 +452,7 @@ class ConsoleSession(socketserver.BaseRequestHandler):
 
             def on_socket_disconnect(adaptor):
                 server_print(f"PTY on {os.ttyname(adaptor.slave)} for client {client_address_str} disconnected by client.")
-                os.write(adaptor.master, "quit()\n".encode("utf-8"))  # as if this text arrived from the socket
+                adaptor.send_eof()  # as if Ctrl+D was pressed at the terminal
             def on_slave_disconnect(adaptor):
                 server_print(f"PTY on {os.ttyname(adaptor.slave)} for client {client_address_str} disconnected by PTY slave.")
             adaptor = PTYSocketProxy(self.request, on_socket_disconnect, on_slave_disconnect)
-- 
2.43.0


From 5110b013dbc1ffc4e11e1a716fdce05d8b0e35f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:03 +0000
Subject: [PATCH 123/126] fix: REPL server: when start() failed to open the
 control port, it left behind a REPL server that could not be stopped, and
 redirected standard streams

---
 unpythonic/net/server.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/unpythonic/net/server.py b/unpythonic/net/server.py
index bc4d3f7..f0578a6 100644
--- a/unpythonic/net/server.py
+++ b/unpythonic/net/server.py
@@ -554,6 +554,22 @@ def start(locals, bind="127.0.0.1", repl_port=1337, control_port=8128, banner=No
     if _server_instance is not None:
         raise RuntimeError("The current process already has a running REPL server.")
 
+    # Open the ports first, because this may fail (e.g. if a port is already in use).
+    # https://docs.python.org/3/library/socketserver.html#socketserver.BaseServer.server_address
+    # https://docs.python.org/3/library/socketserver.html#socketserver.BaseServer.RequestHandlerClass
+    server = ReuseAddrThreadingTCPServer((bind, repl_port), ConsoleSession)
+    server.daemon_threads = True  # Allow Python to exit even if there are REPL sessions alive.
+
+    # Control channel for remote tab completion and remote Ctrl+C requests.
+    # Default port is 8128 because it's for *completing* things, and https://en.wikipedia.org/wiki/Perfect_number
+    # This is the first one above 1024, and was already known to Nicomachus around 100 CE.
+    try:
+        cserver = ReuseAddrThreadingTCPServer((bind, control_port), ControlSession)
+    except BaseException:
+        server.server_close()
+        raise
+    cserver.daemon_threads = True
+
     _console_locals_namespace = locals
     for function in _repl_exports:  # Inject REPL utilities
         _console_locals_namespace[function.__name__] = function
@@ -595,18 +611,8 @@ def start(locals, bind="127.0.0.1", repl_port=1337, control_port=8128, banner=No
     sys.stdout = Shim(_threadlocal_stdout)
     sys.stderr = Shim(_threadlocal_stderr)
 
-    # https://docs.python.org/3/library/socketserver.html#socketserver.BaseServer.server_address
-    # https://docs.python.org/3/library/socketserver.html#socketserver.BaseServer.RequestHandlerClass
-    server = ReuseAddrThreadingTCPServer((bind, repl_port), ConsoleSession)
-    server.daemon_threads = True  # Allow Python to exit even if there are REPL sessions alive.
     server_thread = threading.Thread(target=server.serve_forever, name="Unpythonic REPL server", daemon=True)
     server_thread.start()
-
-    # Control channel for remote tab completion and remote Ctrl+C requests.
-    # Default port is 8128 because it's for *completing* things, and https://en.wikipedia.org/wiki/Perfect_number
-    # This is the first one above 1024, and was already known to Nicomachus around 100 CE.
-    cserver = ReuseAddrThreadingTCPServer((bind, control_port), ControlSession)
-    cserver.daemon_threads = True
     cserver_thread = threading.Thread(target=cserver.serve_forever, name="Unpythonic REPL control server", daemon=True)
     cserver_thread.start()
 
-- 
2.43.0


From 6017e6377560f625658a5a6324b49e7f897bf5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:14 +0000
Subject: [PATCH 124/126] fix: fn[] inside a class body in a `with envify`
 block raised AttributeError

---
 unpythonic/syntax/lambdatools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpythonic/syntax/lambdatools.py b/unpythonic/syntax/lambdatools.py
index 01fb94d..9d0279e 100644
--- a/unpythonic/syntax/lambdatools.py
+++ b/unpythonic/syntax/lambdatools.py
@@ -435,7 +435,7 @@ def _fn(tree, mynames=()):
             if type(tree) is Subscript and type(tree.value) is Name and tree.value.id in mynames:
                 return tree
             elif type(tree) is Name and tree.id == "_":
-                name = gensym("_")
+                name = gensym("_arg")  # just "_" would make it a private name, which Python mangles in a class body
                 tree.id = name
                 self.collect(name)
             return self.generic_visit(tree)
-- 
2.43.0


From 7f18199881b1bdced3bfc1a3f28b1425d27f9596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:29:28 +0000
Subject: [PATCH 125/126] fix: test[]: a value whose bool() or repr() raises is
 counted as the outcome of the test, and doesn't stop the test set

---
 unpythonic/syntax/testingtools.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/unpythonic/syntax/testingtools.py b/unpythonic/syntax/testingtools.py
index 9353a8b..60af2a6 100644
--- a/unpythonic/syntax/testingtools.py
+++ b/unpythonic/syntax/testingtools.py
@@ -541,6 +541,14 @@ def _observe(thunk):
         return fixtures.raised, err
 
 
+def _describe_value(value, convert):
+    """Return `convert(value)`, for inclusion in a message; never raises."""
+    try:
+        return convert(value)
+    except Exception as err:
+        return f"<{type(value)}; {type(err)} while formatting the value>"
+
+
 def unpythonic_assert(sourcecode, func, *, filename, lineno, message=None):
     """Custom assert function, for building test frameworks.
 
@@ -588,7 +596,13 @@ def unpythonic_assert(sourcecode, func, *, filename, lineno, message=None):
     # by the comparison destructuring mechanism.
     e = env(captured_values=[])
     testexpr = func  # descriptive name for stack trace; if you change this, change also in `_test_expr`.
-    mode, test_result = _observe(thunk=(lambda: testexpr(e)))  # <-- run the actual expr being asserted
+    passed = False
+    def thunk():
+        nonlocal passed
+        result = testexpr(e)  # <-- run the actual expr being asserted
+        passed = bool(result)  # may raise, so this is part of the test
+        return result
+    mode, test_result = _observe(thunk)
     if e.captured_values:
         # Convenience for testing/debugging macro code:
         #
@@ -603,7 +617,7 @@ def unpythonic_assert(sourcecode, func, *, filename, lineno, message=None):
         # This is only done for logging. In order to avoid breaking introspection,
         # the actual exception instance (if the test fails) always gets the
         # original raw values.
-        logged_values = [(source, (repr(v) if not isinstance(v, AST) else f"<AST; unparsed form: '{unparse(v)}'>"))
+        logged_values = [(source, _describe_value(v, (repr if not isinstance(v, AST) else lambda v: f"<AST; unparsed form: '{unparse(v)}'>")))
                          for source, v in e.captured_values]
 
         # Canonization eliminates surface syntax differences such as
@@ -626,11 +640,11 @@ def unpythonic_assert(sourcecode, func, *, filename, lineno, message=None):
         if values_strs:
             values_msg = ", due to " + ", ".join(values_strs)
         else:  # if we have no useful details to report, report the value of the whole expression.
-            values_msg = f", due to result = {test_result}"
+            values_msg = f", due to result = {_describe_value(test_result, str)}"
     else:
         # It's legal to omit capturing the values of any subexprs.
         # In that case, we report the value of the whole expression.
-        values_msg = f", due to result = {test_result}"
+        values_msg = f", due to result = {_describe_value(test_result, str)}"
     fixtures._update(fixtures.tests_run, +1)
 
     if message is not None:
@@ -680,7 +694,7 @@ def unpythonic_assert(sourcecode, func, *, filename, lineno, message=None):
 
     # general cases
     elif mode is fixtures.completed:
-        if test_result:
+        if passed:
             return
         fixtures._update(fixtures.tests_failed, +1)
         conditiontype = fixtures.TestFailure
-- 
2.43.0


From b145d41ca3a4cebf7cf3614d941015feaf55ae52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:29:29 +0000
Subject: [PATCH 126/126] fix: scope analyzer: `import a.b` binds the name `a`

---
 unpythonic/syntax/scopeanalyzer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unpythonic/syntax/scopeanalyzer.py b/unpythonic/syntax/scopeanalyzer.py
index dfd59c4..46df424 100644
--- a/unpythonic/syntax/scopeanalyzer.py
+++ b/unpythonic/syntax/scopeanalyzer.py
@@ -386,7 +386,8 @@ def get_names_in_store_context(tree):
             #     self._collect_name_or_list(tree.target)
             elif type(tree) in (Import, ImportFrom):
                 for x in tree.names:
-                    self.collect(x.asname if x.asname is not None else x.name)
+                    # `import a.b` binds `a`
+                    self.collect(x.asname if x.asname is not None else x.name.split(".")[0])
             elif type(tree) in (Try, TryStar):  # Python 3.11+: `try`/`except*`
                 # https://docs.python.org/3/reference/compound_stmts.html#the-try-statement
                 #
-- 
2.43.0

