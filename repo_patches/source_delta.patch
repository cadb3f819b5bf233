From 50d787805c32511a7ec22b127067241d2cd309b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:53 +0000
Subject: [PATCH 001/124] fix: gmemoize creates exactly one underlying
 generator under concurrent first calls

---
 unpythonic/gmemo.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/unpythonic/gmemo.py b/unpythonic/gmemo.py
index ecd14e6..7bce1f2 100644
--- a/unpythonic/gmemo.py
+++ b/unpythonic/gmemo.py
@@ -92,12 +92,14 @@ def gmemoize(gfunc):
     See also ``imemoize``, ``fimemoize``.
     """
     memos = {}
+    memos_lock = RLock()
     @wraps(gfunc)
     def gmemoized(*args, **kwargs):
         k = tuplify_bindings(resolve_bindings(gfunc, *args, **kwargs))
-        if k not in memos:
-            # underlying generator instance, memo instance, lock instance
-            memos[k] = (gfunc(*args, **kwargs), [], RLock())
+        with memos_lock:  # exactly one underlying generator per memoized sequence
+            if k not in memos:
+                # underlying generator instance, memo instance, lock instance
+                memos[k] = (gfunc(*args, **kwargs), [], RLock())
         return _MemoizedGenerator(*memos[k])
     return gmemoized
 
-- 
2.43.0


From f7074f3a42b8d0cbf87961a60d81610b65c69dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:53 +0000
Subject: [PATCH 002/124] fix: memoized generator instance shared by threads
 hands out each item once

---
 unpythonic/gmemo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpythonic/gmemo.py b/unpythonic/gmemo.py
index 7bce1f2..709162f 100644
--- a/unpythonic/gmemo.py
+++ b/unpythonic/gmemo.py
@@ -118,9 +118,9 @@ class _MemoizedGenerator:
     def __iter__(self):
         return self
     def __next__(self):
-        j = self.j
         memo = self.memo
         with self.lock:
+            j = self.j
             if j < len(memo):
                 result = memo[j]
             else:
-- 
2.43.0


From 8012bd76fbb7bc4db41ff04b798a739e58be15c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:53 +0000
Subject: [PATCH 003/124] fix: end of a memoized generator is not counted or
 shown as a memoized item

---
 unpythonic/gmemo.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/unpythonic/gmemo.py b/unpythonic/gmemo.py
index 709162f..7a1d209 100644
--- a/unpythonic/gmemo.py
+++ b/unpythonic/gmemo.py
@@ -105,6 +105,7 @@ def gmemoize(gfunc):
 
 _success = sym("_success")
 _fail = sym("_fail")
+_end = sym("_end")
 class _MemoizedGenerator:
     """Wrapper that manages one memoized sequence. Co-operates with gmemoize."""
     def __init__(self, g, memo, lock):
@@ -123,36 +124,43 @@ class _MemoizedGenerator:
             j = self.j
             if j < len(memo):
                 result = memo[j]
+            elif memo and memo[-1][0] is _end:  # already past the end
+                raise StopIteration
             else:
                 try:
                     result = (_success, next(self.g))
-                except BaseException as err:  # StopIteration propagates, not a BaseException
+                except StopIteration as err:  # end of the sequence, not an item
+                    result = (_end, err)
+                except BaseException as err:
                     result = (_fail, err)
                 memo.append(result)
             kind, value = result
             self.j += 1
-            if kind is _fail:
+            if kind is not _success:
                 raise value
             return value
     # Support a subset of the `collections.abc.Sequence` API for already-computed items
     def __len__(self):
-        return len(self.memo)
+        length = len(self.memo)
+        if length and self.memo[-1][0] is _end:
+            length -= 1
+        return length
     def __getitem__(self, k):
         if not isinstance(k, (int, slice)):
             raise TypeError(f"Expected an int or slice index, got {type(k)} with value {repr(k)}")
-        length = len(self.memo)
+        length = len(self)
         if isinstance(k, slice):
             # For slices where at least one item raises an exception, we raise the
             # exception that is encountered first when walking the slice.
             lst = []
-            for kind, value in self.memo[k]:
+            for kind, value in self.memo[:length][k]:
                 if kind is _fail:
                     raise value
                 lst.append(value)
             return lst
         if k >= length or k < -length:
-            raise IndexError(f"memoized generator index out of range; got {k}, with {len(self.memo)} items currently available")
-        kind, value = self.memo[k]
+            raise IndexError(f"memoized generator index out of range; got {k}, with {length} items currently available")
+        kind, value = self.memo[k if k >= 0 else k + length]
         if kind is _fail:
             raise value
         return value
-- 
2.43.0


From 5a117a49077d9a0bd04c110149de2289d3609ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:51 +0000
Subject: [PATCH 004/124] fix: decodemsg crashed with UnboundLocalError when
 4096 or more bytes were already buffered

---
 unpythonic/net/msg.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/unpythonic/net/msg.py b/unpythonic/net/msg.py
index cc5d621..0bc4cf4 100644
--- a/unpythonic/net/msg.py
+++ b/unpythonic/net/msg.py
@@ -220,14 +220,12 @@ def decodemsg(buf, source):
         # The len(val) check prevents a junk flood attack.
         # The maximum value of the length has 4090 base-10 digits, all nines.
         # The 4096 is arbitrarily chosen, but matches the typical socket read size.
-        while len(val) < 4096:
-            j = val.find(b";")  # end of length-of-body field
-            if j != -1:  # found
-                break
+        j = val.find(b";")  # end of length-of-body field
+        while j == -1 and len(val) < 4096:
             val = read_more_input()
-        if j == -1:  # maximum length of length-of-body field exceeded, terminator not found.
+            j = val.find(b";")
+        if j == -1 or j >= 4096:  # maximum length of length-of-body field exceeded, terminator not found.
             raise MessageHeaderParseError
-        j = val.find(b";")
         body_len = int(val[5:j].decode("utf-8"))
         buf.set(val[(j + 1):])
         return body_len
-- 
2.43.0


From 3488c1b3ef7f0f47aa0e376e350a51b7734352e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:51 +0000
Subject: [PATCH 005/124] fix: decodemsg re-synchronizes on a malformed length
 field instead of raising ValueError

---
 unpythonic/net/msg.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/unpythonic/net/msg.py b/unpythonic/net/msg.py
index 0bc4cf4..945aebf 100644
--- a/unpythonic/net/msg.py
+++ b/unpythonic/net/msg.py
@@ -226,6 +226,8 @@ def decodemsg(buf, source):
             j = val.find(b";")
         if j == -1 or j >= 4096:  # maximum length of length-of-body field exceeded, terminator not found.
             raise MessageHeaderParseError
+        if not val[5:j].isdigit():  # not a number, so this is not a header
+            raise MessageHeaderParseError
         body_len = int(val[5:j].decode("utf-8"))
         buf.set(val[(j + 1):])
         return body_len
-- 
2.43.0


From 026789a0a13da5ee7cc25d715988549034d58e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:51 +0000
Subject: [PATCH 006/124] fix: streamsource honours its chunksize

---
 unpythonic/net/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpythonic/net/util.py b/unpythonic/net/util.py
index 541a6c0..874aece 100644
--- a/unpythonic/net/util.py
+++ b/unpythonic/net/util.py
@@ -128,7 +128,7 @@ def streamsource(stream, chunksize=4096):
         raise TypeError(f"Expected a derivative of `IOBase`, got {type(stream)}")
     def stream_chunk_iterator():
         while True:
-            data = stream.read(4096)
+            data = stream.read(chunksize)
             if len(data) == 0:
                 return
             yield data
-- 
2.43.0


From aea2c3ec419bd53d986fe79a950ee254aabd796e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:17 +0000
Subject: [PATCH 007/124] fix: gtco no longer swallows a TypeError raised while
 iterating over the last iterable of the chain

---
 unpythonic/gtco.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/unpythonic/gtco.py b/unpythonic/gtco.py
index b5cccf3..e3659a2 100644
--- a/unpythonic/gtco.py
+++ b/unpythonic/gtco.py
@@ -30,9 +30,11 @@ def gtco(generator):
         else:
             # usually the return value is None, but allow for an iterable
             try:
-                yield from x  # the last batch!
+                lastbatch = iter(x)
             except TypeError:
                 return x  # passthrough
+            yield from lastbatch
+            return
 
 def gtrampolined(gfunc):
     """Decorator for generator functions (i.e. definitions of generators).
-- 
2.43.0


From 132a1f98f1ba2cd668ff0e93b5db80cef7e41e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:23 +0000
Subject: [PATCH 008/124] fix: jump into a trampolined bound method no longer
 loses its self

---
 unpythonic/tco.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/unpythonic/tco.py b/unpythonic/tco.py
index 16eb80d..b4f3dfd 100644
--- a/unpythonic/tco.py
+++ b/unpythonic/tco.py
@@ -128,7 +128,9 @@ slower than Python's ``for``.
 __all__ = ["jump", "trampolined"]
 
 from functools import wraps
+from inspect import ismethod
 from sys import stderr
+from types import MethodType
 
 from .regutil import register_decorator
 from .lazyutil import islazy, passthrough_lazy_args, maybe_force_args
@@ -164,7 +166,12 @@ class _jump:
     """
     def __init__(self, target, args, kwargs):
         # IMPORTANT: don't let target bring along its trampoline if it has one
-        self.target = target._entrypoint if hasattr(target, "_entrypoint") else target
+        if hasattr(target, "_entrypoint"):
+            entrypoint = target._entrypoint
+            # A bound method sees the attributes of the function; keep the binding.
+            self.target = MethodType(entrypoint, target.__self__) if ismethod(target) else entrypoint
+        else:
+            self.target = target
         self.args = args
         self.kwargs = kwargs
         self._claimed = False  # set when the instance is caught by a trampoline
-- 
2.43.0


From 676bdeefdad604145eaea2e4df51f2be2e6b3868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:26 +0000
Subject: [PATCH 009/124] fix: resignal applies only the first matching
 conversion of the mapping

---
 unpythonic/conditions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/unpythonic/conditions.py b/unpythonic/conditions.py
index a02e853..9e8b440 100644
--- a/unpythonic/conditions.py
+++ b/unpythonic/conditions.py
@@ -890,6 +890,7 @@ def _resignal_handler(mapping, condition):
                 error(f"Cannot resignal: protocol information missing in condition instance {condition}")
             resignaler = condition.__protocol__
             resignaler(ApplicationExc, cause=condition)
+            break  # only the first matching conversion applies
     # cancel and delegate to the next outer handler
 
 def resignal_in(body, mapping):
-- 
2.43.0


From 1369c49edb69a366b8d47761023158660441a13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:26 +0000
Subject: [PATCH 010/124] fix: warn, when given a condition class, emits the
 warning with that class as the category

---
 unpythonic/conditions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/unpythonic/conditions.py b/unpythonic/conditions.py
index 9e8b440..69b685f 100644
--- a/unpythonic/conditions.py
+++ b/unpythonic/conditions.py
@@ -841,6 +841,8 @@ def warn(condition, *, cause=None):
     `contextlib.suppress`, except that execution continues normally
     in the caller of `warn` instead of unwinding to the handler.
     """
+    if safeissubclass(condition, BaseException):  # "warn(SomeWarning)"
+        condition = condition()  # instantiate with no args, like `raise` does
     with restarts(muffle=(lambda: None)):  # just for control, no return value
         with restarts(_proceed=(lambda: None)):  # for internal use by unpythonic.test.fixtures
             signal(condition, cause=cause, protocol=warn)
-- 
2.43.0


From d94b1a3bbe1152cc4676a5f56b442718a302e189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:39 +0000
Subject: [PATCH 011/124] fix: a condition handler may itself use with handlers

---
 unpythonic/conditions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpythonic/conditions.py b/unpythonic/conditions.py
index 69b685f..c5d54bf 100644
--- a/unpythonic/conditions.py
+++ b/unpythonic/conditions.py
@@ -505,7 +505,7 @@ class InvokeRestart(BaseException):
 
 def _find_handlers(cls):  # 0..n (though 0 is an error, handled at the calling end)
     _ensure_stacks()
-    for e in _stacks.handlers:
+    for e in tuple(_stacks.handlers):  # snapshot; a handler may itself use `with handlers`
         for t, handler in e:  # t: tuple or type
             if isinstance(t, tuple):
                 if any(issubclass(cls, x) for x in t):
-- 
2.43.0


From 4728676ee7683bb76e8695f7e62c87491805b349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:26 +0000
Subject: [PATCH 012/124] fix: rebinding a dynvar in a thread no longer leaks
 into the main thread and other threads

---
 unpythonic/dynassign.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpythonic/dynassign.py b/unpythonic/dynassign.py
index 8fce245..44f97d3 100644
--- a/unpythonic/dynassign.py
+++ b/unpythonic/dynassign.py
@@ -26,7 +26,7 @@ def _getstack():
         # TODO: preferable to use the parent thread's current stack, but difficult to get.
         # Could monkey-patch threading.Thread.__init__ to record this information in self...
         with _mainthread_lock:
-            _L._stack = _mainthread_stack.copy()
+            _L._stack = [scope.copy() for scope in _mainthread_stack]
     return _L._stack
 
 def _getobservers():
-- 
2.43.0


From ef6894fcb1543c2e02f67815cf65ba504c95fc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:26 +0000
Subject: [PATCH 013/124] fix: live views of dyn are released when no longer in
 use

---
 unpythonic/dynassign.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unpythonic/dynassign.py b/unpythonic/dynassign.py
index 44f97d3..03ef31e 100644
--- a/unpythonic/dynassign.py
+++ b/unpythonic/dynassign.py
@@ -6,6 +6,7 @@ __all__ = ["dyn", "make_dynvar"]
 import threading
 from collections import ChainMap
 from collections.abc import Container, Sized, Iterable, Mapping
+from weakref import WeakValueDictionary
 
 from .singleton import Singleton
 
@@ -31,7 +32,7 @@ def _getstack():
 
 def _getobservers():
     if not hasattr(_L, "_observers"):
-        _L._observers = {}
+        _L._observers = WeakValueDictionary()  # a live view is refreshed as long as someone holds it
     return _L._observers
 
 class _EnvBlock(object):
-- 
2.43.0


From 7a5a7268af10429a577db2fffbbb89612af6a831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:56 +0000
Subject: [PATCH 014/124] fix: _bind no longer binds surplus positional
 arguments to keyword-only parameters

---
 unpythonic/arity.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/unpythonic/arity.py b/unpythonic/arity.py
index 1ffc460..d1da11c 100644
--- a/unpythonic/arity.py
+++ b/unpythonic/arity.py
@@ -542,6 +542,9 @@ def _bind(thesignature, args, kwargs, *, partial):
                     # raise TypeError(
                     #     'too many positional arguments') from None
                     extra_args.append(arg_val)
+                    extra_args.extend(arg_vals)
+                    parameters_ex = (param,)
+                    break
 
                 if param.kind == Parameter.VAR_POSITIONAL:
                     # We have an '*args'-like argument, let's fill it with
-- 
2.43.0


From 0eec96e7c3b28c4c05b4bbd7fb421078ad4fe776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:56 +0000
Subject: [PATCH 015/124] fix: curry raises TypeError at the top level also if
 arguments remain after a chained passthrough call

---
 unpythonic/fun.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/unpythonic/fun.py b/unpythonic/fun.py
index e3afecf..e7cdf12 100644
--- a/unpythonic/fun.py
+++ b/unpythonic/fun.py
@@ -412,7 +412,10 @@ def curry(f, *args, _curry_force_call=False, _curry_allow_uninspectable=False, *
                 if callable(leftmost):
                     if not iscurried(leftmost):
                         leftmost = curry(leftmost)
-                    return maybe_force_args(leftmost, *later_args, **later_kwargs)
+                    # The call continues the chain in *our* place, so any arguments it leaves
+                    # over are for `outerctx` (or an error, if we are at the top level).
+                    with dyn.let(curry_context=outerctx):
+                        return maybe_force_args(leftmost, *later_args, **later_kwargs)
 
                 # The first positional return value is not a callable. Pass the return value(s) through
                 # to the curried procedure waiting in outerctx (e.g. in a curried compose chain).
-- 
2.43.0


From 196ea971a30d8b6164422345e126c6ad2a7f017f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:37 +0000
Subject: [PATCH 016/124] fix: curry keeps surplus arguments given before all
 parameters are bound

---
 unpythonic/fun.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/unpythonic/fun.py b/unpythonic/fun.py
index e7cdf12..fddf01a 100644
--- a/unpythonic/fun.py
+++ b/unpythonic/fun.py
@@ -438,10 +438,16 @@ def curry(f, *args, _curry_force_call=False, _curry_allow_uninspectable=False, *
                 # Fail-fast: use our `partial` wrapper to type-check the partial call signature
                 # when we build the curried function. It delegates to `functools.partial` if the
                 # type check passes, and else raises a `TypeError` immediately.
-                p = partial(f, *args, **kwargs)
+                # Any extra args/kwargs must wait until all parameters of `f` have a binding.
+                later_args, later_kwargs = analysis.extra_args, analysis.extra_kwargs
+                now_args = args[:-len(later_args)] if later_args else args
+                p = partial(f, *now_args, **{k: v for k, v in kwargs.items() if k not in later_kwargs})
                 if islazy(f):
                     p = passthrough_lazy_args(p)
-                return curry(p)
+                p = curry(p)
+                if later_args or later_kwargs:
+                    return _curry_with_extras(p, later_args, later_kwargs)
+                return p
 
             else:  # pragma: no cover
                 assert False, action
@@ -453,6 +459,15 @@ def curry(f, *args, _curry_force_call=False, _curry_allow_uninspectable=False, *
         return maybe_force_args(curried, *args, **kwargs)
     return curried
 
+def _curry_with_extras(curried, extra_args, extra_kwargs):
+    """Make a `curried` function remember the extra args/kwargs that are to be passed through later."""
+    @passthrough_lazy_args
+    @wraps(curried)
+    def curried_with_extras(*args, **kwargs):
+        return maybe_force_args(curried, *extra_args, *args, **{**extra_kwargs, **kwargs})
+    curried_with_extras._is_curried_function = True
+    return curried_with_extras
+
 @passthrough_lazy_args
 def _currycall(f, *args, **kwargs):
     """Co-operate with unpythonic.syntax.autocurry.
-- 
2.43.0


From 4ea28fa6b4546f5515b1eb5d7e620013562353a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:24 +0000
Subject: [PATCH 017/124] fix: partial type-checks the arguments of a further
 partial application against the right parameters

---
 unpythonic/fun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpythonic/fun.py b/unpythonic/fun.py
index fddf01a..96080a5 100644
--- a/unpythonic/fun.py
+++ b/unpythonic/fun.py
@@ -160,7 +160,7 @@ def partial(func, *args, **kwargs):
         type_signature = get_type_hints(thecallable)
         if type_signature:  # TODO: Python 3.8+: use walrus assignment here
             # Partial mode: allow leaving some parameters unbound.
-            bound_arguments = _resolve_bindings(func, collected_args, collected_kwargs, _partial=True)
+            bound_arguments = _resolve_bindings(thecallable, collected_args, collected_kwargs, _partial=True)
             # Allow having some parameters without type annotations, in which case those parameters
             # will not be type-checked. `@generic` requires them for all parameters except
             # `self`/`cls`, but type annotations in general have no such requirement.
-- 
2.43.0


From 26a0ecad225c67a6680580dc80f1ab72148eddce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:37 +0000
Subject: [PATCH 018/124] fix: curry and partial work for any number of partial
 application steps

---
 unpythonic/fun.py | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/unpythonic/fun.py b/unpythonic/fun.py
index 96080a5..3e9d794 100644
--- a/unpythonic/fun.py
+++ b/unpythonic/fun.py
@@ -134,14 +134,16 @@ def partial(func, *args, **kwargs):
     # HACK: As of Python 3.8, `typing.get_type_hints` does not know about `functools.partial` objects,
     # HACK: but those objects have `args` and `keywords` attributes, so we can extract what we need.
     # TODO: Maybe remove this hack if `typing.get_type_hints` gets support for `functools.partial` at some point.
-    if isinstance(func, functools_partial):
-        thecallable = func.func
-        collected_args = func.args + args
-        collected_kwargs = {**func.keywords, **kwargs}
-    else:
-        thecallable = func
-        collected_args = args
-        collected_kwargs = kwargs
+    #
+    # NOTE: `functools.partial` does not flatten a nested `partial` object that has a `__dict__`
+    # (such as one that has been decorated by a wrapper using `functools.wraps`).
+    thecallable = func
+    collected_args = args
+    collected_kwargs = kwargs
+    while isinstance(thecallable, functools_partial):
+        collected_args = thecallable.args + collected_args
+        collected_kwargs = {**thecallable.keywords, **collected_kwargs}
+        thecallable = thecallable.func
 
     if isgeneric(thecallable):  # multiple dispatch
         # For generic functions, at least one multimethod must match the partial signature
@@ -508,14 +510,13 @@ def _decide_curry_action(f, args, kwargs):
     # To support kwargs properly, we must compute argument bindings anyway, so we also use the
     # `func` and `args` attributes. This allows us to compute the bindings of all arguments
     # against the original function.
-    if isinstance(f, functools_partial):
-        function = f.func
-        collected_args = f.args + args
-        collected_kwargs = {**f.keywords, **kwargs}
-    else:
-        function = f
-        collected_args = args
-        collected_kwargs = kwargs
+    function = f
+    collected_args = args
+    collected_kwargs = kwargs
+    while isinstance(function, functools_partial):
+        collected_args = function.args + collected_args
+        collected_kwargs = {**function.keywords, **collected_kwargs}
+        function = function.func
 
     def _bind_arguments(thecallable):
         # For this check we look for a complete match, hence `_partial=False`.
-- 
2.43.0


From 421fb5228a355c7c4f3aecdb73514f984f1f1788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:16 +0000
Subject: [PATCH 019/124] fix: a dispatch or type mismatch raises TypeError
 also when the source code of the function is not available

---
 unpythonic/dispatch.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/unpythonic/dispatch.py b/unpythonic/dispatch.py
index 5f06e41..df6ad31 100644
--- a/unpythonic/dispatch.py
+++ b/unpythonic/dispatch.py
@@ -499,8 +499,11 @@ def _format_callable(thecallable):
     #    the `co_filename` of the code object. If the function is decorated, then it sees
     #    the source file where the decorator was defined, not the original function.
     # function = inspect.unwrap(function)  # maybe this helps? But now I can't reproduce the bug to test it.
-    filename = inspect.getsourcefile(function)
-    source, firstlineno = inspect.getsourcelines(function)
+    try:
+        filename = inspect.getsourcefile(function)
+        source, firstlineno = inspect.getsourcelines(function)
+    except OSError:  # no source code available, e.g. defined in an interactive session
+        filename, firstlineno = function.__code__.co_filename, function.__code__.co_firstlineno
     return f"{thecallable.__qualname__}{str(thesignature)} from {filename}:{firstlineno}"
 
 def _resolve_multimethod(dispatcher, args, kwargs, *, _partial=False):
-- 
2.43.0


From c510f1565044492d997e529de6a0051579ba6ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:16 +0000
Subject: [PATCH 020/124] fix: a type mismatch in a further partial application
 raises TypeError instead of AttributeError

---
 unpythonic/fun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpythonic/fun.py b/unpythonic/fun.py
index 3e9d794..6e61636 100644
--- a/unpythonic/fun.py
+++ b/unpythonic/fun.py
@@ -168,7 +168,7 @@ def partial(func, *args, **kwargs):
             # `self`/`cls`, but type annotations in general have no such requirement.
             mismatches = _get_argument_type_mismatches(type_signature, bound_arguments, skip_unannotated=True)
             if mismatches:
-                description = _format_callable(func)
+                description = _format_callable(thecallable)
                 mismatches_list = [f"{parameter}={repr(value)}, expected {expected_type}"
                                        for parameter, value, expected_type in mismatches]
                 mismatches_str = "; ".join(mismatches_list)
-- 
2.43.0


From 4f6692761eb310c4001bcfefa6f411c7e6d64056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:48 +0000
Subject: [PATCH 021/124] fix: curry of a generic function accepts partial
 applications that do not fit its first multimethod

---
 unpythonic/fun.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/unpythonic/fun.py b/unpythonic/fun.py
index 6e61636..b70596f 100644
--- a/unpythonic/fun.py
+++ b/unpythonic/fun.py
@@ -328,7 +328,12 @@ def curry(f, *args, _curry_force_call=False, _curry_allow_uninspectable=False, *
     # will perform the signature analysis.)
     if not (args or kwargs):
         try:
-            signature(f)
+            # Look at the original function; the signature of a `@generic` is just that of its
+            # first multimethod, so a partial application may be incompatible with it.
+            function = f
+            while isinstance(function, functools_partial):
+                function = function.func
+            signature(function)
         except ValueError as err:  # inspection failed in inspect.signature()?
             msg = err.args[0]
             if "no signature found" in msg:
-- 
2.43.0


From 74babf7e2319ad4a2788df495a8e854903f1ad81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:24 +0000
Subject: [PATCH 022/124] fix: composing a single function no longer marks the
 original as lazy, and works for builtins

---
 unpythonic/fun.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/unpythonic/fun.py b/unpythonic/fun.py
index b70596f..5db232e 100644
--- a/unpythonic/fun.py
+++ b/unpythonic/fun.py
@@ -824,7 +824,7 @@ def _make_compose1(direction):
     """
     def compose1_two(f, g):
         # return lambda x: f(g(x))
-        return lambda x: maybe_force_args(f, maybe_force_args(g, x))
+        return passthrough_lazy_args(lambda x: maybe_force_args(f, maybe_force_args(g, x)))
     if direction == "right":
         compose1_two = flip(compose1_two)
     def compose1(fs):
@@ -845,9 +845,7 @@ def _make_compose1(direction):
         # Using reducel is particularly nice here:
         #  - if fs is empty, we output None
         #  - if fs contains only one item, we output it as-is
-        composed = reducel(compose1_two, fs)  # op(elt, acc)
-        composed = passthrough_lazy_args(composed)
-        return composed
+        return reducel(compose1_two, fs)  # op(elt, acc)
     return compose1
 
 _compose1_left = _make_compose1("left")
@@ -921,7 +919,7 @@ def _make_compose(direction):
             if isinstance(a, Values):
                 return maybe_force_args(f, *a.rets, **a.kwrets)
             return maybe_force_args(f, a)
-        return composed
+        return passthrough_lazy_args(composed)
     if direction == "right":
         compose_two = flip(compose_two)
     def compose(fs):
@@ -932,9 +930,7 @@ def _make_compose(direction):
         public API functions whose names explicitly state the direction.
         """
         fs = force(fs)
-        composed = reducel(compose_two, fs)  # op(elt, acc)
-        composed = passthrough_lazy_args(composed)
-        return composed
+        return reducel(compose_two, fs)  # op(elt, acc)
     return compose
 
 _compose_left = _make_compose("left")
-- 
2.43.0


From 995fbfb3cfc36444faa4f7ac554d89b4dbabe7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:24 +0000
Subject: [PATCH 023/124] fix: tolast and tokth accept the most negative index

---
 unpythonic/fun.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unpythonic/fun.py b/unpythonic/fun.py
index 5db232e..b5813f2 100644
--- a/unpythonic/fun.py
+++ b/unpythonic/fun.py
@@ -1007,8 +1007,8 @@ def tokth(k, f):
         n = len(args)
         if not n:
             raise TypeError("Expected at least one argument")
-        if not -n < k < n:  # standard semantics for negative indices
-            raise IndexError(f"Should have -n < k < n, but n = len(args) = {n}, and k = {k}")
+        if not -n <= k < n:  # standard semantics for negative indices
+            raise IndexError(f"Should have -n <= k < n, but n = len(args) = {n}, and k = {k}")
         j = k % n  # --> j ∈ {0, 1, ..., n - 1}, even if k < 0
         m = j + 1  # --> m ∈ {1, 2, ..., n}
         out = list(args[:j])
-- 
2.43.0


From 91cd245e5cbaa4b1d84953c52741fea7ac09bac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:27 +0000
Subject: [PATCH 024/124] fix: composerc of three or more functions passes
 surplus arguments through, like composelc

---
 unpythonic/fun.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/unpythonic/fun.py b/unpythonic/fun.py
index b5813f2..29aecc9 100644
--- a/unpythonic/fun.py
+++ b/unpythonic/fun.py
@@ -902,6 +902,9 @@ def _make_compose(direction):
     but we refuse the temptation to guess. We provide only explicit `l` and `r` variants
     of all the `compose` utilities.
     """
+    def first_applied(f):
+        # `f` itself may be a composed function (when composing three or more functions to the right).
+        return getattr(f, "_composed_first_applied", f)
     def compose_two(f, g):
         """g is applied first, then f.
 
@@ -909,7 +912,7 @@ def _make_compose(direction):
         """
         def composed(*args, **kwargs):
             bindings = {}
-            if iscurried(f):
+            if iscurried(first_applied(f)):
                 # Co-operate with curry: provide a top-level curry context
                 # to allow passthrough from the function that is applied first
                 # to the function that is applied second.
@@ -919,6 +922,7 @@ def _make_compose(direction):
             if isinstance(a, Values):
                 return maybe_force_args(f, *a.rets, **a.kwrets)
             return maybe_force_args(f, a)
+        composed._composed_first_applied = first_applied(g)
         return passthrough_lazy_args(composed)
     if direction == "right":
         compose_two = flip(compose_two)
-- 
2.43.0


From 5a847638701cef59e20103040d7fdaa07a7db586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:16 +0000
Subject: [PATCH 025/124] fix: isoftype supports NewType of any supported type
 specification

---
 unpythonic/typecheck.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpythonic/typecheck.py b/unpythonic/typecheck.py
index 228c9dd..d690c8e 100644
--- a/unpythonic/typecheck.py
+++ b/unpythonic/typecheck.py
@@ -195,7 +195,7 @@ def isoftype(value, T):
         #   UserId = typing.NewType("UserId", int)
         #   i = UserId(42)  # UserId is the identity function, as per `typing` module docs
         #   print(type(i))  # int
-        return isinstance(value, T.__supertype__)
+        return isoftype(value, T.__supertype__)
 
     # Some one-trick ponies.
     for U in (typing.Iterator,    # can't non-destructively check element type
-- 
2.43.0


From b9cfc58154af06d68f4f1983a7a9ce93a515090a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:16 +0000
Subject: [PATCH 026/124] fix: isoftype no longer accepts non-empty tuples for
 Tuple[()]

---
 unpythonic/typecheck.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpythonic/typecheck.py b/unpythonic/typecheck.py
index d690c8e..0a1688b 100644
--- a/unpythonic/typecheck.py
+++ b/unpythonic/typecheck.py
@@ -235,7 +235,7 @@ def isoftype(value, T):
             return False
         # bare `typing.Tuple`, no restrictions on length or element type.
         # Python 3.9: if a generic has no args, it has no `__args__` attribute.
-        if not hasattr(T, "__args__") or not T.__args__:
+        if T is typing.Tuple or not hasattr(T, "__args__"):
             return True
         # homogeneous element type, arbitrary length
         if len(T.__args__) == 2 and T.__args__[1] is Ellipsis:
-- 
2.43.0


From c61b262981cdf6a7d2315ac1cb53f3313999fbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:34 +0000
Subject: [PATCH 027/124] fix: isoftype delegates concrete classes to
 isinstance

---
 unpythonic/typecheck.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/unpythonic/typecheck.py b/unpythonic/typecheck.py
index 0a1688b..572139c 100644
--- a/unpythonic/typecheck.py
+++ b/unpythonic/typecheck.py
@@ -197,6 +197,14 @@ def isoftype(value, T):
         #   print(type(i))  # int
         return isoftype(value, T.__supertype__)
 
+    # Concrete classes. We must check these before the generics, because a concrete class may be
+    # a (possibly virtual) subclass of the run-time class of a generic (e.g. of `list` for `List`).
+    if isinstance(T, type) and T.__module__ != "typing":
+        try:
+            return isinstance(value, T)
+        except TypeError as err:  # e.g. a protocol that cannot be checked at run time
+            raise NotImplementedError(f"This run-time type checker doesn't currently support {repr(T)}") from err
+
     # Some one-trick ponies.
     for U in (typing.Iterator,    # can't non-destructively check element type
               typing.Iterable,    # can't non-destructively check element type
-- 
2.43.0


From 942fe2dc117c4bf29df3f405338ae8ae0cd9239a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:34 +0000
Subject: [PATCH 028/124] fix: generic methods of an instance that is falsy
 look up inherited multimethods

---
 unpythonic/dispatch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpythonic/dispatch.py b/unpythonic/dispatch.py
index df6ad31..4876e77 100644
--- a/unpythonic/dispatch.py
+++ b/unpythonic/dispatch.py
@@ -463,7 +463,7 @@ def _list_multimethods(dispatcher, self_or_cls=None):
     # See discussions on interaction between `@staticmethod` and `super` in Python:
     #   https://bugs.python.org/issue31118
     #   https://stackoverflow.com/questions/26788214/super-and-staticmethod-interaction/26807879
-    if self_or_cls:
+    if self_or_cls is not None:
         if isinstance(self_or_cls, type):
             cls = self_or_cls
         elif hasattr(self_or_cls, "__class__"):
-- 
2.43.0


From d46c5b15a856b45f81f02505746a27302cd520a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:34 +0000
Subject: [PATCH 029/124] fix: required_kwargs and optional_kwargs work for
 generic functions with keyword-only parameters

---
 unpythonic/arity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpythonic/arity.py b/unpythonic/arity.py
index d1da11c..18e283e 100644
--- a/unpythonic/arity.py
+++ b/unpythonic/arity.py
@@ -306,7 +306,7 @@ def _kwargs(f, optionals=True):
     # Integration with the multiple-dispatch system (multimethods).
     from .dispatch import isgeneric, list_methods  # circular import
     if isgeneric(f):
-        thekwargs = {}
+        thekwargs = set()
         for (thecallable, type_signature) in list_methods(f):
             thekwargs.update(_kwargs(thecallable, optionals=optionals))
         return thekwargs
-- 
2.43.0


From a7862bf243cf494f67621eb82be36a934bdc3150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:47 +0000
Subject: [PATCH 030/124] fix: arity of bound generic methods does not count
 self, and covers inherited multimethods

---
 unpythonic/arity.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/unpythonic/arity.py b/unpythonic/arity.py
index 18e283e..3beab9d 100644
--- a/unpythonic/arity.py
+++ b/unpythonic/arity.py
@@ -237,6 +237,7 @@ def arities(f):
         UnknownArity
             If inspection failed.
     """
+    original_f = f
     f, kind = getfunc(f)
     try:
         if f in _builtin_arities:
@@ -249,12 +250,15 @@ def arities(f):
     if isgeneric(f):
         min_lower = _infty
         max_upper = 0
-        for (thecallable, type_signature) in list_methods(f):
+        for (thecallable, type_signature) in list_methods(original_f):
             lower, upper = arities(thecallable)  # let UnknownArity propagate
             if lower < min_lower:
                 min_lower = lower
             if upper > max_upper:
                 max_upper = upper
+        if kind in ("instancemethod", "classmethod"):  # self/cls is passed implicitly
+            min_lower = max(0, min_lower - 1)
+            max_upper -= 1
         return min_lower, max_upper
 
     try:
@@ -301,13 +305,14 @@ def optional_kwargs(f):
     return _kwargs(f, optionals=True)
 
 def _kwargs(f, optionals=True):
+    original_f = f
     f, _ = getfunc(f)
 
     # Integration with the multiple-dispatch system (multimethods).
     from .dispatch import isgeneric, list_methods  # circular import
     if isgeneric(f):
         thekwargs = set()
-        for (thecallable, type_signature) in list_methods(f):
+        for (thecallable, type_signature) in list_methods(original_f):
             thekwargs.update(_kwargs(thecallable, optionals=optionals))
         return thekwargs
 
-- 
2.43.0


From 23cd36a321a0f46cd5184ac22d7baf7509708436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:47 +0000
Subject: [PATCH 031/124] fix: arities of a bound method whose self parameter
 is optional is no longer negative

---
 unpythonic/arity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpythonic/arity.py b/unpythonic/arity.py
index 3beab9d..123a521 100644
--- a/unpythonic/arity.py
+++ b/unpythonic/arity.py
@@ -274,7 +274,7 @@ def arities(f):
             elif v.kind is Parameter.VAR_POSITIONAL:
                 upper = _infty  # no upper limit
         if kind in ("instancemethod", "classmethod"):  # self/cls is passed implicitly
-            lower -= 1
+            lower = max(0, lower - 1)
             upper -= 1
         return lower, upper
     except (TypeError, ValueError) as e:  # likely an uninspectable method of a builtin
-- 
2.43.0


From c0c1088a4ddf8d03440d2e2cdb272213cf819f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:15 +0000
Subject: [PATCH 032/124] fix: inherited multimethods are tried in MRO order
 also in a diamond

---
 unpythonic/dispatch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpythonic/dispatch.py b/unpythonic/dispatch.py
index 4876e77..3244bb8 100644
--- a/unpythonic/dispatch.py
+++ b/unpythonic/dispatch.py
@@ -472,7 +472,7 @@ def _list_multimethods(dispatcher, self_or_cls=None):
             assert False
 
         for base in cls.__mro__[1:]:  # skip the class itself in the MRO
-            if hasattr(base, dispatcher.__name__):  # does this particular super have f?
+            if dispatcher.__name__ in vars(base):  # does this particular super (itself) have f?
                 base_oop_method = getattr(base, dispatcher.__name__)
                 base_raw_function, _ = getfunc(base_oop_method)
                 if isgeneric(base_raw_function):  # it's @generic or @typed
-- 
2.43.0


From f39c7056eef5e7aeefe43e0edf9e1cddc20b1429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:15 +0000
Subject: [PATCH 033/124] fix: list_methods of an inherited generic method
 lists each multimethod once

---
 unpythonic/dispatch.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/unpythonic/dispatch.py b/unpythonic/dispatch.py
index 3244bb8..253e21a 100644
--- a/unpythonic/dispatch.py
+++ b/unpythonic/dispatch.py
@@ -477,6 +477,8 @@ def _list_multimethods(dispatcher, self_or_cls=None):
                 base_raw_function, _ = getfunc(base_oop_method)
                 if isgeneric(base_raw_function):  # it's @generic or @typed
                     base_registry = getattr(base_raw_function, "_method_registry")
+                    if base_registry is dispatcher._method_registry:  # f itself is inherited from there
+                        continue
                     relevant_registries.append(reversed(base_registry))
 
     return list(chain.from_iterable(relevant_registries))
-- 
2.43.0


From db498ead3277086adabeb2de760421d2c324d4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:33 +0000
Subject: [PATCH 034/124] fix: curry and partial work for bound generic methods

---
 unpythonic/fun.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/unpythonic/fun.py b/unpythonic/fun.py
index 29aecc9..a48bc1a 100644
--- a/unpythonic/fun.py
+++ b/unpythonic/fun.py
@@ -19,7 +19,7 @@ __all__ = ["memoize", "curry", "iscurried",
 
 from collections import namedtuple
 from functools import wraps, partial as functools_partial
-from inspect import signature
+from inspect import ismethod, signature
 from threading import RLock
 from typing import get_type_hints
 
@@ -144,6 +144,9 @@ def partial(func, *args, **kwargs):
         collected_args = thecallable.args + collected_args
         collected_kwargs = {**thecallable.keywords, **collected_kwargs}
         thecallable = thecallable.func
+    if ismethod(thecallable) and isgeneric(thecallable):  # the dispatcher lives on the raw function
+        collected_args = (thecallable.__self__,) + collected_args
+        thecallable = thecallable.__func__
 
     if isgeneric(thecallable):  # multiple dispatch
         # For generic functions, at least one multimethod must match the partial signature
@@ -522,6 +525,9 @@ def _decide_curry_action(f, args, kwargs):
         collected_args = function.args + collected_args
         collected_kwargs = {**function.keywords, **collected_kwargs}
         function = function.func
+    if ismethod(function) and isgeneric(function):  # the dispatcher lives on the raw function
+        collected_args = (function.__self__,) + collected_args
+        function = function.__func__
 
     def _bind_arguments(thecallable):
         # For this check we look for a complete match, hence `_partial=False`.
-- 
2.43.0


From d7c525caffed49b6e9997ae5166b68394e38a898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:30 +0000
Subject: [PATCH 035/124] fix: isoftype recognizes tuples, strings and other
 sequences as Reversible

---
 unpythonic/typecheck.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/unpythonic/typecheck.py b/unpythonic/typecheck.py
index 572139c..70450b8 100644
--- a/unpythonic/typecheck.py
+++ b/unpythonic/typecheck.py
@@ -211,16 +211,11 @@ def isoftype(value, T):
               typing.Container,   # can't check element type
               typing.Collection,  # Sized Iterable Container; can't check element type
               typing.Hashable,
+              typing.Reversible,  # can't non-destructively check element type
               typing.Sized):
         if U is T:
             return isinstance(value, U)
 
-    if T is typing.Reversible:  # can't non-destructively check element type
-        # We don't isinstance(), because in Python 3.5, typing.Reversible used to be just a protocol,
-        # and "<class 'TypeError'>: Protocols cannot be used with isinstance()."
-        # https://docs.python.org/3/library/collections.abc.html#module-collections.abc
-        return hasattr(value, "__reversed__")
-
     # "Protocols cannot be used with isinstance()", so:
     for U in (typing.SupportsInt,
               typing.SupportsFloat,
-- 
2.43.0


From cf451e3dc310fc873f979118236f0132728de1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:29 +0000
Subject: [PATCH 036/124] fix: a view of a view follows length changes of the
 underlying sequence

---
 unpythonic/collections.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/unpythonic/collections.py b/unpythonic/collections.py
index 280f870..deffcf4 100644
--- a/unpythonic/collections.py
+++ b/unpythonic/collections.py
@@ -638,7 +638,10 @@ class roview(SequenceView, _StrReprEqMixin):
         return len(r)
 
     def _update_cache(self):
-        seql = len(self.seq)
+        seq = self.seq
+        while isinstance(seq, roview):  # a view may stay the same length even if the underlying data does not
+            seq = seq.seq
+        seql = len(seq)
         if seql != self._seql:
             self._seql = seql
             self._cache = self._range()
-- 
2.43.0


From f04ba00bb03e4c02f32e4c2287ae0207a1ee8322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:29 +0000
Subject: [PATCH 037/124] fix: assigning to a slice of a view from an
 overlapping view no longer garbles the data

---
 unpythonic/collections.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/unpythonic/collections.py b/unpythonic/collections.py
index deffcf4..4105713 100644
--- a/unpythonic/collections.py
+++ b/unpythonic/collections.py
@@ -8,7 +8,7 @@ __all__ = ["box", "ThreadLocalBox", "unbox", "Some", "Shim",
            "SequenceView", "MutableSequenceView"]  # ABCs
 
 from functools import wraps
-from itertools import repeat
+from itertools import islice, repeat
 from abc import abstractmethod
 from collections import abc
 from collections.abc import (Container, Iterable, Hashable, Sized,
@@ -726,7 +726,8 @@ class view(roview, MutableSequenceView):
                 vs = iter(v)
             except TypeError:  # scalar broadcast à la NumPy
                 vs = repeat(v)
-            for j, item in zip(r[k], vs):
+            rk = r[k]
+            for j, item in zip(rk, list(islice(vs, len(rk)))):  # read first, `v` may be a view into the same data
                 data[j] = item
         elif isinstance(k, tuple):
             raise TypeError(f"multidimensional subscripting not supported; got {repr(k)}")
-- 
2.43.0


From 48618b4e6f89e6c97e00e9b880ca93fe1b252caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:29 +0000
Subject: [PATCH 038/124] fix: slice bounds are interpreted as usual in Python
 in in_slice, index_in_slice, fup and fupdate

---
 unpythonic/collections.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/unpythonic/collections.py b/unpythonic/collections.py
index 4105713..46d571a 100644
--- a/unpythonic/collections.py
+++ b/unpythonic/collections.py
@@ -935,6 +935,9 @@ def _canonize_slice(s, length=None, wrap=None):  # convert negatives, inject def
     if step == 0:
         raise ValueError("slice step cannot be zero")  # message copied from range(5)[0:4:0]
 
+    if length is not None:
+        return s.indices(length)
+
     wrap = wrap or _make_negidx_converter(length)
 
     start = wrap(s.start)
-- 
2.43.0


From a1ff1d4d52d0e3ce93bc7dcab6458d3ed85e58a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:29 +0000
Subject: [PATCH 039/124] fix: fupdate raises IndexError also if a replacement
 iterator is too short

---
 unpythonic/collections.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/unpythonic/collections.py b/unpythonic/collections.py
index 46d571a..d8ec3f0 100644
--- a/unpythonic/collections.py
+++ b/unpythonic/collections.py
@@ -844,7 +844,10 @@ class ShadowedSequence(Sequence, _StrReprEqMixin):
                 if n_skip:
                     # NOTE: If the iterable is memoized, the items we drop here will enter the memo.
                     self._v_it = drop(n_skip, self._v_it)
-                return next(self._v_it)
+                try:
+                    return next(self._v_it)
+                except StopIteration:
+                    raise IndexError(f"Replacement iterable too short; attempted to access index {i}") from None
             else:
                 assert False
         return self.seq[k]  # not in slice
-- 
2.43.0


From d94aa37be13cecd461e9ca7a4140346018046676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:29 +0000
Subject: [PATCH 040/124] fix: islice with a negative start and a stop before
 it yields nothing instead of raising AssertionError

---
 unpythonic/slicing.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/unpythonic/slicing.py b/unpythonic/slicing.py
index 1188407..18f84ab 100644
--- a/unpythonic/slicing.py
+++ b/unpythonic/slicing.py
@@ -81,8 +81,7 @@ def islice(iterable):
                         cit = CountingIterator(iterable)
                         it = tuple(lastn(n, cit))  # force to actually count (note lastn stores only <= n items)
                         n_dropped = max(0, cit.count - n)  # max needed if start is past the start of iterable
-                        stop -= n_dropped
-                        assert stop >= 0
+                        stop = max(0, stop - n_dropped)  # max needed if stop is before start
                 elif stop and stop < 0:
                     it = butlastn(-stop, iterable)
                     stop = None
-- 
2.43.0


From 860955256e5cb74f8f4e441578299d97d98a870f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:42 +0000
Subject: [PATCH 041/124] fix: fupdate raises IndexError for an index just past
 the end of the target

---
 unpythonic/fup.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/unpythonic/fup.py b/unpythonic/fup.py
index d887610..8c25d64 100644
--- a/unpythonic/fup.py
+++ b/unpythonic/fup.py
@@ -110,12 +110,16 @@ def fupdate(target, indices=None, values=None, **bindings):
             ctor = cls._make if hasattr(cls, "_make") else cls  # namedtuple support
             gen = (x for x in seq)
             return ctor(gen)
+        def shadow(seq, index, value):
+            if isinstance(index, int) and not -len(seq) <= index < len(seq):
+                raise IndexError(f"index {index} out of range for a target of length {len(seq)}")
+            return ShadowedSequence(seq, index, value)
         if not isinstance(indices, (list, tuple)):
             # one index (or slice), value(s) pair only
-            return make_output(ShadowedSequence(target, indices, values))
+            return make_output(shadow(target, indices, values))
         seq = target
         for index, value in zip(indices, values):
-            seq = ShadowedSequence(seq, index, value)
+            seq = shadow(seq, index, value)
         return make_output(seq)
     if bindings:
         if isinstance(target, frozendict):
-- 
2.43.0


From 86cb19251424faf572ef8b119e652e09da5db5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:42 +0000
Subject: [PATCH 042/124] fix: repr and str of a view into a str or a range
 show its elements

---
 unpythonic/collections.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/unpythonic/collections.py b/unpythonic/collections.py
index d8ec3f0..ae2a87c 100644
--- a/unpythonic/collections.py
+++ b/unpythonic/collections.py
@@ -559,7 +559,9 @@ class MutableSequenceView(SequenceView):
 class _StrReprEqMixin:
     def _lowlevel_repr(self):  # pragma: no cover
         cls = type(getattrrec(self, "seq"))  # de-onionize
-        ctor = tuple if hasattr(cls, "_make") else cls  # slice of namedtuple -> tuple
+        if issubclass(cls, str):
+            return "".join(self)
+        ctor = tuple if hasattr(cls, "_make") or issubclass(cls, range) else cls  # slice of namedtuple -> tuple
         return ctor(x for x in self)
     def __str__(self):  # pragma: no cover
         return str(self._lowlevel_repr())
-- 
2.43.0


From 2e8bc352254f99974da507475580f582bef89d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:44 +0000
Subject: [PATCH 043/124] fix: mogrify and force leave containers alone when no
 element changed, so strict calls get their arguments unchanged

---
 unpythonic/collections.py | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/unpythonic/collections.py b/unpythonic/collections.py
index ae2a87c..f3b8649 100644
--- a/unpythonic/collections.py
+++ b/unpythonic/collections.py
@@ -80,8 +80,15 @@ def mogrify(func, container):
 
     Any **immutable** container encountered is transformed into a new copy,
     just like in ``map``.
+
+    A container in which ``func`` did not replace any atom is left as it is.
     """
+    n_replaced = 0  # how many atoms `func` has replaced by another object, so far
     def doit(x):
+        nonlocal n_replaced
+        n_before = n_replaced
+        def unchanged():  # no need to touch or rebuild a container if none of its atoms changed
+            return n_replaced == n_before
         if isinstance(x, Values):
             new_rets = doit(x.rets)
             new_kwrets = doit(x.kwrets)
@@ -89,6 +96,8 @@ def mogrify(func, container):
         # mutable containers
         elif isinstance(x, MutableSequence):
             y = [doit(elt) for elt in x]
+            if unchanged():
+                return x
             if hasattr(x, "clear"):
                 x.clear()  # list has this, but not guaranteed by MutableSequence
             else:  # pragma: no cover, no realistic `MutableSequence` that is missing `clear`?
@@ -102,6 +111,8 @@ def mogrify(func, container):
             return x
         elif isinstance(x, MutableSet):
             y = {doit(elt) for elt in x}
+            if unchanged():
+                return x
             x.clear()
             if hasattr(x, "update"):
                 x.update(y)  # set has this, but not guaranteed by MutableSet
@@ -113,6 +124,8 @@ def mogrify(func, container):
         # (This is important for the lazify macro.)
         elif isinstance(x, MutableMapping) and not isinstance(x, env):
             y = {k: doit(v) for k, v in x.items()}
+            if unchanged():
+                return x
             x.clear()
             x.update(y)
             return x
@@ -128,27 +141,35 @@ def mogrify(func, container):
             return Some(doit(x.get()))
         elif isinstance(x, SequenceView):  # our own cat food
             ctor = type(getattrrec(x, "seq"))  # de-onionize
-            return ctor(doit(elt) for elt in x)
+            y = [doit(elt) for elt in x]
+            return x if unchanged() else ctor(y)
         # dict_items and similar cannot be instantiated, and they support only iteration,
         # not in-place modification, so return a regular set
         # (this turns up in "with autocurry" blocks using somedict.items() as a function argument,
         #  due to the maybe_force_args() in curry)
         elif isinstance(x, MappingView):
-            return {doit(elt) for elt in x}
+            y = [doit(elt) for elt in x]
+            return x if unchanged() else set(y)
         # env and dyn provide the Mapping API, but shouldn't get the general Mapping treatment here.
         # (This is important for the autocurry and lazify macros.)
         elif isinstance(x, Mapping) and not isinstance(x, (env, _Dyn)):
             ctor = type(x)
-            return ctor({k: doit(v) for k, v in x.items()})
-        elif isinstance(x, Sequence) and not isinstance(x, (str, bytes, range)):
+            y = {k: doit(v) for k, v in x.items()}
+            return x if unchanged() else ctor(y)
+        elif isinstance(x, Sequence) and not isinstance(x, (str, bytes, range, memoryview)):
             # namedtuple support (nonstandard constructor for a Sequence!)
             cls = type(x)
             ctor = cls._make if hasattr(cls, "_make") else cls
-            return ctor(doit(elt) for elt in x)
+            y = [doit(elt) for elt in x]
+            return x if unchanged() else ctor(y)
         elif isinstance(x, Set):
             ctor = type(x)
-            return ctor({doit(elt) for elt in x})
-        return func(x)  # atom
+            y = {doit(elt) for elt in x}
+            return x if unchanged() else ctor(y)
+        new_x = func(x)  # atom
+        if new_x is not x:
+            n_replaced += 1
+        return new_x
     return doit(container)
 
 # -----------------------------------------------------------------------------
-- 
2.43.0


From 895fa5878407feb63d8de486d28a552830e07311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:44 +0000
Subject: [PATCH 044/124] fix: Shim uses its fallback also when the fallback
 object is falsy

---
 unpythonic/collections.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpythonic/collections.py b/unpythonic/collections.py
index f3b8649..f61555b 100644
--- a/unpythonic/collections.py
+++ b/unpythonic/collections.py
@@ -397,7 +397,7 @@ class Shim:
     def __getattr__(self, k):
         thing = unbox(self._shim_box)
         fallback = self._shim_fallback
-        if not fallback or hasattr(thing, k):
+        if fallback is None or hasattr(thing, k):
             return getattr(thing, k)
         # fallback and not hasattr(thing, k)
         otherthing = unbox(fallback) if isinstance(fallback, box) else fallback
-- 
2.43.0


From bb33bb362c0bac6ec62b73281348ed316b5317cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:44 +0000
Subject: [PATCH 045/124] fix: calling a subclass of frozendict without
 arguments makes an instance of that subclass

---
 unpythonic/collections.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpythonic/collections.py b/unpythonic/collections.py
index f61555b..29407c9 100644
--- a/unpythonic/collections.py
+++ b/unpythonic/collections.py
@@ -449,7 +449,7 @@ class frozendict:
     # Make the empty frozendict() a singleton, but allow invoking the constructor
     # multiple times, always returning the same instance.
     def __new__(cls, *ms, **bindings):
-        if not ms and not bindings:
+        if not ms and not bindings and cls is frozendict:
             global _the_empty_frozendict
             if _the_empty_frozendict is None:
                 _the_empty_frozendict = super().__new__(cls)
-- 
2.43.0


From a775d35825cadbdfc9fb9b96e177a36ba88ec85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:32 +0000
Subject: [PATCH 046/124] fix: a ShadowedSequence of a ShadowedSequence can be
 sliced

---
 unpythonic/collections.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpythonic/collections.py b/unpythonic/collections.py
index 29407c9..b0a00b0 100644
--- a/unpythonic/collections.py
+++ b/unpythonic/collections.py
@@ -825,7 +825,7 @@ class ShadowedSequence(Sequence, _StrReprEqMixin):
             return self.seq[k]
         n = len(self)
         if isinstance(k, slice):
-            cls = type(self.seq)
+            cls = type(getattrrec(self, "seq"))  # de-onionize
             ctor = tuple if hasattr(cls, "_make") else cls  # slice of namedtuple -> tuple
             return ctor(self._getone(j) for j in range(n)[k])
         elif isinstance(k, tuple):
-- 
2.43.0


From 813b7318842e5146b4c3a8c4127fa7d872e120ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:42 +0000
Subject: [PATCH 047/124] fix: the tree iterators of cons structures yield a
 leaf in the cdr after the subtree in the car

---
 unpythonic/llist.py | 35 +++++++++++++----------------------
 1 file changed, 13 insertions(+), 22 deletions(-)

diff --git a/unpythonic/llist.py b/unpythonic/llist.py
index a8a56d9..76051ce 100644
--- a/unpythonic/llist.py
+++ b/unpythonic/llist.py
@@ -150,17 +150,12 @@ class BinaryTreeIterator(ConsIterator):
         def walker(cell):  # imperative, no call stack overflow (we keep our own data stack instead)
             stack = [cell]
             while stack:
-                cell = stack.pop()
-                a, d = cell.car, cell.cdr
-                ac, dc = isinstance(a, cons), isinstance(d, cons)
-                if not ac:
-                    yield a
-                if not dc:
-                    yield d
-                if dc:
-                    stack.append(d)
-                if ac:
-                    stack.append(a)  # LIFO
+                x = stack.pop()
+                if isinstance(x, cons):
+                    stack.append(x.cdr)
+                    stack.append(x.car)  # LIFO
+                else:
+                    yield x
         super().__init__(root, walker)
 
 class JackOfAllTradesIterator(ConsIterator):
@@ -194,17 +189,13 @@ class JackOfAllTradesIterator(ConsIterator):
         def walker(cell):
             stack = [cell]
             while stack:
-                cell = stack.pop()
-                a, d = cell.car, cell.cdr
-                ac, dc = isinstance(a, cons), isinstance(d, cons)
-                if not ac:
-                    yield a
-                if not dc and d is not nil:
-                    yield d
-                if dc:
-                    stack.append(d)
-                if ac:
-                    stack.append(a)  # LIFO
+                x = stack.pop()
+                if isinstance(x, cons):
+                    if x.cdr is not nil:
+                        stack.append(x.cdr)
+                    stack.append(x.car)  # LIFO
+                else:
+                    yield x
         super().__init__(root, walker)
 
 class cons:
-- 
2.43.0


From cc55c2fb8f31fcbef381ebc5b9b49b78b5caecf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:42 +0000
Subject: [PATCH 048/124] fix: member works for the empty list, and is exported
 as documented

---
 unpythonic/llist.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/unpythonic/llist.py b/unpythonic/llist.py
index 76051ce..3a88108 100644
--- a/unpythonic/llist.py
+++ b/unpythonic/llist.py
@@ -23,7 +23,7 @@ _exports = ["cons", "nil",
             "caaar", "caadr", "cadar", "caddr", "cdaar", "cdadr", "cddar", "cdddr",
             "caaaar", "caaadr", "caadar", "caaddr", "cadaar", "cadadr", "caddar", "cadddr",
             "cdaaar", "cdaadr", "cdadar", "cdaddr", "cddaar", "cddadr", "cdddar", "cddddr",
-            "ll", "llist", "lreverse", "lappend", "lzip"]
+            "ll", "llist", "lreverse", "lappend", "member", "lzip"]
 #from itertools import product, repeat
 #_ads = lambda n: product(*repeat("ad", n))
 #_c2r = ["c{}{}r".format(*x) for x in _ads(2)]
@@ -371,6 +371,8 @@ def member(x, l):
     Returns:
         The matching cons cell (tail of l) if x was found; False if not.
     """
+    if l is nil:
+        return False
     for t in TailIterator(l):
         if t.car == x:
             return t
-- 
2.43.0


From 7f1d00a51935ea402af44c1193752482327ec243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:42 +0000
Subject: [PATCH 049/124] fix: llist of a partially consumed reversed linked
 list contains just the remaining items

---
 unpythonic/llist.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/unpythonic/llist.py b/unpythonic/llist.py
index 3a88108..4c20536 100644
--- a/unpythonic/llist.py
+++ b/unpythonic/llist.py
@@ -97,6 +97,10 @@ class LinkedListReverseIterator(LinkedListIterator):
     def __init__(self, head, _fullerror=True):
         self._data = lreverse(head)
         super().__init__(self._data, _fullerror)
+    def __next__(self):
+        x = super().__next__()
+        self._data = self._data.cdr  # `_data` always starts at the next item
+        return x
 
 class LinkedListOrCellIterator(ConsIterator):
     """Like LinkedListIterator, but allow also a single cons cell.
-- 
2.43.0


From e444b390f1f43bc94a49291751b78c78907d5cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:42 +0000
Subject: [PATCH 050/124] fix: the fields of a cons cell cannot be deleted

---
 unpythonic/llist.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/unpythonic/llist.py b/unpythonic/llist.py
index 4c20536..4b3de4f 100644
--- a/unpythonic/llist.py
+++ b/unpythonic/llist.py
@@ -215,6 +215,8 @@ class cons:
         if hasattr(self, "_immutable"):
             raise TypeError("'cons' object does not support item assignment")
         super().__setattr__(k, v)
+    def __delattr__(self, k):
+        raise TypeError("'cons' object does not support item deletion")
     def __iter__(self):
         """Return iterator with default iteration scheme: single cell or list."""
         return LinkedListOrCellIterator(self)
-- 
2.43.0


From d5442b86f3141fd8154d5e86cc3e9113c979e743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:42 +0000
Subject: [PATCH 051/124] fix: lispyrepr prints also nested linked lists in
 Lisp notation

---
 unpythonic/llist.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unpythonic/llist.py b/unpythonic/llist.py
index 4b3de4f..583ad97 100644
--- a/unpythonic/llist.py
+++ b/unpythonic/llist.py
@@ -238,10 +238,10 @@ class cons:
             return f"cons({result_str})"
     def lispyrepr(self):  # TODO: maybe rename or alias this to `__str__`?
         """Representation in Lisp-like dot notation."""
+        r = lambda obj: obj.lispyrepr() if hasattr(obj, "lispyrepr") else repr(obj)
         try:
-            result_list = [repr(x) for x in LinkedListIterator(self, _fullerror=False)]
+            result_list = [r(x) for x in LinkedListIterator(self, _fullerror=False)]
         except TypeError:
-            r = lambda obj: obj.lispyrepr() if hasattr(obj, "lispyrepr") else repr(obj)
             result_list = (r(self.car), ".", r(self.cdr))
         result_str = " ".join(result_list)
         return f"({result_str})"
-- 
2.43.0


From 9b6be1f3814e0abb9c4590e6aa8a8e2bac16629d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:42 +0000
Subject: [PATCH 052/124] fix: reversed works for the empty linked list

---
 unpythonic/llist.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/unpythonic/llist.py b/unpythonic/llist.py
index 583ad97..e76c74e 100644
--- a/unpythonic/llist.py
+++ b/unpythonic/llist.py
@@ -41,6 +41,8 @@ class Nil(Singleton):
         return self
     def __next__(self):
         raise StopIteration()
+    def __reversed__(self):
+        return self
     def __repr__(self):
         return "nil"
 nil = Nil()
-- 
2.43.0


From 80973a6fcf613709c2fbef4bdeb4eb4799f20028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:33 +0000
Subject: [PATCH 053/124] fix: unpickling a singleton gives the existing
 instance also with pickle protocols 0 and 1

---
 unpythonic/singleton.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/unpythonic/singleton.py b/unpythonic/singleton.py
index 8cf7426..9726319 100644
--- a/unpythonic/singleton.py
+++ b/unpythonic/singleton.py
@@ -187,6 +187,9 @@ class Singleton(metaclass=ThereCanBeOnlyOne):
                     instance = _instances[cls]
             return instance
 
+    def __reduce_ex__(self, protocol):  # the old pickle protocols 0 and 1 would bypass `__new__`
+        return super().__reduce_ex__(max(2, protocol))
+
 
 # TODO: This won't work with classes that need another custom metaclass,
 # TODO: because then there's no unique most specific metaclass.
-- 
2.43.0


From 4be1cdef5cb50c5181ebf2aa9edb8f6fb4d945ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:33 +0000
Subject: [PATCH 054/124] fix: unpickling a symbol gives the existing instance
 also with pickle protocols 0 and 1

---
 unpythonic/symbol.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/unpythonic/symbol.py b/unpythonic/symbol.py
index a9dccaa..6b37a32 100644
--- a/unpythonic/symbol.py
+++ b/unpythonic/symbol.py
@@ -91,6 +91,8 @@ class sym(Symbol):
     # a string is a string, whether the original was interned or not.
     def __getnewargs__(self):
         return (self.name,)
+    def __reduce_ex__(self, protocol):  # the old pickle protocols 0 and 1 would bypass `__new__`
+        return super().__reduce_ex__(max(2, protocol))
 
     def __str__(self):
         return self.name
@@ -130,6 +132,8 @@ class gsym(Symbol):
 
     def __getnewargs__(self):
         return (self.uid, self.label)
+    def __reduce_ex__(self, protocol):  # the old pickle protocols 0 and 1 would bypass `__new__`
+        return super().__reduce_ex__(max(2, protocol))
 
     def __str__(self):
         return f"gensym#{self.label}:{self.uid}"
-- 
2.43.0


From 9fe71c2ccc5ec4fb86eeeaa89bde1994bc79c622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:33 +0000
Subject: [PATCH 055/124] fix: str of a symbol whose name is not a string

---
 unpythonic/symbol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpythonic/symbol.py b/unpythonic/symbol.py
index 6b37a32..8fbbb97 100644
--- a/unpythonic/symbol.py
+++ b/unpythonic/symbol.py
@@ -95,7 +95,7 @@ class sym(Symbol):
         return super().__reduce_ex__(max(2, protocol))
 
     def __str__(self):
-        return self.name
+        return str(self.name)
     def __repr__(self):
         return f'sym("{self.name}")'
 
-- 
2.43.0


From af33798bff56df399acd26b7f824a992a4d679d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:33 +0000
Subject: [PATCH 056/124] fix: sym no longer raises KeyError if another thread
 drops the symbol while it is being looked up

---
 unpythonic/symbol.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/unpythonic/symbol.py b/unpythonic/symbol.py
index 8fbbb97..576886e 100644
--- a/unpythonic/symbol.py
+++ b/unpythonic/symbol.py
@@ -70,13 +70,12 @@ class sym(Symbol):
         except KeyError:
             # But we still need to be careful to avoid race conditions.
             with _symbols_update_lock:
-                if name not in _symbols:
+                # Get a strong reference first; the instance may vanish at any time if no one else has one.
+                instance = _symbols.get(name)  # Some other thread may have acquired the lock before us, and created the instance.
+                if instance is None:
                     # We were the first thread to acquire the lock.
                     # Make a strong reference to keep the new instance alive until construction is done.
                     instance = _symbols[name] = super().__new__(cls)
-                else:
-                    # Some other thread acquired the lock before us, and created the instance.
-                    instance = _symbols[name]
             return instance
 
     def __init__(self, name):
@@ -117,13 +116,12 @@ class gsym(Symbol):
             return _gensyms[uid]
         except KeyError:
             with _gensyms_update_lock:
-                if uid not in _gensyms:
+                # Provided that one of the `uuid` functions creates the
+                # `uid`, finding it here should only be possible when unpickling
+                # the same pickled gsym in several threads simultaneously.
+                instance = _gensyms.get(uid)
+                if instance is None:
                     instance = _gensyms[uid] = super().__new__(cls)
-                else:
-                    # Provided that one of the `uuid` functions creates the
-                    # `uid`, this case should only be possible when unpickling
-                    # the same pickled gsym in several threads simultaneously.
-                    instance = _gensyms[uid]
             return instance
 
     def __init__(self, uid, label):
-- 
2.43.0


From 91a8d6b6204133e714c038208fadce765eb10bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:33 +0000
Subject: [PATCH 057/124] fix: unpickling a singleton no longer raises KeyError
 if another thread drops the instance meanwhile

---
 unpythonic/singleton.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/unpythonic/singleton.py b/unpythonic/singleton.py
index 9726319..58f872d 100644
--- a/unpythonic/singleton.py
+++ b/unpythonic/singleton.py
@@ -178,13 +178,12 @@ class Singleton(metaclass=ThereCanBeOnlyOne):
         except KeyError:
             # Then be careful to avoid race conditions.
             with _instances_update_lock:
-                if cls not in _instances:
+                # Get a strong reference first; the instance may vanish at any time if no one else has one.
+                instance = _instances.get(cls)  # Some other thread may have acquired the lock before us, and created the instance.
+                if instance is None:
                     # We were the first thread to acquire the lock.
                     # Make a strong reference to keep the new instance alive until construction is done.
                     instance = _instances[cls] = super().__new__(cls)
-                else:
-                    # Some other thread acquired the lock before us, and created the instance.
-                    instance = _instances[cls]
             return instance
 
     def __reduce_ex__(self, protocol):  # the old pickle protocols 0 and 1 would bypass `__new__`
-- 
2.43.0


From 4027586ace7900cf3fe2f4dfe0c413331dcebe1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:00 +0000
Subject: [PATCH 058/124] fix: within no longer drops the last item of a finite
 input that does not converge

---
 unpythonic/it.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/unpythonic/it.py b/unpythonic/it.py
index b53caf4..4071763 100644
--- a/unpythonic/it.py
+++ b/unpythonic/it.py
@@ -785,11 +785,17 @@ def within(tol, iterable):
     (infinite output, or terminating the output early if a part of it looks
     like a converging sequence; think a local maximum of `cos(x)`).
     """
-    for a, b in window(2, iterable):
-        yield a
+    it = iter(iterable)
+    try:
+        a = next(it)
+    except StopIteration:
+        return
+    yield a
+    for b in it:
+        yield b
         if abs(a - b) <= tol:
-            yield b
             return
+        a = b
 
 def interleave(*iterables):
     """Interleave items from several iterables. Generator.
-- 
2.43.0


From aeed735e6b5bf1689731b2b4bc8afd717bff5970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:00 +0000
Subject: [PATCH 059/124] fix: interleave of no iterables is empty instead of
 looping forever

---
 unpythonic/it.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/unpythonic/it.py b/unpythonic/it.py
index 4071763..cec1c1e 100644
--- a/unpythonic/it.py
+++ b/unpythonic/it.py
@@ -809,6 +809,8 @@ def interleave(*iterables):
     class ShortestInputEnded(Exception):
         pass
     iters = [iter(it) for it in iterables]
+    if not iters:
+        return
     def roundrobin():
         for it in iters:
             try:
-- 
2.43.0


From b660292bba4b85dd1d25ceac4062cb06fbe7454a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:00 +0000
Subject: [PATCH 060/124] fix: negative islice index past the beginning no
 longer returns the first item

---
 unpythonic/slicing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unpythonic/slicing.py b/unpythonic/slicing.py
index 18f84ab..6f29c60 100644
--- a/unpythonic/slicing.py
+++ b/unpythonic/slicing.py
@@ -87,7 +87,8 @@ def islice(iterable):
                     stop = None
                 return islicef(it, start, stop, step)
             if k < 0:
-                return first(lastn(-k, iterable))
+                items = tuple(lastn(-k, iterable))
+                return items[0] if len(items) == -k else None
             return first(islicef(iterable, k, k + 1))
     return islice1()
 
-- 
2.43.0


From 751e748f314343ca07773e51c2a134a0680d9771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:20 +0000
Subject: [PATCH 061/124] fix: s accepts the final element of an alternating
 geometric sequence also when its logarithm is inexact

---
 unpythonic/mathseq.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unpythonic/mathseq.py b/unpythonic/mathseq.py
index dc35342..65808ae 100644
--- a/unpythonic/mathseq.py
+++ b/unpythonic/mathseq.py
@@ -346,14 +346,14 @@ def s(*spec):
             # elt = x0*(k**a) --> k**a = (elt/x0) --> a = logk(elt/x0)
             a = log(abs(elt / x0), abs(k))
             if is_almost_int(a) and a > 0:
-                if not almosteq(x0 * (k**a), elt):  # check parity of final term, could be an alternating sequence
+                if not almosteq(x0 * (k**round(a)), elt):  # check parity of final term, could be an alternating sequence
                     return False
                 return int(1 + round(a))
         else:  # seqtype == "power":
             # elt = x0**(k**a) --> k**a = logx0 elt --> a = logk (logx0 elt)
             a = log(log(abs(elt), abs(x0)), abs(k))
             if is_almost_int(a) and a > 0:
-                if not almosteq(x0**(k**a), elt):  # parity
+                if not almosteq(x0**(k**round(a)), elt):  # parity
                     return False
                 return int(1 + round(a))
         return False
-- 
2.43.0


From 48acaa0d2879846413ff36091714eca60bf6cd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:20 +0000
Subject: [PATCH 062/124] fix: s raises SyntaxError, not a math error, for a
 final element that has no logarithm

---
 unpythonic/mathseq.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/unpythonic/mathseq.py b/unpythonic/mathseq.py
index 65808ae..9015e86 100644
--- a/unpythonic/mathseq.py
+++ b/unpythonic/mathseq.py
@@ -344,6 +344,8 @@ def s(*spec):
                 return int(1 + round(a))  # fencepost
         elif seqtype == "geom":
             # elt = x0*(k**a) --> k**a = (elt/x0) --> a = logk(elt/x0)
+            if elt == 0 or abs(k) == 1:  # not in sequence, or number of terms cannot be determined
+                return False
             a = log(abs(elt / x0), abs(k))
             if is_almost_int(a) and a > 0:
                 if not almosteq(x0 * (k**round(a)), elt):  # check parity of final term, could be an alternating sequence
@@ -351,7 +353,9 @@ def s(*spec):
                 return int(1 + round(a))
         else:  # seqtype == "power":
             # elt = x0**(k**a) --> k**a = logx0 elt --> a = logk (logx0 elt)
-            a = log(log(abs(elt), abs(x0)), abs(k))
+            if elt == 0 or abs(elt) == 1 or abs(k) == 1:
+                return False
+            a = log(abs(log(abs(elt), abs(x0))), abs(k))
             if is_almost_int(a) and a > 0:
                 if not almosteq(x0**(k**round(a)), elt):  # parity
                     return False
-- 
2.43.0


From 7abd5f8f42bab62223c5af11a5272ec0bbe66c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:20 +0000
Subject: [PATCH 063/124] fix: s no longer accepts as a power sequence a
 specification the formula does not reproduce

---
 unpythonic/mathseq.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/unpythonic/mathseq.py b/unpythonic/mathseq.py
index 9015e86..eca055f 100644
--- a/unpythonic/mathseq.py
+++ b/unpythonic/mathseq.py
@@ -310,12 +310,17 @@ def s(*spec):
                         # becomes float
                         r = (r1 + r2) / 2
                     return ("geom", a0, r)
-            if abs(a0) != 1 and a1 != 0 and a2 != 0:
+            if a0 != 0 and abs(a0) != 1 and a1 != 0 and abs(a1) != 1 and a2 != 0:
                 p1 = log(abs(a1), abs(a0))
                 p2 = log(abs(a2), abs(a1))
                 if almosteq(p1, p2):  # a0, a0**p, (a0**p)**p, ...  [a0, **p]
                     p = (p1 + p2) / 2
-                    return ("power", a0, p)
+                    issymbolic = any(isinstance(x, _symExpr) for x in (a0, a1, a2))
+                    if not issymbolic and a0 < 0 and is_almost_int(p):
+                        p = float(round(p))  # a negative number to an inexact power would be complex
+                    # The logarithms lose the signs, so check that the formula reproduces the spec.
+                    if issymbolic or (almosteq(a0**p, a1) and almosteq(a0**(p**2), a2)):
+                        return ("power", a0, p)
             # Most unrecognized sequences trigger this case.
             raise SyntaxError(f"Specification did not match any supported formula: '{origspec}'")
         else:  # more elements are optional but must be consistent
-- 
2.43.0


From b9e2acf6bd4aa2fa0dd8b7f47ec53c67cb1c9455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:20 +0000
Subject: [PATCH 064/124] fix: s raises SyntaxError for a specification with
 several ellipses

---
 unpythonic/mathseq.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/unpythonic/mathseq.py b/unpythonic/mathseq.py
index eca055f..9167848 100644
--- a/unpythonic/mathseq.py
+++ b/unpythonic/mathseq.py
@@ -382,6 +382,8 @@ def s(*spec):
         if iscyclic(spec):
             raise SyntaxError("Expected final ... for cyclic sequence.")
         return imathify(x for x in spec)
+    elif sum(x is Ellipsis for x in spec) > 1:
+        raise SyntaxError(f"Expected only one '...'; got '{origspec}'")
     else:
         *spec, last = spec
         if last is Ellipsis:
-- 
2.43.0


From 309317cb38bd2e702b7aa65d0258126e7ae42b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:45 +0000
Subject: [PATCH 065/124] fix: let bindings may be named mode, and those of the
 let decorators also body and _envname

---
 unpythonic/let.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/unpythonic/let.py b/unpythonic/let.py
index 3b1a253..f298e0c 100644
--- a/unpythonic/let.py
+++ b/unpythonic/let.py
@@ -212,7 +212,7 @@ def bletrec(**bindings):
     This chains ``@dletrec`` and ``@call``."""
     return _blet("letrec", **bindings)
 
-def _let(mode, body, **bindings):
+def _let(mode, body, /, **bindings):
     assert mode in ("let", "letrec")
     # Important for Python 3.6+, which preserves ordering of kwargs (PEP 468):
     #
@@ -254,11 +254,11 @@ def _let(mode, body, **bindings):
 
 # decorator factory: almost as fun as macros?
 # _envname is for co-operation with the dlet macro.
-def _dlet(mode, _envname="env", **bindings):
+def _dlet(mode, _envname="env", /, **bindings):
     def deco(body):
         # evaluate env only once, when the function def runs
         # (to preserve state between calls to the decorated function)
-        env = _let(mode, body=None, **bindings)
+        env = _let(mode, None, **bindings)
         @wraps(body)
         def withenv(*args, **kwargs):
             kwargs_with_env = kwargs.copy()
@@ -267,7 +267,7 @@ def _dlet(mode, _envname="env", **bindings):
         return withenv
     return deco
 
-def _blet(mode, _envname="env", **bindings):
+def _blet(mode, _envname="env", /, **bindings):
     dlet_deco = _dlet(mode, _envname, **bindings)
     def deco(body):
         return call(dlet_deco(body))
-- 
2.43.0


From d7d548e20ccd165c1dbcd6960c1d941f787bd524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:45 +0000
Subject: [PATCH 066/124] fix: initialize an env only once, so that assignonce
 can be given initial bindings

---
 unpythonic/env.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/unpythonic/env.py b/unpythonic/env.py
index d5538e4..76203b4 100644
--- a/unpythonic/env.py
+++ b/unpythonic/env.py
@@ -57,14 +57,13 @@ class env:
 
     # For pickle support, since unpickling calls `__new__` but not `__init__`.
     # If `self._env` is not present, `__getattr__` will crash with an infinite loop. So create it as early as possible.
-    def __new__(cls, **kwargs):
+    def __new__(cls, /, **kwargs):
         instance = super().__new__(cls)
         instance._env = {}
         instance._finalized = False  # "let" sets this once env setup done
-        instance.__init__(**kwargs)
         return instance
 
-    def __init__(self, **bindings):
+    def __init__(self, /, **bindings):
         for name, value in bindings.items():
             setattr(self, name, value)
 
-- 
2.43.0


From 8f7a0e3b7ea0445cf9e53b1791718266e922248c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:45 +0000
Subject: [PATCH 067/124] fix: env.update and setdefault validate names like
 assignment does

---
 unpythonic/env.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/unpythonic/env.py b/unpythonic/env.py
index 76203b4..c8ea598 100644
--- a/unpythonic/env.py
+++ b/unpythonic/env.py
@@ -74,15 +74,18 @@ class env:
         # TODO: doesn't protect against client code writing to the _direct_write names.
         if name in self._direct_write:  # hook to allow creating internal variables directly in self
             return super().__setattr__(name, value)
+        self._validate_binding(name)
+#        value = self._wrap(name, value)  # for "e.x << value" rebind syntax.
+        self._env[name] = value  # make all other attrs else live inside _env
+
+    def _validate_binding(self, name):
         if name in self._reserved_names:
             raise AttributeError(f"cannot overwrite reserved name {repr(name)}; complete list: {self._reserved_names}")
         if self._finalized and name not in self:
             raise AttributeError(f"name {repr(name)} is not defined; adding new bindings to a finalized environment is not allowed")
         # Block invalid names in subscripting (which redirects here).
-        if not name.isidentifier():
+        if not (isinstance(name, str) and name.isidentifier()):
             raise ValueError(f"{repr(name)} is not a valid identifier")
-#        value = self._wrap(name, value)  # for "e.x << value" rebind syntax.
-        self._env[name] = value  # make all other attrs else live inside _env
 
     def __getattr__(self, name):
         # Block invalid names in subscripting (which redirects here).
@@ -146,15 +149,13 @@ class env:
         if mapping:
             if len(mapping) > 1:
                 raise ValueError(f"Expected at most one `mapping`, got {len(mapping)}.")
-            m = mapping[0]
-            if self._finalized and any(k not in self for k in m):
-                raise AttributeError("adding new bindings to a finalized environment is not allowed")
-        if self._finalized and any(k not in self for k in bindings):
-            raise AttributeError("adding new bindings to a finalized environment is not allowed")
-        return self._env.update(*mapping, **bindings)
+        new_bindings = dict(*mapping, **bindings)
+        for k in new_bindings:
+            self._validate_binding(k)
+        return self._env.update(new_bindings)
     def setdefault(self, k, *default):
-        if self._finalized and k not in self:
-            raise AttributeError(f"name {repr(k)} is not defined; adding new bindings to a finalized environment is not allowed")
+        if k not in self:
+            self._validate_binding(k)
         return self._env.setdefault(k, *default)
 
     # subscripting
-- 
2.43.0


From ea9088e79cd00de51255f2c334f856d5b8cdd89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:45 +0000
Subject: [PATCH 068/124] fix: assignonce.update no longer rebinds existing
 names

---
 unpythonic/assignonce.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/unpythonic/assignonce.py b/unpythonic/assignonce.py
index 0267df9..1c1f130 100644
--- a/unpythonic/assignonce.py
+++ b/unpythonic/assignonce.py
@@ -29,6 +29,15 @@ class assignonce(_envcls):
         else:
             raise AttributeError(f"name {repr(name)} is already defined")
 
+    def update(self, *mapping, **bindings):
+        """Like `env.update`, but each name must be new."""
+        if len(mapping) == 1:
+            mapping = (dict(mapping[0]),)
+        for name in dict(*mapping, **bindings):
+            if name in self:
+                raise AttributeError(f"name {repr(name)} is already defined")
+        return super().update(*mapping, **bindings)
+
     def set(self, name, value):
         """Rebind an existing name to a new value."""
         env = self._env
-- 
2.43.0


From a54d89e6317d0ef878746c9dc42036e6c53fb937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:55 +0000
Subject: [PATCH 069/124] fix: names of the env methods are reserved, as a
 binding by such a name could not be read back

---
 unpythonic/env.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/unpythonic/env.py b/unpythonic/env.py
index c8ea598..7514e19 100644
--- a/unpythonic/env.py
+++ b/unpythonic/env.py
@@ -51,7 +51,10 @@ class env:
     instance itself will remain alive due to Python's scoping rules.
     """
     # do not allow bindings that would break functionality.
-    _reserved_names = ("set", "clear", "finalize", "_env", "_finalized",
+    _reserved_names = ("set", "clear", "finalize",
+                       "items", "keys", "values", "get", "pop", "popitem", "update", "setdefault",
+                       "_set", "_validate_binding",
+                       "_env", "_finalized",
                        "_direct_write", "_reserved_names")
     _direct_write = ("_env", "_finalized")
 
-- 
2.43.0


From 9542523dd876f7760bff55185d411021d071e166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:12 +0000
Subject: [PATCH 070/124] fix: a pipe may end in an empty Values

---
 unpythonic/seq.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/unpythonic/seq.py b/unpythonic/seq.py
index 3c39318..f503ab7 100644
--- a/unpythonic/seq.py
+++ b/unpythonic/seq.py
@@ -343,7 +343,7 @@ def pipe(values0, *bodys):
             else:
                 xs = maybe_force_args(update, xs)
     if isinstance(xs, Values):
-        return xs if xs.kwrets or len(xs.rets) > 1 else xs[0]
+        return xs if xs.kwrets or len(xs.rets) != 1 else xs[0]
     return xs
 
 @passthrough_lazy_args
@@ -396,7 +396,7 @@ class piped:
         xs = self._xs
         assert isinstance(xs, Values)  # __init__ ensures this
         if f is exitpipe:
-            return xs if xs.kwrets or len(xs.rets) > 1 else xs[0]
+            return xs if xs.kwrets or len(xs.rets) != 1 else xs[0]
         cls = self.__class__
         newxs = maybe_force_args(f, *xs.rets, **xs.kwrets)
         if isinstance(newxs, Values):
@@ -464,7 +464,7 @@ class lazy_piped:
                 else:
                     vs = maybe_force_args(g, vs)
             if isinstance(vs, Values):
-                ret = vs if vs.kwrets or len(vs.rets) > 1 else vs[0]
+                ret = vs if vs.kwrets or len(vs.rets) != 1 else vs[0]
             else:
                 ret = vs
             # In `unpythonic`, return values are never implicitly lazy.
-- 
2.43.0


From 23d3c5088d74be4084680d6585cf2391bca13a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:54 +0000
Subject: [PATCH 071/124] fix: forall no longer swallows a TypeError raised by
 one of its lines

---
 unpythonic/amb.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/unpythonic/amb.py b/unpythonic/amb.py
index cf8d3f8..1d1bc42 100644
--- a/unpythonic/amb.py
+++ b/unpythonic/amb.py
@@ -212,9 +212,11 @@ def monadify(value, unpack=True):
         return value
     elif unpack:
         try:
-            return MonadicList.from_iterable(value)
+            it = iter(value)
         except TypeError:
-            pass  # fall through
+            pass  # not iterable, fall through
+        else:
+            return MonadicList.from_iterable(it)
     return MonadicList(value)  # unit(MonadicList, value)
 
 class MonadicList:  # TODO: This if anything is **the** place to use @typed.
@@ -321,10 +323,7 @@ class MonadicList:  # TODO: This if anything is **the** place to use @typed.
         Eager; the input iterable will be iterated over in its entirety
         to produce the list. If it is consumable, it will be consumed.
         """
-        try:
-            return cls(*iterable)
-        except TypeError:  # maybe a generator; try forcing it before giving up.
-            return cls(*tuple(iterable))
+        return cls(*iterable)
 
     def copy(self):
         """Return a copy of this MonadicList."""
-- 
2.43.0


From 01aac073568ee46b37ba925a04d54623b0e2152a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:54 +0000
Subject: [PATCH 072/124] fix: forall evaluates the lines after a failed insist
 or deny no more, and keeps each name to its own branch

---
 unpythonic/amb.py | 96 ++++++++++++-----------------------------------
 1 file changed, 24 insertions(+), 72 deletions(-)

diff --git a/unpythonic/amb.py b/unpythonic/amb.py
index 1d1bc42..15ff89c 100644
--- a/unpythonic/amb.py
+++ b/unpythonic/amb.py
@@ -110,93 +110,45 @@ def forall(*lines):
         - ``insist x`` = ``guard x``
         - ``deny x`` = ``guard (not x)``
     """
-    # Notation used by the monad implementation for the bind and sequence
-    # operators, with any relevant whitespace.
-    bind = " >> "
-    seq = ".then"
+    if not lines:
+        raise SyntaxError("forall: expected at least one line")
 
     class env:
-        def __init__(self):
-            self.names = set()
-        def assign(self, k, v):
-            self.names.add(k)
-            setattr(self, k, v)
-        # simulate lexical closure property for env attrs
-        #   - freevars: set of names that "fall in" from a surrounding lexical scope
-        def close_over(self, freevars):
-            names_to_clear = {k for k in self.names if k not in freevars}
-            for k in names_to_clear:
-                delattr(self, k)
-            self.names = freevars.copy()
-
-    # stuff used inside the eval
-    e = env()
-    def begin(*exprs):  # args eagerly evaluated by Python
-        # begin(e1, e2, ..., en):
-        #   perform side effects e1, e2, ..., e[n-1], return the value of en.
-        return exprs[-1]
-
-    allcode = ""
-    names = set()  # names seen so far (working line by line, so textually!)
-    bodys = []
-    begin_is_open = False
-    for j, item in enumerate(lines):
-        is_first = (j == 0)
-        is_last = (j == len(lines) - 1)
+        def __init__(self, bindings):
+            for k, v in bindings.items():
+                setattr(self, k, v)
 
+    items = []
+    for item in lines:
         if isinstance(item, Assignment):
             name, body = item
         else:
             name, body = None, item
         if name and not name.isidentifier():
             raise ValueError(f"name must be valid identifier, got {repr(name)}")
-        bodys.append(body)
-
-        freevars = names.copy()  # names from the surrounding scopes
-        if name:
-            names.add(name)
-
-        # on the last line, don't auto-unpack iterables,
-        # to allow easily returning a tuple from the computation
-        unpack_flag = "True" if not is_last else "False"
-
         if callable(body):
             try:
                 if not arity_includes(body, 1):
                     raise TypeError("Arity mismatch; callable body must allow arity 1, to take in the environment.")
             except UnknownArity:  # pragma: no cover
                 pass
-            code = f"monadify(bodys[{j}](e), {unpack_flag})"
-        else:  # doesn't need the environment
-            code = f"monadify(bodys[{j}], {unpack_flag})"
-
-        if begin_is_open:
-            code += ")"
-            begin_is_open = False
-
-        # monadic-bind or sequence to the next item, leaving only the appropriate
-        # names defined in the env (so that we get proper lexical scoping
-        # even though we use an imperative stateful object to implement it)
-        if not is_last:
-            if name:
-                code += f"{bind}(lambda {name}:\nbegin(e.close_over({freevars}), e.assign('{name}', {name}), "
-                begin_is_open = True
-            else:
-                if is_first:
-                    code += f"{bind}(lambda _:\nbegin(e.close_over(set()), "
-                    begin_is_open = True
-                else:
-                    code += f"{seq}(\n"
-
-        allcode += code
-    allcode += ")" * (len(lines) - 1)
-
-#    print(allcode)  # DEBUG
-
-    # The eval'd code doesn't close over the current lexical scope at the site
-    # of the eval call, but runs in its own initially blank environment,
-    # so provide the necessary names as its globals.
-    mlst = eval(allcode, {"e": e, "bodys": bodys, "begin": begin, "monadify": monadify})
+        items.append((name, body))
+
+    # Monadic-bind each line to the computation described by the rest of the lines.
+    #
+    # Each line gets a fresh env that has only the names bound by the lines above it,
+    # so that we get proper lexical scoping.
+    def run(j, bindings):
+        name, body = items[j]
+        is_last = (j == len(items) - 1)
+        value = body(env(bindings)) if callable(body) else body
+        # on the last line, don't auto-unpack iterables,
+        # to allow easily returning a tuple from the computation
+        mlst = monadify(value, unpack=not is_last)
+        if is_last:
+            return mlst
+        return mlst >> (lambda elt: run(j + 1, {**bindings, name: elt} if name else bindings))
+    mlst = run(0, {})
     return tuple(mlst)
 
 # --------------------------------------------------------------------------------
-- 
2.43.0


From 53b1258d7c5abeee0702666e3caa330adeb64349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:22 +0000
Subject: [PATCH 073/124] fix: fixtco forgets the calls of a tail call chain
 also when it ends in an exception

---
 unpythonic/fix.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/unpythonic/fix.py b/unpythonic/fix.py
index 92066ae..00b7bc5 100644
--- a/unpythonic/fix.py
+++ b/unpythonic/fix.py
@@ -224,7 +224,8 @@ def _fix(bottom=typing.NoReturn, memo=True, *, tco):
                     e.tco_stack.append(env(target=f, cleanup=set()))  # harmless if no TCO
                     return f_memo(*args, **kwargs)
                 finally:
-                    e.tco_stack.pop()
+                    t = e.tco_stack.pop()
+                    e.visited -= t.cleanup  # the TCO chain, if any, has ended (maybe with an exception)
                     e.visited.clear() if mrproper else e.visited.remove(me)
             else:  # cycle detected
                 return bottom(f_fix.__name__, *args, **kwargs)
@@ -259,8 +260,6 @@ def _fix(bottom=typing.NoReturn, memo=True, *, tco):
             if isinstance(v, _jump):
                 you = (v.target, tuplify_bindings(resolve_bindings(v.target, *v.args, **v.kwargs)))
                 if you in e.visited:  # cycle detected
-                    for target in t.cleanup:
-                        e.visited.remove(target)
                     v._claimed = True  # we have handled the jump, by terminating the infinite cycle.
                     return bottom(v.target.__name__, *args, **kwargs)
                 # Just like the f_fix loop adds `f` to `visited` before calling it,
@@ -269,9 +268,6 @@ def _fix(bottom=typing.NoReturn, memo=True, *, tco):
                 e.visited.add(you)
                 t.cleanup.add(you)
                 t.target, v.target = v.target, spy  # re-instate the spy
-            else:  # TCO chain ended
-                for target in t.cleanup:
-                    e.visited.remove(target)
             return v
 
         # Putting the memoizer on the outside, TCO call chains do not get
-- 
2.43.0


From b66bc5c4cb425e0b76614602b0bf4ca80a835b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:22 +0000
Subject: [PATCH 074/124] fix: fixtco passes to bottom the arguments of the
 offending call, not those of its caller

---
 unpythonic/fix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpythonic/fix.py b/unpythonic/fix.py
index 00b7bc5..032aa2d 100644
--- a/unpythonic/fix.py
+++ b/unpythonic/fix.py
@@ -261,7 +261,7 @@ def _fix(bottom=typing.NoReturn, memo=True, *, tco):
                 you = (v.target, tuplify_bindings(resolve_bindings(v.target, *v.args, **v.kwargs)))
                 if you in e.visited:  # cycle detected
                     v._claimed = True  # we have handled the jump, by terminating the infinite cycle.
-                    return bottom(v.target.__name__, *args, **kwargs)
+                    return bottom(v.target.__name__, *v.args, **v.kwargs)
                 # Just like the f_fix loop adds `f` to `visited` before calling it,
                 # we add the target to `visited` before we let the trampoline jump
                 # into it.
-- 
2.43.0


From 1461d0a673ff2d357cea80a451ae43f515408e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:08 +0000
Subject: [PATCH 075/124] fix: fixtco detects a tail call cycle back to its
 first call at that call

---
 unpythonic/fix.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unpythonic/fix.py b/unpythonic/fix.py
index 032aa2d..ca81555 100644
--- a/unpythonic/fix.py
+++ b/unpythonic/fix.py
@@ -216,7 +216,8 @@ def _fix(bottom=typing.NoReturn, memo=True, *, tco):
         @wraps(f)
         def f_fix(*args, **kwargs):
             e = _get_threadlocals()
-            me = (f_fix, tuplify_bindings(resolve_bindings(f, *args, **kwargs)))
+            # A jump to `f_fix` goes directly to `f`, so with TCO, that's what `spy` sees.
+            me = (f if tco else f_fix, tuplify_bindings(resolve_bindings(f, *args, **kwargs)))
             mrproper = not e.visited  # on outermost call, scrub visited clean at exit
             if me not in e.visited:
                 try:
-- 
2.43.0


From bde0bef776792e063e169c109bd0aeaccb951fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:14 +0000
Subject: [PATCH 076/124] fix: tryf lets an exception that matches no handler
 propagate

---
 unpythonic/excutil.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/unpythonic/excutil.py b/unpythonic/excutil.py
index fc9c6b2..da23ed7 100644
--- a/unpythonic/excutil.py
+++ b/unpythonic/excutil.py
@@ -139,6 +139,7 @@ def tryf(body, *handlers, elsef=None, finallyf=None):
                         return handler(exception)
                     else:
                         return handler()
+        raise  # no handler matched
     else:
         if elsef is not None:
             return elsef()
-- 
2.43.0


From 809447cb13ac307c59539be4d26b3c10d3682b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:14 +0000
Subject: [PATCH 077/124] fix: raisef no longer ignores a falsy cause

---
 unpythonic/excutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpythonic/excutil.py b/unpythonic/excutil.py
index da23ed7..1c43472 100644
--- a/unpythonic/excutil.py
+++ b/unpythonic/excutil.py
@@ -49,7 +49,7 @@ def raisef(exc, *, cause=None):
             and you would like to `raise ... from ...`, pass that other exception
             instance as `cause`. The default `None` performs a plain `raise ...`.
     """
-    if cause:
+    if cause is not None:
         raise exc from cause
     else:
         raise exc
-- 
2.43.0


From 159b3cd6057ee3336044b8408459113ef832846a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:14 +0000
Subject: [PATCH 078/124] fix: async_raise refuses a thread that has ended also
 if its ident has been recycled

---
 unpythonic/excutil.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/unpythonic/excutil.py b/unpythonic/excutil.py
index 1c43472..f39104c 100644
--- a/unpythonic/excutil.py
+++ b/unpythonic/excutil.py
@@ -301,8 +301,9 @@ def async_raise(thread_obj, exception):
         raise TypeError(f"Expected a thread object, got {type(thread_obj)} with value '{thread_obj}'")
 
     target_tid = thread_obj.ident
-    if target_tid not in {thread.ident for thread in threading.enumerate()}:
-        raise ValueError("Invalid thread object, cannot find its ident among currently active threads.")
+    # The OS recycles idents, so the ident of a thread that has ended may belong to another, active one.
+    if not any(thread is thread_obj for thread in threading.enumerate()):
+        raise ValueError("Invalid thread object, cannot find it among currently active threads.")
 
     affected_count = PyThreadState_SetAsyncExc(ctypes.c_long(target_tid), ctypes.py_object(exception))
     if affected_count == 0:
-- 
2.43.0


From 78eac5f94df89fc6da47a6eac5b961071f6db1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:14 +0000
Subject: [PATCH 079/124] fix: reraise can convert an exception to
 StopIteration

---
 unpythonic/excutil.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/unpythonic/excutil.py b/unpythonic/excutil.py
index f39104c..60d98a6 100644
--- a/unpythonic/excutil.py
+++ b/unpythonic/excutil.py
@@ -6,7 +6,7 @@ __all__ = ["raisef", "tryf",
            "async_raise",
            "reraise_in", "reraise"]
 
-from contextlib import contextmanager
+from contextlib import ContextDecorator
 import sys
 import threading
 from types import TracebackType
@@ -357,7 +357,6 @@ def reraise_in(body, mapping):
     except BaseException as libraryexc:
         _reraise_handler(mapping, libraryexc)
 
-@contextmanager
 def reraise(mapping):
     """Remap exception types. Context manager.
 
@@ -390,10 +389,19 @@ def reraise(mapping):
 
     See also `reraise_in` for an expression form.
     """
-    try:
-        yield
-    except BaseException as libraryexc:
-        _reraise_handler(mapping, libraryexc)
+    return _Reraise(mapping)
+
+# Not a `@contextmanager`, because a generator cannot raise `StopIteration` (PEP 479).
+class _Reraise(ContextDecorator):
+    def __init__(self, mapping):
+        self.mapping = mapping
+
+    def __enter__(self):
+        return None
+
+    def __exit__(self, exctype, exc, tb):
+        if exc is not None:
+            _reraise_handler(self.mapping, exc)
 
 def _reraise_handler(mapping, libraryexc):
     """Remap an exception instance to another exception type.
-- 
2.43.0


From 96ec4f9002e68056b1bbe6024fe1610e04f2e994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:33 +0000
Subject: [PATCH 080/124] fix: REPL server job control: fg always failed;
 results were keyed by a recyclable thread ident

---
 unpythonic/net/server.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/unpythonic/net/server.py b/unpythonic/net/server.py
index a62a3a0..234a4f5 100644
--- a/unpythonic/net/server.py
+++ b/unpythonic/net/server.py
@@ -245,14 +245,15 @@ def bg(thunk):
     """
     @namelambda(thunk.__name__)
     def worker():
-        _bg_results[thread.ident] = (_bg_running, None)
         try:
             result = thunk()
         except Exception as err:
-            _bg_results[thread.ident] = (_bg_fail, err)
+            _bg_results[thread] = (_bg_fail, err)
         else:
-            _bg_results[thread.ident] = (_bg_success, result)
+            _bg_results[thread] = (_bg_success, result)
     thread = threading.Thread(target=worker, name=thunk.__name__, daemon=True)
+    # Keyed by the thread object, because a `thread.ident` may be recycled after the thread exits.
+    _bg_results[thread] = (_bg_running, None)
     thread.start()
     return thread
 
@@ -268,15 +269,15 @@ def fg(thread):
       - returned normally: return the value.
       - raised an exception: raise that exception.
     """
-    if "ident" not in thread:
+    if not isinstance(thread, threading.Thread):
         raise TypeError(f"Expected a Thread object, got {type(thread)} with value {repr(thread)}.")
-    if thread.ident not in _bg_results:
+    if thread not in _bg_results:
         raise ValueError(f"No result for thread {repr(thread)}")
     # This pattern is very similar to that used by unpythonic.fun.memoize...
-    status, value = _bg_results[thread.ident]
+    status, value = _bg_results[thread]
     if status is _bg_running:
         return thread
-    _bg_results.pop(thread.ident)
+    _bg_results.pop(thread)
     if status is _bg_success:
         return value
     elif status is _bg_fail:
-- 
2.43.0


From 209687513f2fa6773b25b6034948e63d2a2f3e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:33 +0000
Subject: [PATCH 081/124] fix: REPL control server: answer an empty request
 instead of hanging up

---
 unpythonic/net/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpythonic/net/server.py b/unpythonic/net/server.py
index 234a4f5..66d4c20 100644
--- a/unpythonic/net/server.py
+++ b/unpythonic/net/server.py
@@ -346,7 +346,7 @@ class ControlSession(socketserver.BaseRequestHandler, ApplevelProtocolMixin):
                 # field may contain a short description about the failure.
                 # More information may be included in arbitrary other fields.
                 request = self._recv()
-                if not request:
+                if request is None:
                     server_print(f"Socket for {client_address_str} closed by client.")
                     raise ClientExit
 
-- 
2.43.0


From b609a4f1db14a880c051bc3b5e79dfb85e1b7ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:33 +0000
Subject: [PATCH 082/124] fix: REPL server: a failed start left replaced
 streams and a running server behind

---
 unpythonic/net/server.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/unpythonic/net/server.py b/unpythonic/net/server.py
index 66d4c20..4cbebe3 100644
--- a/unpythonic/net/server.py
+++ b/unpythonic/net/server.py
@@ -549,6 +549,17 @@ def start(locals, bind="127.0.0.1", repl_port=1337, control_port=8128, banner=No
     if _server_instance is not None:
         raise RuntimeError("The current process already has a running REPL server.")
 
+    # Claim the ports first, so that if one of them is not available, nothing has been changed yet.
+    #
+    # https://docs.python.org/3/library/socketserver.html#socketserver.BaseServer.server_address
+    # https://docs.python.org/3/library/socketserver.html#socketserver.BaseServer.RequestHandlerClass
+    server = ReuseAddrThreadingTCPServer((bind, repl_port), ConsoleSession)
+    try:
+        cserver = ReuseAddrThreadingTCPServer((bind, control_port), ControlSession)
+    except BaseException:
+        server.server_close()
+        raise
+
     _console_locals_namespace = locals
     for function in _repl_exports:  # Inject REPL utilities
         _console_locals_namespace[function.__name__] = function
@@ -590,9 +601,6 @@ def start(locals, bind="127.0.0.1", repl_port=1337, control_port=8128, banner=No
     sys.stdout = Shim(_threadlocal_stdout)
     sys.stderr = Shim(_threadlocal_stderr)
 
-    # https://docs.python.org/3/library/socketserver.html#socketserver.BaseServer.server_address
-    # https://docs.python.org/3/library/socketserver.html#socketserver.BaseServer.RequestHandlerClass
-    server = ReuseAddrThreadingTCPServer((bind, repl_port), ConsoleSession)
     server.daemon_threads = True  # Allow Python to exit even if there are REPL sessions alive.
     server_thread = threading.Thread(target=server.serve_forever, name="Unpythonic REPL server", daemon=True)
     server_thread.start()
@@ -600,7 +608,6 @@ def start(locals, bind="127.0.0.1", repl_port=1337, control_port=8128, banner=No
     # Control channel for remote tab completion and remote Ctrl+C requests.
     # Default port is 8128 because it's for *completing* things, and https://en.wikipedia.org/wiki/Perfect_number
     # This is the first one above 1024, and was already known to Nicomachus around 100 CE.
-    cserver = ReuseAddrThreadingTCPServer((bind, control_port), ControlSession)
     cserver.daemon_threads = True
     cserver_thread = threading.Thread(target=cserver.serve_forever, name="Unpythonic REPL control server", daemon=True)
     cserver_thread.start()
-- 
2.43.0


From 69a9399fe9c32d975fcd53d7ca7ec2c40f2d0e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:33 +0000
Subject: [PATCH 083/124] fix: REPL server: flush the session's output before
 closing its PTY

---
 unpythonic/net/server.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/unpythonic/net/server.py b/unpythonic/net/server.py
index 4cbebe3..fe0a83f 100644
--- a/unpythonic/net/server.py
+++ b/unpythonic/net/server.py
@@ -493,6 +493,7 @@ class ConsoleSession(socketserver.BaseRequestHandler):
                         pass
                     finally:
                         server_print(f"Closing PTY on {os.ttyname(adaptor.slave)} for {client_address_str}.")
+                        wfile.flush()  # send any remaining output while the PTY is still open
                         adaptor.stop()
                         server_print(f"Closing REPL session {self.session_id} for {client_address_str}.")
         except BaseException as err:  # yes, SystemExit and KeyboardInterrupt, too.
-- 
2.43.0


From 41bfac225f70bcad4e855b31341163e17c31fa4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:33 +0000
Subject: [PATCH 084/124] fix: PTYSocketProxy: forward the remaining output at
 stop; handle a broken pipe

---
 unpythonic/net/ptyproxy.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/unpythonic/net/ptyproxy.py b/unpythonic/net/ptyproxy.py
index 7e870ca..a8cf827 100644
--- a/unpythonic/net/ptyproxy.py
+++ b/unpythonic/net/ptyproxy.py
@@ -92,9 +92,19 @@ class PTYSocketProxy:
                                 self.on_socket_disconnect(self)
                                 return
                             os.write(self.master, request)
-                except ConnectionResetError:
+                except ConnectionError:
                     self.on_socket_disconnect(self)
                     return
+            # Stopped by our side. Forward any output that is still in the PTY.
+            mypoll.unregister(self.sock)
+            try:
+                while mypoll.poll(0):
+                    request = os.read(self.master, 4096)
+                    if len(request) == 0:
+                        break
+                    self.sock.send(request)
+            except OSError:  # the client is already gone
+                pass
 
         self._terminated = False
         self._thread = threading.Thread(target=forward_traffic, name=f"PTY on {os.ttyname(self.slave)}", daemon=True)
-- 
2.43.0


From 71354e3cb8f6be469915f4c4656ad11d8d4f0bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:58 +0000
Subject: [PATCH 085/124] fix: ulp was off by a factor of two just below powers
 of two

---
 unpythonic/numutil.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/unpythonic/numutil.py b/unpythonic/numutil.py
index e70ff29..914c15a 100644
--- a/unpythonic/numutil.py
+++ b/unpythonic/numutil.py
@@ -6,7 +6,7 @@ __all__ = ["almosteq", "ulp",
            "partition_int", "partition_int_triangular", "partition_int_custom"]
 
 from itertools import takewhile
-from math import floor, log2
+from math import frexp, isfinite, ldexp
 import sys
 
 from .it import iterate1, last, within, rev
@@ -75,10 +75,12 @@ def ulp(x):  # Unit in the Last Place
     See:
         https://en.wikipedia.org/wiki/Unit_in_the_last_place
     """
-    eps = sys.float_info.epsilon
-    # m_min = abs. value represented by a mantissa of 1.0, with the same exponent as x has
-    m_min = 2**floor(log2(abs(x)))
-    return m_min * eps
+    if not isfinite(x):
+        return abs(x)
+    info = sys.float_info
+    # We take the exponent from the representation of x; `floor(log2(abs(x)))` may round up to the next power of two.
+    _, exponent = frexp(x) if x else (0.0, info.min_exp)
+    return ldexp(1.0, max(exponent, info.min_exp) - info.mant_dig)
 
 
 def fixpoint(f, x0, tol=0):
-- 
2.43.0


From 969283daa75c59a5ba2c169ab022982e09c87d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:40 +0000
Subject: [PATCH 086/124] fix: do: a nested let or do may rebind a local name
 of the do, and contain local definitions of its own

---
 unpythonic/syntax/letdo.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/unpythonic/syntax/letdo.py b/unpythonic/syntax/letdo.py
index 5bda9cf..1cca566 100644
--- a/unpythonic/syntax/letdo.py
+++ b/unpythonic/syntax/letdo.py
@@ -40,7 +40,7 @@ from ..lispylet import _let as letf, _dlet as dletf, _blet as bletf
 from ..misc import namelambda
 from ..seq import do as dof
 
-from .letdoutil import (isdo, isenvassign, UnexpandedEnvAssignView,
+from .letdoutil import (isdo, islet, isenvassign, UnexpandedEnvAssignView,
                         UnexpandedLetView, canonize_bindings)
 from .nameutil import getname, is_unexpanded_expr_macro
 from .scopeanalyzer import scoped_transform
@@ -885,6 +885,16 @@ def _do(tree):
     check_stray_localdefs = partial(check_strays, islocaldef)
     check_stray_deletes = partial(check_strays, isdelete)
 
+    def expand_nested(tree):
+        class NestedLetDoExpander(ASTTransformer):
+            def transform(self, tree):
+                if is_captured_value(tree):
+                    return tree  # don't recurse!
+                elif islet(tree, expanded=False) or isdo(tree, expanded=False):
+                    return dyn._macro_expander.visit_recursively(tree)
+                return self.generic_visit(tree)
+        return NestedLetDoExpander().visit(tree)
+
     names = []
     lines = []
     for j, expr in enumerate(tree.elts, start=1):
@@ -898,6 +908,10 @@ def _do(tree):
             if any(x in names for x in newnames):
                 raise SyntaxError("local names must be unique in the same do")  # pragma: no cover
 
+        # Expand any nested let and do constructs first, so that the names they bind shadow ours.
+        # (A multiple-expression let body is an implicit do[], so it may contain a local[] of its own.)
+        expr = expand_nested(expr)
+
         # Before transforming any further, check that there are no local[] or delete[] further in, where
         # they don't belong. This allows the error message to show the *untransformed* source code for
         # the erroneous invocation. These checkers respect the boundaries of any nested do[].
-- 
2.43.0


From 8b269f11b07ba2c237ae2bcec187260dc6f25e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:08 +0000
Subject: [PATCH 087/124] fix: scope analyzer: the parameters of a nested
 function leaked to the rest of the surrounding function

---
 unpythonic/syntax/scopeanalyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpythonic/syntax/scopeanalyzer.py b/unpythonic/syntax/scopeanalyzer.py
index 27d7a8c..1d93ee5 100644
--- a/unpythonic/syntax/scopeanalyzer.py
+++ b/unpythonic/syntax/scopeanalyzer.py
@@ -133,7 +133,7 @@ def scoped_transform(tree, *, callback):
                 tree.args = self.visit(tree.args)
 
                 # The body sees the parameters and any new nonlocals
-                args += moreargs
+                args = args + moreargs  # make a new list, the old one is shared with the surrounding scope
                 nonlocals = newnonlocals
                 newbody = []
                 for stmt in tree.body:
-- 
2.43.0


From a3fab6660b8c37fe4316b1c89f596b98f3f5f384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:35 +0000
Subject: [PATCH 088/124] fix: scope analyzer: default values, annotations,
 base classes and the first iterable of a comprehension belong to the
 surrounding scope

---
 unpythonic/syntax/scopeanalyzer.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/unpythonic/syntax/scopeanalyzer.py b/unpythonic/syntax/scopeanalyzer.py
index 1d93ee5..7bd4c85 100644
--- a/unpythonic/syntax/scopeanalyzer.py
+++ b/unpythonic/syntax/scopeanalyzer.py
@@ -111,6 +111,13 @@ def scoped_transform(tree, *, callback):
                  further recursion into the child nodes.
     """
     class ScopedTransformer(ASTTransformer):
+        def _defaults_in_this_scope(self, arguments):
+            # Default values and type annotations are evaluated in the scope surrounding the function.
+            self.withstate([x for x in arguments.defaults + arguments.kw_defaults if x is not None])
+            params = (getattr(arguments, "posonlyargs", []) + arguments.args + arguments.kwonlyargs +
+                      [x for x in (arguments.vararg, arguments.kwarg) if x is not None])
+            self.withstate([x.annotation for x in params if x.annotation is not None])
+
         def transform(self, tree):
             args = self.state.args
             localvars = self.state.localvars
@@ -121,14 +128,23 @@ def scoped_transform(tree, *, callback):
                 tree = callback(tree, names_in_scope)
                 if tree:  # allow deletions by the custom transformer
                     self.generic_withstate(tree, args=(args + moreargs))
+                    # Some parts are evaluated in the surrounding scope
+                    if type(tree) is Lambda:
+                        self._defaults_in_this_scope(tree.args)
+                    elif type(tree) is ClassDef:
+                        self.withstate(tree.decorator_list + tree.bases + tree.keywords)
+                    else:  # comprehension
+                        self.withstate(tree.generators[0].iter)
                     return self.generic_visit(tree)
             elif type(tree) in (FunctionDef, AsyncFunctionDef):
                 # Decorator list is processed in the surrounding scope
                 tree.decorator_list = self.visit(tree.decorator_list)
+                if tree.returns is not None:
+                    tree.returns = self.visit(tree.returns)
 
                 moreargs, newnonlocals = get_lexical_variables(tree, collect_locals=False)
 
-                # The function parameters see each other (TODO: check if this is right)
+                self._defaults_in_this_scope(tree.args)
                 self.withstate(tree.args, args=(args + moreargs))
                 tree.args = self.visit(tree.args)
 
-- 
2.43.0


From fc90d4fcbf6333c5dce87539f757dd7a44c059c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:35 +0000
Subject: [PATCH 089/124] fix: scope analyzer: a nested function sees the
 nonlocal declarations of the surrounding function

---
 unpythonic/syntax/scopeanalyzer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/unpythonic/syntax/scopeanalyzer.py b/unpythonic/syntax/scopeanalyzer.py
index 7bd4c85..826feb5 100644
--- a/unpythonic/syntax/scopeanalyzer.py
+++ b/unpythonic/syntax/scopeanalyzer.py
@@ -150,7 +150,7 @@ def scoped_transform(tree, *, callback):
 
                 # The body sees the parameters and any new nonlocals
                 args = args + moreargs  # make a new list, the old one is shared with the surrounding scope
-                nonlocals = newnonlocals
+                nonlocals = nonlocals + newnonlocals
                 newbody = []
                 for stmt in tree.body:
                     self.withstate(stmt, args=args, localvars=localvars, nonlocals=nonlocals)
@@ -161,13 +161,13 @@ def scoped_transform(tree, *, callback):
                     # new local variables come into scope at the next statement (not yet on the RHS of the assignment).
                     # TODO: Nonsense, scoping is a purely lexical thing. Fix this.
                     newlocalvars = uniqify(get_names_in_store_context(stmt))
-                    newlocalvars = [x for x in newlocalvars if x not in nonlocals]
+                    newlocalvars = [x for x in newlocalvars if x not in newnonlocals]
                     if newlocalvars:
                         localvars = localvars + newlocalvars
                     # deletions of local vars also take effect from the next statement
                     deletedlocalvars = uniqify(get_names_in_del_context(stmt))
                     # ignore deletion of nonlocals (too dynamic for a static analysis to make sense)
-                    deletedlocalvars = [x for x in deletedlocalvars if x not in nonlocals]
+                    deletedlocalvars = [x for x in deletedlocalvars if x not in newnonlocals]
                     if deletedlocalvars:
                         localvars = [x for x in localvars if x not in deletedlocalvars]
                 tree.body[:] = newbody  # avoid changing the id()
-- 
2.43.0


From 8429006fb0a56836e66d9c159afb3bca642139aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:35 +0000
Subject: [PATCH 090/124] fix: scope analyzer: import of a dotted name binds
 the name of the top-level package

---
 unpythonic/syntax/scopeanalyzer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unpythonic/syntax/scopeanalyzer.py b/unpythonic/syntax/scopeanalyzer.py
index 826feb5..d84a793 100644
--- a/unpythonic/syntax/scopeanalyzer.py
+++ b/unpythonic/syntax/scopeanalyzer.py
@@ -358,7 +358,8 @@ def get_names_in_store_context(tree):
             #     self._collect_name_or_list(tree.target)
             elif type(tree) in (Import, ImportFrom):
                 for x in tree.names:
-                    self.collect(x.asname if x.asname is not None else x.name)
+                    # `import a.b.c` binds the name `a`
+                    self.collect(x.asname if x.asname is not None else x.name.split(".")[0])
             elif type(tree) in (Try, TryStar):  # Python 3.11+: `try`/`except*`
                 # https://docs.python.org/3/reference/compound_stmts.html#the-try-statement
                 #
-- 
2.43.0


From 78e1a289aac87505153b049556e3eb0fb3832082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:00 +0000
Subject: [PATCH 091/124] fix: do: expand the macros nested in a do-item
 outside-in

A let or do inside e.g. an aif inside a do was expanded before the aif was.
---
 unpythonic/syntax/letdo.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/unpythonic/syntax/letdo.py b/unpythonic/syntax/letdo.py
index 1cca566..2881ed3 100644
--- a/unpythonic/syntax/letdo.py
+++ b/unpythonic/syntax/letdo.py
@@ -26,7 +26,8 @@ from ast import (Name,
                  FunctionDef, Return,
                  AsyncFunctionDef,
                  arguments, arg,
-                 Load)
+                 Load,
+                 Subscript)
 import sys
 
 from mcpyrate.quotes import macros, q, u, n, a, t, h  # noqa: F401
@@ -886,12 +887,17 @@ def _do(tree):
     check_stray_deletes = partial(check_strays, isdelete)
 
     def expand_nested(tree):
+        from .ifexprs import aif, cond  # these have an implicit do; at the module top level this would be a circular import
+        isaif = partial(is_unexpanded_expr_macro, aif, dyn._macro_expander)
+        iscond = partial(is_unexpanded_expr_macro, cond, dyn._macro_expander)
         class NestedLetDoExpander(ASTTransformer):
             def transform(self, tree):
                 if is_captured_value(tree):
                     return tree  # don't recurse!
-                elif islet(tree, expanded=False) or isdo(tree, expanded=False):
+                elif islet(tree, expanded=False) or isdo(tree, expanded=False) or isaif(tree) or iscond(tree):
                     return dyn._macro_expander.visit_recursively(tree)
+                elif type(tree) is Subscript and dyn._macro_expander.isbound(getname(tree.value, accept_attr=False)):
+                    return tree  # don't recurse! Any other macro sees its argument unexpanded.
                 return self.generic_visit(tree)
         return NestedLetDoExpander().visit(tree)
 
-- 
2.43.0


From 6ac702319463a982a88d0049087b1ffd3c68c6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:00 +0000
Subject: [PATCH 092/124] fix: tco, continuations: in an `or` expression, the
 tail call could not see a variable named `it`

---
 unpythonic/syntax/tailtools.py | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/unpythonic/syntax/tailtools.py b/unpythonic/syntax/tailtools.py
index cb5f5e4..157f731 100644
--- a/unpythonic/syntax/tailtools.py
+++ b/unpythonic/syntax/tailtools.py
@@ -27,7 +27,7 @@ from mcpyrate.quotes import capture_as_macro, is_captured_value
 from mcpyrate.utils import NestingLevelTracker
 from mcpyrate.walkers import ASTTransformer, ASTVisitor
 
-from .ifexprs import aif, it
+from .letdo import let
 from .letdoutil import isdo, islet, ExpandedLetView, ExpandedDoView
 from .util import (isx, isec,
                    detect_callec, detect_lambda,
@@ -41,15 +41,8 @@ from ..funutil import Values
 from ..it import uniqify
 from ..tco import trampolined, jump
 
-# In `continuations`, we use `aif` and `it` as hygienically captured macros.
-# Note the difference between `aif[..., it, ...]` and `q[a[_our_aif][..., a[_our_it], ...]]`.
-#
-# If `it` is bound in the current expander, even *mentioning* it outside an `aif` is a syntax error, by design.
-#
-# When constructing a quasiquoted tree that invokes `aif[]`, we can splice in a hygienic reference to `it`
-# as `a[_our_it]` without even having the macro bound in the expander that expands *this* module.
-_our_aif = capture_as_macro(aif)
-_our_it = capture_as_macro(it)
+# In `tco` and `continuations`, we use `let` as a hygienically captured macro.
+_our_let = capture_as_macro(let)
 
 # --------------------------------------------------------------------------------
 # Macro interface
@@ -1625,10 +1618,14 @@ def _transform_retexpr(tree, known_ecs, call_cb=None, data_cb=None):
                 else:
                     op_of_others = tree.values[0]
                 if type(tree.op) is Or:
-                    # or(data1, ..., datan, tail) --> aif[any(others), it, tail]
-                    tree = q[a[_our_aif][a[op_of_others],
-                                         a[transform_data(_our_it)],
-                                         a[transform(tree.values[-1])]]]  # tail-call item
+                    # or(data1, ..., datan, tail) --> let[[x, any(others)] in (x if x else tail)]
+                    # where x is a gensym, to avoid capturing any name that appears in the tail-call item.
+                    name = gensym("others")
+                    bindings = q[(n[name], a[op_of_others])]
+                    body = q[a[transform_data(q[n[name]])]
+                             if n[name]
+                             else a[transform(tree.values[-1])]]  # tail-call item
+                    tree = q[a[_our_let][a[bindings]][a[body]]]
                 elif type(tree.op) is And:
                     # and(data1, ..., datan, tail) --> tail if all(others) else False
                     tree = q[a[transform(tree.values[-1])]
-- 
2.43.0


From ee8f70d4e15faf8c76e22a0a819bc2140261457e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:00 +0000
Subject: [PATCH 093/124] fix: autoreturn: a function or class definition in
 tail position inside an if, with or try

---
 unpythonic/syntax/tailtools.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/unpythonic/syntax/tailtools.py b/unpythonic/syntax/tailtools.py
index 157f731..059da35 100644
--- a/unpythonic/syntax/tailtools.py
+++ b/unpythonic/syntax/tailtools.py
@@ -668,31 +668,31 @@ def _autoreturn(block_body):
             if is_captured_value(tree):
                 return tree  # don't recurse!
             if type(tree) in (FunctionDef, AsyncFunctionDef):
-                newtail = TailStatementTransformer().visit(tree.body[-1])
-                if isinstance(newtail, list):  # replaced by more than one statement?
-                    tree.body = tree.body[:-1] + newtail
-                else:
-                    tree.body[-1] = newtail
+                transform_tail(tree.body)
             return self.generic_visit(tree)
 
+    def transform_tail(body):  # body: list of statements; transform its last item, in-place
+        newtail = TailStatementTransformer().visit(body[-1])
+        body[-1:] = newtail if isinstance(newtail, list) else [newtail]  # replaced by more than one statement?
+
     class TailStatementTransformer(ASTTransformer):
         def transform(self, tree):
             # TODO: For/AsyncFor/While?
             if type(tree) is If:
-                tree.body[-1] = self.visit(tree.body[-1])
+                transform_tail(tree.body)
                 if tree.orelse:
-                    tree.orelse[-1] = self.visit(tree.orelse[-1])
+                    transform_tail(tree.orelse)
             elif type(tree) in (With, AsyncWith):
-                tree.body[-1] = self.visit(tree.body[-1])
+                transform_tail(tree.body)
             elif type(tree) in (Try, TryStar):  # Python 3.11+: `try`/`except*`
                 # We don't care about finalbody; typically used for unwinding only.
                 if tree.orelse:  # tail position is in else clause if present
-                    tree.orelse[-1] = self.visit(tree.orelse[-1])
+                    transform_tail(tree.orelse)
                 else:  # tail position is in the body of the "try"
-                    tree.body[-1] = self.visit(tree.body[-1])
+                    transform_tail(tree.body)
                 # additionally, tail position is in each "except" handler
                 for handler in tree.handlers:
-                    handler.body[-1] = self.visit(handler.body[-1])
+                    transform_tail(handler.body)
             elif type(tree) in (FunctionDef, AsyncFunctionDef, ClassDef):  # v0.15.0+
                 # If the item in tail position is a named function definition
                 # or a class definition, it binds a name - that of the function/class.
-- 
2.43.0


From 2a57cd710f7d0bbeb2a0ec6869d9cc04fa60adbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:00 +0000
Subject: [PATCH 094/124] fix: tco: a return in a generator or in an async def
 makes no tail call

There is no trampoline to receive the jump, so the caller got the jump record itself.
---
 unpythonic/syntax/tailtools.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/unpythonic/syntax/tailtools.py b/unpythonic/syntax/tailtools.py
index 059da35..3827b60 100644
--- a/unpythonic/syntax/tailtools.py
+++ b/unpythonic/syntax/tailtools.py
@@ -15,7 +15,7 @@ from ast import (Lambda, FunctionDef, AsyncFunctionDef, ClassDef,
                  Call, Name, Starred, Constant,
                  BoolOp, And, Or,
                  With, AsyncWith, If, IfExp, Try, Assign, Return, Expr,
-                 Await,
+                 Await, Yield, YieldFrom,
                  copy_location)
 import sys
 
@@ -1488,7 +1488,11 @@ def _tco_transform_return(tree, *, known_ecs, transform_retexpr):
         def transform(self, tree):
             if is_captured_value(tree):
                 return tree  # don't recurse!
-            if type(tree) is Return:
+            if type(tree) in (FunctionDef, AsyncFunctionDef):
+                # In a generator or in an `async def`, the return value goes to the `StopIteration`,
+                # not to a trampoline, so in those a `return` does not make a tail call.
+                self.generic_withstate(tree, plain=(type(tree) is AsyncFunctionDef or _isgenerator(tree)))
+            elif type(tree) is Return and not self.state.plain:
                 non = q[None]
                 non = copy_location(non, tree)
                 value = tree.value or non  # return --> return None  (bare return has value=None in the AST)
@@ -1506,7 +1510,20 @@ def _tco_transform_return(tree, *, known_ecs, transform_retexpr):
                     raise SyntaxError("expected exactly one argument for escape continuation")  # pragma: no cover
                 tree.args[0] = transform_retexpr(tree.args[0], known_ecs)
             return self.generic_visit(tree)
-    return TcoReturnTransformer().visit(tree)
+    return TcoReturnTransformer(plain=False).visit(tree)
+
+def _isgenerator(tree):
+    """Return whether `tree`, a `FunctionDef`, defines a generator."""
+    class YieldCollector(ASTVisitor):
+        def examine(self, tree):
+            if is_captured_value(tree) or type(tree) in (FunctionDef, AsyncFunctionDef, ClassDef, Lambda):
+                return  # don't recurse!
+            if type(tree) in (Yield, YieldFrom):
+                self.collect(tree)
+            self.generic_visit(tree)
+    collector = YieldCollector()
+    collector.visit(tree.body)
+    return bool(collector.collected)
 
 # userlambdas: list of ids; the purpose is to avoid transforming lambdas implicitly added by macros (do, let).
 def _tco_transform_lambda(tree, *, preproc_cb, userlambdas, known_ecs, transform_retexpr):
-- 
2.43.0


From 7dd3f6f7ff4140911802a74c7a90a74d3a6ca244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:00 +0000
Subject: [PATCH 095/124] fix: tco: the trampoline goes inside staticmethod,
 classmethod, property

---
 unpythonic/syntax/tailtools.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/unpythonic/syntax/tailtools.py b/unpythonic/syntax/tailtools.py
index 3827b60..6bd3e13 100644
--- a/unpythonic/syntax/tailtools.py
+++ b/unpythonic/syntax/tailtools.py
@@ -29,7 +29,7 @@ from mcpyrate.walkers import ASTTransformer, ASTVisitor
 
 from .letdo import let
 from .letdoutil import isdo, islet, ExpandedLetView, ExpandedDoView
-from .util import (isx, isec,
+from .util import (getname, isx, isec,
                    detect_callec, detect_lambda,
                    has_tco, sort_lambda_decorators,
                    suggest_decorator_index,
@@ -1462,6 +1462,8 @@ def get_cc(*args, cc):
 
 # -----------------------------------------------------------------------------
 
+_descriptor_decorators = ("staticmethod", "classmethod", "property", "getter", "setter", "deleter", "cached_property")
+
 def _tco_transform_def(tree, *, preproc_cb):
     class TcoDefTransformer(ASTTransformer):
         def transform(self, tree):
@@ -1473,10 +1475,13 @@ def _tco_transform_def(tree, *, preproc_cb):
                 # Enable TCO if not TCO'd already.
                 if not has_tco(tree):
                     k = suggest_decorator_index("trampolined", tree.decorator_list)
-                    if k is not None:
-                        tree.decorator_list.insert(k, q[h[trampolined]])
-                    else:  # couldn't determine insert position; just plonk it at the start and hope for the best
-                        tree.decorator_list.insert(0, q[h[trampolined]])
+                    if k is None:  # couldn't determine insert position; just plonk it at the start and hope for the best
+                        k = 0
+                    # A descriptor (e.g. a `property`) is not a function, so the trampoline must go inside it.
+                    for j, decorator in enumerate(tree.decorator_list, start=1):
+                        if getname(decorator) in _descriptor_decorators:
+                            k = max(k, j)
+                    tree.decorator_list.insert(k, q[h[trampolined]])
             return self.generic_visit(tree)
     return TcoDefTransformer().visit(tree)
 
-- 
2.43.0


From 80024953d251b1b8e1741f1c9459c6c50d1e749a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:00 +0000
Subject: [PATCH 096/124] fix: continuations: call_cc[None] ran the
 continuation of the surrounding function twice

---
 unpythonic/syntax/tailtools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unpythonic/syntax/tailtools.py b/unpythonic/syntax/tailtools.py
index 6bd3e13..7fb2cf1 100644
--- a/unpythonic/syntax/tailtools.py
+++ b/unpythonic/syntax/tailtools.py
@@ -1080,7 +1080,8 @@ def _continuations(block_body):  # here be dragons.
             if tree:
                 tree.keywords = [keyword(arg="cc", value=q[n[contname]])] + tree.keywords
             else:  # no call means proceed to cont directly, with args set to None
-                tree = q[n[contname](*([None] * u[len(targets)]), cc=n["cc"])]
+                # (its `cc` must be left at the default; our `cc` is already its `_pcc`)
+                tree = q[n[contname](*([None] * u[len(targets)]))]
             return tree
         thecall = prepare_call(thecall)
         if condition:
-- 
2.43.0


From 1ceaba7642bcd9bf2d6fb8252759a8c908771bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:57 +0000
Subject: [PATCH 097/124] fix: continuations: keep the whole captured tail of
 the computation

In a function with several call_cc[], the second continuation forgot the continuation of the
function (the _pcc of the first one); and a composed continuation could not be used as a _pcc,
nor called by the user (it returned a jump record).
---
 unpythonic/syntax/tailtools.py | 56 +++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 25 deletions(-)

diff --git a/unpythonic/syntax/tailtools.py b/unpythonic/syntax/tailtools.py
index 7fb2cf1..6694e56 100644
--- a/unpythonic/syntax/tailtools.py
+++ b/unpythonic/syntax/tailtools.py
@@ -753,31 +753,38 @@ def _tco(block_body):
 #
 def chain_conts(cc1, cc2, with_star=False):  # cc1=_pcc, cc2=cc
     """Internal function, used in code generated by the continuations macro."""
+    if cc1 is None:
+        # Beside a small optimization, it is important to preserve
+        # "identity" as "identity", so that the call_cc logic that
+        # defines the continuation functions will detect it and
+        # know when to set _pcc (and importantly, when not to).
+        composed = cc2
+    elif cc2 is identity:
+        composed = cc1
+    else:
+        # The composed continuation may itself be called with a `cc` (e.g. when it is used as a `_pcc`);
+        # then that runs last. Also the user code may call it, hence `@trampolined`.
+        @trampolined
+        def composed(*rets, cc=identity, **kwrets):
+            return jump(cc1, *rets, cc=chain_conts(cc2, cc, with_star=True), **kwrets)
+
     if with_star:  # to be chainable from a tail call, accept a multiple-values arglist
-        if cc1 is not None:
-            def cc(*rets, **kwrets):
-                return jump(cc1, cc=cc2, *rets, **kwrets)
-        else:
-            # Beside a small optimization, it is important to preserve
-            # "identity" as "identity", so that the call_cc logic that
-            # defines the continuation functions will detect it and
-            # know when to set _pcc (and importantly, when not to).
-            cc = cc2
-    else:  # for inert data value returns (this produces the multiple-values arglist)
-        if cc1 is not None:
-            def cc(return_value):
-                if isinstance(return_value, Values):
-                    return jump(cc1, cc=cc2, *return_value.rets, **return_value.kwrets)
-                else:
-                    return jump(cc1, return_value, cc=cc2)
+        return composed
+    def cc(return_value):  # for inert data value returns (this produces the multiple-values arglist)
+        if isinstance(return_value, Values):
+            return jump(composed, *return_value.rets, **return_value.kwrets)
         else:
-            def cc(return_value):
-                if isinstance(return_value, Values):
-                    return jump(cc2, *return_value.rets, **return_value.kwrets)
-                else:
-                    return jump(cc2, return_value)
+            return jump(composed, return_value)
     return cc
 
+def capture_pcc(pcc, cc):
+    """Internal function, used in code generated by the continuations macro.
+
+    Return the value of `_pcc` for a continuation captured in a function that has the given `_pcc` and `cc`.
+    """
+    cc = chain_conts(pcc, cc, with_star=True)
+    return cc if cc is not identity else None
+
 
 _continuations_level = NestingLevelTracker()  # for checking validity of call_cc[]
 
@@ -1099,10 +1106,9 @@ def _continuations(block_body):  # here be dragons.
         # TODO: needs to be modified, too.
         #
         FDef = type(owner) if owner else FunctionDef  # use same type (regular/async) as parent function
-        non = q[None]
-        maybe_capture = IfExp(test=q[n["cc"] is not h[identity]],
-                              body=q[n["cc"]],
-                              orelse=non)
+        # The continuation of the use site consists of its `_pcc` (if the use site is inside a function,
+        # and is itself part of a continuation), and its `cc`.
+        maybe_capture = q[h[capture_pcc](a[q[n["_pcc"]] if owner else q[None]], n["cc"])]
         contarguments = arguments(args=[arg(arg=x) for x in targets],
                                   kwonlyargs=[arg(arg="cc"), arg(arg="_pcc")],
                                   vararg=(arg(arg=starget) if starget else None),
-- 
2.43.0


From aa3fd11589acfd129257eaf43ca0cc9343da967c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:47 +0000
Subject: [PATCH 098/124] fix: lazify: force promises in default values of
 formal parameters

---
 unpythonic/syntax/lazify.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/unpythonic/syntax/lazify.py b/unpythonic/syntax/lazify.py
index af2207b..d3ef3c5 100644
--- a/unpythonic/syntax/lazify.py
+++ b/unpythonic/syntax/lazify.py
@@ -642,6 +642,18 @@ def _lazify(body):
                     # else forcing_mode == "off"
                 return tree
 
+            # Default values of formal parameters are evaluated at function definition time (so no lazification),
+            # except that simple references are left alone, like in the arguments of a call.
+            def transform_defaults(args):
+                def transform_default(tree):
+                    if tree is None:  # kwonly parameter without a default value
+                        return tree
+                    isref = type(tree) in (Name, Attribute, Subscript)
+                    self.withstate(tree, forcing_mode=("off" if isref else "full"))
+                    return self.visit(tree)
+                args.defaults = [transform_default(x) for x in args.defaults]
+                args.kw_defaults = [transform_default(x) for x in args.kw_defaults]
+
             # Hygienic captures must be treated separately:
             if is_captured_value(tree):
                 if forcing_mode in ("full", "flat"):
@@ -659,6 +671,7 @@ def _lazify(body):
                 else:
                     # mark this definition as lazy, and insert the interface wrapper
                     # to allow also strict code to call this function
+                    transform_defaults(tree.args)
                     if type(tree) is Lambda:
                         lam = tree
                         tree = q[h[passthrough_lazy_args](a[tree])]
-- 
2.43.0


From 4d235b2ea32582bc989e06dadc69ff1b43d5c4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:24 +0000
Subject: [PATCH 099/124] fix: lazify: force the target of an augmented
 assignment

---
 unpythonic/lazyutil.py      | 17 +++++++++++++++++
 unpythonic/syntax/lazify.py | 18 +++++++++++++++---
 2 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/unpythonic/lazyutil.py b/unpythonic/lazyutil.py
index 7058798..7e43e64 100644
--- a/unpythonic/lazyutil.py
+++ b/unpythonic/lazyutil.py
@@ -123,6 +123,23 @@ def maybe_force_args(f, *thunks, **kwthunks):
         return f(*thunks, **kwthunks)
     return f(*force(thunks), **force(kwthunks))
 
+class ForcingView:
+    """Internal. View of an object as a target of an augmented assignment inside a ``with lazify`` block.
+
+    Reading an item or an attribute forces it, if it is a promise. Writes go to the object.
+    """
+    __slots__ = ("_target",)
+    def __init__(self, target):
+        object.__setattr__(self, "_target", target)
+    def __getitem__(self, k):
+        return force1(object.__getattribute__(self, "_target")[k])
+    def __setitem__(self, k, v):
+        object.__getattribute__(self, "_target")[k] = v
+    def __getattribute__(self, name):
+        return force1(getattr(object.__getattribute__(self, "_target"), name))
+    def __setattr__(self, name, v):
+        setattr(object.__getattribute__(self, "_target"), name, v)
+
 @register_decorator(priority=95)
 def passthrough_lazy_args(f):
     """Mark a function for passthrough of lazy args.
diff --git a/unpythonic/syntax/lazify.py b/unpythonic/syntax/lazify.py
index d3ef3c5..827a45f 100644
--- a/unpythonic/syntax/lazify.py
+++ b/unpythonic/syntax/lazify.py
@@ -4,10 +4,10 @@
 __all__ = ["lazy", "lazyrec", "lazify"]
 
 from ast import (Lambda, FunctionDef, AsyncFunctionDef, Call, Name, Attribute,
-                 Starred, keyword, List, Tuple, Dict, Set, Subscript, Load)
+                 Starred, keyword, List, Tuple, Dict, Set, Subscript, AugAssign, Load)
 from functools import partial
 
-from mcpyrate.quotes import macros, q, u, a, h  # noqa: F401
+from mcpyrate.quotes import macros, q, u, n, a, h  # noqa: F401
 
 from mcpyrate.astcompat import TypeAlias
 from mcpyrate.astfixers import fix_ctx
@@ -19,7 +19,7 @@ from .util import (suggest_decorator_index, sort_lambda_decorators, detect_lambd
                    isx, getname, is_decorator)
 from .letdoutil import islet, isdo, ExpandedLetView
 from .nameutil import is_unexpanded_expr_macro
-from ..lazyutil import Lazy, passthrough_lazy_args, force, force1, maybe_force_args
+from ..lazyutil import Lazy, passthrough_lazy_args, force, force1, maybe_force_args, ForcingView
 from ..dynassign import dyn
 
 # -----------------------------------------------------------------------------
@@ -661,6 +661,18 @@ def _lazify(body):
                 # else forcing_mode == "off"
                 return tree
 
+            # Augmented assignment reads the current value of its target, although the target is in a Store context.
+            elif type(tree) is AugAssign:
+                if type(tree.target) is Name:
+                    name = tree.target.id
+                    with q as forcetarget:
+                        n[name] = h[force1](n[name])
+                    tree.value = self.visit(tree.value)
+                    return forcetarget + [tree]
+                tree = self.generic_visit(tree)
+                tree.target.value = q[h[ForcingView](a[tree.target.value])]
+                return tree
+
             # Python 3.12+: leave `type` statements alone (lazifying a type declaration makes no sense)
             elif type(tree) is TypeAlias:
                 return tree
-- 
2.43.0


From 4b916f649c8086e70615edfefbe8408d51e2f5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:04 +0000
Subject: [PATCH 100/124] fix: lazify: starred items in a container literal in
 an argument

---
 unpythonic/syntax/lazify.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/unpythonic/syntax/lazify.py b/unpythonic/syntax/lazify.py
index 827a45f..6550817 100644
--- a/unpythonic/syntax/lazify.py
+++ b/unpythonic/syntax/lazify.py
@@ -513,6 +513,9 @@ def _lazyrec(tree):
     def transform(tree):
         if type(tree) in (Tuple, List, Set):
             tree.elts = [rec(x) for x in tree.elts]
+        elif type(tree) is Starred:  # `[*xs, ...]`: must remain unpackable
+            if _is_literal_container(tree.value, maps_only=False):
+                tree.value = rec(tree.value)
         elif type(tree) is Dict:
             tree.values = [rec(x) for x in tree.values]
         elif type(tree) is Call and any(isx(tree.func, ctor) for ctor in _ctorcalls_all):
-- 
2.43.0


From 58a831c31bc8e94c3a5e63332baf826c0736a97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:04 +0000
Subject: [PATCH 101/124] fix: lazify: f(*args), f(**kwargs) where args, kwargs
 is a promise

---
 unpythonic/syntax/lazify.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unpythonic/syntax/lazify.py b/unpythonic/syntax/lazify.py
index 6550817..d3a6346 100644
--- a/unpythonic/syntax/lazify.py
+++ b/unpythonic/syntax/lazify.py
@@ -725,8 +725,9 @@ def _lazify(body):
                     return tree
 
                 def transform_starred(tree, dstarred=False):
+                    # a reference must be forced just enough to be able to unpack it
                     isref = type(tree) in (Name, Attribute, Subscript)
-                    self.withstate(tree, forcing_mode=("off" if isref else "full"))
+                    self.withstate(tree, forcing_mode=("flat" if isref else "full"))
                     tree = self.visit(tree)
                     # lazify items if we have a literal container
                     # we must avoid lazifying any other exprs, since a Lazy cannot be unpacked.
-- 
2.43.0


From 95465a37fb08818f873ea95226fc931eb7addb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:04 +0000
Subject: [PATCH 102/124] fix: lazify: calls with an argument named f

---
 unpythonic/lazyutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpythonic/lazyutil.py b/unpythonic/lazyutil.py
index 7e43e64..f6d16f3 100644
--- a/unpythonic/lazyutil.py
+++ b/unpythonic/lazyutil.py
@@ -110,7 +110,7 @@ def islazy(f):
     # special-case "_let" for lazify/curry combo when let[] expressions are present
     return hasattr(f, "_passthrough_lazy_args") or (hasattr(f, "__name__") and f.__name__ == "_let")
 
-def maybe_force_args(f, *thunks, **kwthunks):
+def maybe_force_args(f, /, *thunks, **kwthunks):
     """Internal. Helps calling strict functions from inside a ``with lazify`` block.
 
     If `not islazy(f)`, forces the given args and kwargs, and then calls `f` with them.
-- 
2.43.0


From 7fa5f2f6d3c0401e288e13165befe2f4e3029b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:04 +0000
Subject: [PATCH 103/124] fix: lazify: super()

---
 unpythonic/syntax/lazify.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/unpythonic/syntax/lazify.py b/unpythonic/syntax/lazify.py
index d3a6346..7d21735 100644
--- a/unpythonic/syntax/lazify.py
+++ b/unpythonic/syntax/lazify.py
@@ -760,6 +760,7 @@ def _lazify(body):
                 #   - `Lazy` takes a lambda, constructs a `Lazy` object; if we're calling `Lazy`,
                 #     the expression is already lazy.
                 #   - `_autoref_resolve` does the name lookup in `with autoref` blocks.
+                #   - `super` (in its zero-argument form) must be called directly from the method.
                 #
                 # Don't lazify in calls to return-value utilities, because return values
                 # are never implicitly lazy in `unpythonic`.
@@ -769,6 +770,7 @@ def _lazify(body):
                       any(isx(tree.func, s) for s in _ctorcalls_all) or
                       isx(tree.func, _expanded_lazy_name) or
                       isx(tree.func, "_autoref_resolve") or
+                      isx(tree.func, "super") or
                       isx(tree.func, "Values") or
                       (type(tree.func) is Call and isx(tree.func.func, "chain_conts"))):
                     # Here we know the operator (.func) to be one of specific names;
-- 
2.43.0


From e77c6b1aa3557a59fd1a3569a77838f714b05dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:02 +0000
Subject: [PATCH 104/124] fix: lazify: trampoline of a nested lazy function

---
 unpythonic/tco.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/unpythonic/tco.py b/unpythonic/tco.py
index b4f3dfd..7b22c72 100644
--- a/unpythonic/tco.py
+++ b/unpythonic/tco.py
@@ -247,7 +247,9 @@ def trampolined(function):
     to perform optimized tail calls. (*Optimized* in the sense of not
     increasing the call stack depth, not for speed.)
     """
-    if not dyn._build_lazy_trampoline:
+    # A lazy function needs it also when it is defined inside another lazy function, which may be called
+    # after the `with lazify` block has exited.
+    if not (dyn._build_lazy_trampoline or islazy(function)):
         # building a trampoline for regular strict code
         @wraps(function)
         def trampoline(*args, **kwargs):
-- 
2.43.0


From 03ea4df3ccd6ae61b6fab94cd320ebb7028753f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:08 +0000
Subject: [PATCH 105/124] fix: lazify: explicit lazy[] argument in an autocurry
 block became a promise of a promise

---
 unpythonic/syntax/autocurry.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/unpythonic/syntax/autocurry.py b/unpythonic/syntax/autocurry.py
index 0124c3b..45aa9fe 100644
--- a/unpythonic/syntax/autocurry.py
+++ b/unpythonic/syntax/autocurry.py
@@ -106,6 +106,13 @@ def _autocurry(block_body):
                     tree.args = self.visit(tree.args)
                     tree.keywords = self.visit(tree.keywords)
                     return tree
+                #   - `Lazy(lambda: ...)` comes from `lazy[]`, which `with lazify` must be able to see.
+                elif (isx(tree.func, "Lazy") and len(tree.args) == 1 and
+                        type(tree.args[0]) is Lambda):
+                    thunk = tree.args[0]
+                    self.withstate(thunk.body, hascurry=False)
+                    thunk.body = self.visit(thunk.body)
+                    return tree
                 else:  # general case
                     if has_curry(tree):  # detect decorated lambda with manual curry
                         # the lambda inside the curry(...) is the next Lambda node we will descend into.
-- 
2.43.0


From 88f0e03d6b598ad1b71fcd07426d3ba587811aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:12 +0000
Subject: [PATCH 106/124] fix: flip, rotate of a curried or trampolined
 function

---
 unpythonic/fun.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/unpythonic/fun.py b/unpythonic/fun.py
index a48bc1a..2fc7c00 100644
--- a/unpythonic/fun.py
+++ b/unpythonic/fun.py
@@ -607,6 +607,16 @@ def _decide_curry_action(f, args, kwargs):
 
 # --------------------------------------------------------------------------------
 
+def _drop_copied_marks(f):
+    """Drop the marks of a curried or trampolined function that `@wraps` copied from the function `f` wraps.
+
+    For wrappers that reorder the arguments: they need all arguments at once, so they are not
+    curried; and a tail call (see `unpythonic.tco`) must not bypass them.
+    """
+    for mark in ("_is_curried_function", "_entrypoint"):
+        f.__dict__.pop(mark, None)
+    return f
+
 def flip(f):
     """Decorator: flip (reverse) the positional arguments of f."""
     @wraps(f)
@@ -614,7 +624,7 @@ def flip(f):
         return maybe_force_args(f, *reversed(args), **kwargs)
     if islazy(f):
         flipped = passthrough_lazy_args(flipped)
-    return flipped
+    return _drop_copied_marks(flipped)
 
 def rotate(k):
     """Decorator (factory): cycle positional arg slots of f to the right by k places.
@@ -644,7 +654,7 @@ def rotate(k):
             return maybe_force_args(f, *rargs, **kwargs)
         if islazy(f):
             rotated = passthrough_lazy_args(rotated)
-        return rotated
+        return _drop_copied_marks(rotated)
     return rotate_k
 
 # --------------------------------------------------------------------------------
-- 
2.43.0


From 6f9a9229a9b18345dc447040363a493310fc27f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:57 +0000
Subject: [PATCH 107/124] fix: curry, partial, apply, call: named argument with
 the name of their own parameter

---
 unpythonic/fun.py     | 8 ++++----
 unpythonic/funutil.py | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/unpythonic/fun.py b/unpythonic/fun.py
index 2fc7c00..04da771 100644
--- a/unpythonic/fun.py
+++ b/unpythonic/fun.py
@@ -107,7 +107,7 @@ def memoize(f):
 # latest application winning. We must resist the temptation to override that behavior here,
 # because there are other places in the stdlib, particularly `inspect._signature_get_partial`
 # (as of Python 3.8), that expect the standard semantics.
-def partial(func, *args, **kwargs):
+def partial(func, /, *args, **kwargs):
     """Type-checking `functools.partial`.
 
     This is a wrapper that type-checks the arguments against the type annotations
@@ -199,7 +199,7 @@ def iscurried(f):
 
 @register_decorator(priority=8)
 @passthrough_lazy_args
-def curry(f, *args, _curry_force_call=False, _curry_allow_uninspectable=False, **kwargs):
+def curry(f, /, *args, _curry_force_call=False, _curry_allow_uninspectable=False, **kwargs):
     """Decorator: curry the function f.
 
     Essentially, the resulting function automatically chains partial application
@@ -479,7 +479,7 @@ def _curry_with_extras(curried, extra_args, extra_kwargs):
     return curried_with_extras
 
 @passthrough_lazy_args
-def _currycall(f, *args, **kwargs):
+def _currycall(f, /, *args, **kwargs):
     """Co-operate with unpythonic.syntax.autocurry.
 
     In a ``with autocurry`` block, we need to call `f` also when ``f()`` has
@@ -660,7 +660,7 @@ def rotate(k):
 # --------------------------------------------------------------------------------
 
 @passthrough_lazy_args
-def apply(f, arg0, *more, **kwargs):
+def apply(f, arg0, /, *more, **kwargs):
     """Scheme/Racket-like apply.
 
     Not really needed since Python has *, but included for completeness.
diff --git a/unpythonic/funutil.py b/unpythonic/funutil.py
index 68519e8..3665a4e 100644
--- a/unpythonic/funutil.py
+++ b/unpythonic/funutil.py
@@ -25,7 +25,7 @@ def _init_module():  # called by unpythonic.__init__ when otherwise done
 # pass arguments and then call f from a decorator position.
 @register_decorator(priority=80)
 @passthrough_lazy_args
-def call(f, *args, **kwargs):
+def call(f, /, *args, **kwargs):
     """Call the function f.
 
     **When used as a decorator**:
-- 
2.43.0


From ba87f772849c67efdae42bfab5ca7c69f3317683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:57 +0000
Subject: [PATCH 108/124] fix: autocurry: super()

---
 unpythonic/syntax/autocurry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/unpythonic/syntax/autocurry.py b/unpythonic/syntax/autocurry.py
index 45aa9fe..64ed675 100644
--- a/unpythonic/syntax/autocurry.py
+++ b/unpythonic/syntax/autocurry.py
@@ -96,11 +96,13 @@ def _autocurry(block_body):
                 # and allows other macros (particularly `lazify`) to be able to see the original calls.
                 # (It also generates cleaner expanded output.)
                 #   - `Values(...)` accepts any args and kwargs, so currying it does not make sense.
+                #   - `super()` (in its zero-argument form) must be called directly from the method.
                 #   - `(chain_conts(cc1, cc2))(...)` handles a return value in `with continuations`.
                 #     This has the effect that in `with continuations`, the tail-calls to continuation
                 #     functions won't be curried, but perhaps that's ok. This allows the Pytkell dialect's
                 #     `with lazify, autocurry` combo to work with an inner `with continuations`.
                 if (isx(tree.func, "Values") or
+                        (isx(tree.func, "super") and not tree.args and not tree.keywords) or
                         (type(tree.func) is Call and isx(tree.func.func, "chain_conts"))):
                     # However, *do* auto-curry in the positional and named args of the call.
                     tree.args = self.visit(tree.args)
-- 
2.43.0


From 3d80b8dff8eefb850412a03bdceeae42b23f7398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:57 +0000
Subject: [PATCH 109/124] fix: prefix: empty tuple

---
 unpythonic/syntax/prefix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpythonic/syntax/prefix.py b/unpythonic/syntax/prefix.py
index 671358f..78bbe35 100644
--- a/unpythonic/syntax/prefix.py
+++ b/unpythonic/syntax/prefix.py
@@ -210,7 +210,7 @@ def _prefix(block_body):
 
             # general case
             # macro-created nodes might not have a ctx, but we run outside in.
-            if not (type(tree) is Tuple and type(tree.ctx) is Load):
+            if not (type(tree) is Tuple and type(tree.ctx) is Load and tree.elts):  # `()` has no operator
                 return self.generic_visit(tree)
             op, *data = tree.elts
             quotelevel = self.state.quotelevel
-- 
2.43.0


From 32c83a47d8cb009f1124f57c44b2d794391769ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:40 +0000
Subject: [PATCH 110/124] fix: prefix: let whose body is a subscript or
 attribute

---
 unpythonic/syntax/letdoutil.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unpythonic/syntax/letdoutil.py b/unpythonic/syntax/letdoutil.py
index d286d0e..5b26920 100644
--- a/unpythonic/syntax/letdoutil.py
+++ b/unpythonic/syntax/letdoutil.py
@@ -29,7 +29,8 @@ def _set_subscript_slice(tree, newslice):  # newslice: AST
     assert type(tree) is Subscript
     if sys.version_info >= (3, 9, 0):  # Python 3.9+: the Index wrapper is gone.
         tree.slice = newslice
-    tree.slice.value = newslice
+    else:
+        tree.slice.value = newslice
 def _canonize_macroargs_node(macroargs):
     # We do this like `mcpyrate.expander.destructure_candidate` does,
     # except that we also destructure a list.
-- 
2.43.0


From 13e8f6e825566e29a1c4172ad1280d507ca1c0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:50 +0000
Subject: [PATCH 111/124] fix: autocurry: lambdas inside a manually curried
 lambda, default values of a lambda

---
 unpythonic/syntax/autocurry.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/unpythonic/syntax/autocurry.py b/unpythonic/syntax/autocurry.py
index 64ed675..3b8292a 100644
--- a/unpythonic/syntax/autocurry.py
+++ b/unpythonic/syntax/autocurry.py
@@ -138,9 +138,13 @@ def _autocurry(block_body):
                     thelambda = tree
                     tree = q[h[curryf](a[thelambda])]  # plonk it as innermost, we'll sort them later
                     # don't recurse on the lambda we just moved, but recurse inside it.
+                    self.withstate(thelambda.args, hascurry=False)  # default values
+                    thelambda.args = self.visit(thelambda.args)
                     self.withstate(thelambda.body, hascurry=False)
                     thelambda.body = self.visit(thelambda.body)
                     return tree
+                # The manual curry is for this lambda only, not for any lambdas inside it.
+                self.generic_withstate(tree, hascurry=False)
 
             return self.generic_visit(tree)
 
-- 
2.43.0


From f4e4b80d4e4f29c314990ddb97657347dc45bc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:34 +0000
Subject: [PATCH 112/124] fix: let_syntax, abbrev: arguments of a template that
 mention its formal parameters or itself

---
 unpythonic/syntax/letsyntax.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/unpythonic/syntax/letsyntax.py b/unpythonic/syntax/letsyntax.py
index 1a52807..4f2fe9f 100644
--- a/unpythonic/syntax/letsyntax.py
+++ b/unpythonic/syntax/letsyntax.py
@@ -16,14 +16,14 @@
 
 __all__ = ["let_syntax", "abbrev", "expr", "block"]
 
-from mcpyrate.quotes import macros, q, a  # noqa: F401
+from mcpyrate.quotes import macros, q, a, n  # noqa: F401
 
 from ast import Name, Call, Subscript, Tuple, Starred, Expr, With
 from copy import deepcopy
 from functools import partial
 import sys
 
-from mcpyrate import parametricmacro
+from mcpyrate import gensym, parametricmacro
 from mcpyrate.quotes import is_captured_value
 from mcpyrate.utils import rename
 from mcpyrate.walkers import ASTTransformer, ASTVisitor
@@ -401,7 +401,7 @@ def _analyze_lhs(tree):
         raise SyntaxError("expected a name (e.g. x) or a template (e.g. f(x, ...)) on the LHS")  # pragma: no cover
     return name, args
 
-def _substitute_barename(name, value, tree, mode):
+def _substitute_barename(name, value, tree, mode, dorename=True):
     def isthisname(tree):
         return type(tree) is Name and tree.id == name
     def splice(tree):
@@ -428,7 +428,7 @@ def _substitute_barename(name, value, tree, mode):
 
     # If the new value is also bare name, perform the substitution (now as a string)
     # also in the name part of def and similar, to support human intuition of "renaming".
-    if type(value) is Name:
+    if type(value) is Name and dorename:
         postproc = partial(rename, name, value.id)
     else:
         postproc = lambda x: x
@@ -460,9 +460,14 @@ def _substitute_templates(templates, tree):
                 raise SyntaxError(f"let_syntax template '{name}' expected {len(formalparams)} arguments, got {len(theargs)}")  # pragma: no cover
             # make a fresh deep copy of the RHS to avoid destroying the template.
             tree = deepcopy(value)  # expand the f itself in f[x, ...] or f(x, ...)
-            for k, v in zip(formalparams, theargs):  # expand the x, ... in the expanded form of f
+            # Expand the x, ... in the expanded form of f. All formal parameters are substituted simultaneously,
+            # via temporary names, because an argument may contain a name that is also a formal parameter.
+            temporaries = [gensym(k) for k in formalparams]
+            for k, tmp, v in zip(formalparams, temporaries, theargs):
+                tree = _substitute_barename(k, q[n[tmp]], tree, "expr", dorename=(type(v) is Name))
+            for tmp, v in zip(temporaries, theargs):
                 # can't put statements in a Subscript or in a Call, so always treat args as expressions.
-                tree = _substitute_barename(k, v, tree, "expr")
+                tree = _substitute_barename(tmp, v, tree, "expr")
             return tree
         def splice(tree):
             class Splicer(ASTTransformer):
@@ -477,8 +482,8 @@ def _substitute_templates(templates, tree):
                     elif isthisfunc(tree):
                         if mode == "block":
                             raise SyntaxError(f"cannot substitute block '{name}' into expression position")  # pragma: no cover
-                        tree = subst(tree)
-                        return self.generic_visit(tree)
+                        # The arguments may contain more invocations of this template.
+                        return subst(self.generic_visit(tree))
                     return self.generic_visit(tree)
             return Splicer().visit(tree)
         tree = splice(tree)
-- 
2.43.0


From 580a812281b2c3556672204db006736a74214d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:23 +0000
Subject: [PATCH 113/124] fix: let_syntax, abbrev: templates in the haskelly
 let-in and let-where syntaxes

---
 unpythonic/syntax/letdo.py     |  2 +-
 unpythonic/syntax/letdoutil.py | 16 ++++++++++------
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/unpythonic/syntax/letdo.py b/unpythonic/syntax/letdo.py
index 2881ed3..18af9e3 100644
--- a/unpythonic/syntax/letdo.py
+++ b/unpythonic/syntax/letdo.py
@@ -81,7 +81,7 @@ def _destructure_and_apply_let(tree, args, macro_expander, let_transformer, lets
             bs = canonize_bindings(args, letsyntax_mode=letsyntax_mode)
             return let_transformer(bindings=bs, body=tree)
         # haskelly syntax, let[[...] in ...], let[..., where[...]]
-        view = UnexpandedLetView(tree)  # note "tree" here is only the part inside the brackets
+        view = UnexpandedLetView(tree, letsyntax_mode=letsyntax_mode)  # note "tree" here is only the part inside the brackets
         return let_transformer(bindings=view.bindings, body=view.body)
 
 # --------------------------------------------------------------------------------
diff --git a/unpythonic/syntax/letdoutil.py b/unpythonic/syntax/letdoutil.py
index 5b26920..c3d3a8d 100644
--- a/unpythonic/syntax/letdoutil.py
+++ b/unpythonic/syntax/letdoutil.py
@@ -459,8 +459,11 @@ class UnexpandedLetView:
         If ``tree`` is just the bracketed part of a haskelly let, then ``mode`` is
         ``None``, because the mode information is contained in the surrounding
         subscript form (expr macro invocation) and hence not accessible from here.
+
+        In that case, use ``letsyntax_mode=True`` to tell that the ``tree`` comes from
+        a ``let_syntax`` or ``abbrev``, where the bindings may contain template definitions.
     """
-    def __init__(self, tree):
+    def __init__(self, tree, letsyntax_mode=False):
         data = islet(tree, expanded=False)
         self._has_subscript_container = True
         if not data:
@@ -476,6 +479,7 @@ class UnexpandedLetView:
             self._has_subscript_container = False
         self._tree = tree
         self._type, self.mode = data
+        self._letsyntax_mode = letsyntax_mode or self.mode in ("let_syntax", "abbrev")
         if self._type not in ("decorator", "lispy_expr", "in_expr", "where_expr"):
             raise NotImplementedError(f"unknown unexpanded let form type '{self._type}'")  # pragma: no cover, this just catches the internal error if we add new forms but forget to add them here.
 
@@ -499,20 +503,20 @@ class UnexpandedLetView:
                 thetree = self._tree.value
 
             if type(thetree) is Call:  # parenthesis syntax for macro arguments  TODO: Python 3.9+: remove once we bump minimum Python to 3.9
-                return canonize_bindings(thetree.args)
+                return canonize_bindings(thetree.args, letsyntax_mode=self._letsyntax_mode)
             # Subscript
             theargs = _get_subscript_slice(thetree)
-            return canonize_bindings(_canonize_macroargs_node(theargs))
+            return canonize_bindings(_canonize_macroargs_node(theargs), letsyntax_mode=self._letsyntax_mode)
         else:  # haskelly let, `let[[...] in ...]`, `let[..., where[...]]`
             theexpr = self._theexpr_ref()  # `[...] in ...`, `..., where[...]`
             if t == "in_expr":
-                return canonize_bindings(_canonize_macroargs_node(theexpr.left))
+                return canonize_bindings(_canonize_macroargs_node(theexpr.left), letsyntax_mode=self._letsyntax_mode)
             elif t == "where_expr":
                 thewhere = theexpr.elts[1]
                 if type(thewhere) is Call:
-                    return canonize_bindings(thewhere.args)
+                    return canonize_bindings(thewhere.args, letsyntax_mode=self._letsyntax_mode)
                 else:  # Subscript
-                    return canonize_bindings(_canonize_macroargs_node(_get_subscript_slice(thewhere)))
+                    return canonize_bindings(_canonize_macroargs_node(_get_subscript_slice(thewhere)), letsyntax_mode=self._letsyntax_mode)
             assert False
     def _setbindings(self, newbindings):
         t = self._type
-- 
2.43.0


From 4a155d51acf98b489a7984b826a22737ea52b910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:23 +0000
Subject: [PATCH 114/124] fix: let_syntax: lexical scoping of a let_syntax
 nested in a statement or expression

---
 unpythonic/syntax/letsyntax.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/unpythonic/syntax/letsyntax.py b/unpythonic/syntax/letsyntax.py
index 4f2fe9f..e303991 100644
--- a/unpythonic/syntax/letsyntax.py
+++ b/unpythonic/syntax/letsyntax.py
@@ -29,7 +29,7 @@ from mcpyrate.utils import rename
 from mcpyrate.walkers import ASTTransformer, ASTVisitor
 
 from .letdo import _implicit_do, _destructure_and_apply_let
-from .nameutil import is_unexpanded_block_macro
+from .nameutil import is_unexpanded_block_macro, is_unexpanded_expr_macro
 from .util import eliminate_ifones
 
 from ..dynassign import dyn
@@ -333,6 +333,21 @@ def _let_syntax_block(block_body, *, expand_inside):
                 return mode, "template"
         return False
 
+    def is_let_syntax_expr(tree):
+        return any(is_unexpanded_expr_macro(macrofunction, dyn._macro_expander, tree)
+                   for macrofunction in (let_syntax, abbrev))
+
+    class NestedLetSyntaxExpander(ASTTransformer):
+        def transform(self, tree):
+            if is_captured_value(tree):
+                return tree  # don't recurse!
+            if is_let_syntax(tree) or is_abbrev(tree):
+                return dyn._macro_expander.visit_recursively(tree)
+            # let_syntax[[bindings] in body], let_syntax[bindings][body]
+            if type(tree) is Subscript and (is_let_syntax_expr(tree) or is_let_syntax_expr(tree.value)):
+                return dyn._macro_expander.visit_recursively(tree)
+            return self.generic_visit(tree)
+
     templates = []
     barenames = []
     new_block_body = []
@@ -342,6 +357,8 @@ def _let_syntax_block(block_body, *, expand_inside):
         if expand_inside and (is_let_syntax(stmt) or is_abbrev(stmt)):
             stmt = dyn._macro_expander.visit_recursively(stmt)
             expanded = True
+        elif expand_inside:
+            stmt = NestedLetSyntaxExpander().visit(stmt)
 
         stmt = _substitute_templates(templates, stmt)
         stmt = _substitute_barenames(barenames, stmt)
-- 
2.43.0


From 5c69d1704cf6867f8915778dc1cf7792e3855994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:30 +0000
Subject: [PATCH 115/124] fix: let_syntax, abbrev: template whose value is a
 tuple as an argument of itself

---
 unpythonic/syntax/letsyntax.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/unpythonic/syntax/letsyntax.py b/unpythonic/syntax/letsyntax.py
index e303991..d8308a0 100644
--- a/unpythonic/syntax/letsyntax.py
+++ b/unpythonic/syntax/letsyntax.py
@@ -466,7 +466,7 @@ def _substitute_templates(templates, tree):
             if type(tree) is Call and type(tree.func) is Name and tree.func.id == name:
                 return True
             return False
-        def subst(tree):
+        def subst(tree, transform_arg=lambda arg: arg):
             if type(tree) is Subscript:
                 theargs = _get_subscript_args(tree)
             elif type(tree) is Call:
@@ -475,6 +475,7 @@ def _substitute_templates(templates, tree):
                 assert False
             if len(theargs) != len(formalparams):
                 raise SyntaxError(f"let_syntax template '{name}' expected {len(formalparams)} arguments, got {len(theargs)}")  # pragma: no cover
+            theargs = [transform_arg(arg) for arg in theargs]
             # make a fresh deep copy of the RHS to avoid destroying the template.
             tree = deepcopy(value)  # expand the f itself in f[x, ...] or f(x, ...)
             # Expand the x, ... in the expanded form of f. All formal parameters are substituted simultaneously,
@@ -500,7 +501,7 @@ def _substitute_templates(templates, tree):
                         if mode == "block":
                             raise SyntaxError(f"cannot substitute block '{name}' into expression position")  # pragma: no cover
                         # The arguments may contain more invocations of this template.
-                        return subst(self.generic_visit(tree))
+                        return subst(tree, transform_arg=self.visit)
                     return self.generic_visit(tree)
             return Splicer().visit(tree)
         tree = splice(tree)
-- 
2.43.0


From a35237f4dc0fffeb2261de0c15aec6e9c7ea68f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:59 +0000
Subject: [PATCH 116/124] fix: namedlambda: lambda as a value of a dictionary
 literal with a constant key that is not a string

---
 unpythonic/syntax/lambdatools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpythonic/syntax/lambdatools.py b/unpythonic/syntax/lambdatools.py
index 4b12fd2..21b56b0 100644
--- a/unpythonic/syntax/lambdatools.py
+++ b/unpythonic/syntax/lambdatools.py
@@ -368,7 +368,7 @@ def _namedlambda(block_body):
                     if k is None:  # {..., **d, ...}
                         tree.values[j] = self.visit(v)
                     else:
-                        if type(k) in (Constant, Str):  # Python 3.8+: ast.Constant
+                        if type(k) in (Constant, Str) and type(getconstant(k)) is str:  # Python 3.8+: ast.Constant
                             thename = getconstant(k)
                             tree.values[j], thelambda, match = nameit(thename, v)
                             if match:
-- 
2.43.0


From 3ec32936252d296b12580fb360fc14a194932119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:59 +0000
Subject: [PATCH 117/124] fix: namedlambda: lambdas in the function part of a
 call with named arguments, or in default values of a lambda

---
 unpythonic/syntax/lambdatools.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/unpythonic/syntax/lambdatools.py b/unpythonic/syntax/lambdatools.py
index 21b56b0..00951da 100644
--- a/unpythonic/syntax/lambdatools.py
+++ b/unpythonic/syntax/lambdatools.py
@@ -318,7 +318,7 @@ def _namedlambda(block_body):
                 for b in view.bindings:
                     b.elts[1], thelambda, match = nameit(getname(b.elts[0]), b.elts[1])
                     if match:
-                        thelambda.body = self.visit(thelambda.body)
+                        thelambda.args, thelambda.body = self.visit(thelambda.args), self.visit(thelambda.body)
                     else:
                         b.elts[1] = self.visit(b.elts[1])
                     newbindings.append(b)
@@ -330,21 +330,21 @@ def _namedlambda(block_body):
                 view = UnexpandedEnvAssignView(tree)
                 view.value, thelambda, match = nameit(view.name, view.value)
                 if match:
-                    thelambda.body = self.visit(thelambda.body)
+                    thelambda.args, thelambda.body = self.visit(thelambda.args), self.visit(thelambda.body)
                 else:
                     view.value = self.visit(view.value)
                 return tree
             elif issingleassign(tree):  # f = lambda ...: ...
                 tree.value, thelambda, match = nameit(getname(tree.targets[0]), tree.value)
                 if match:
-                    thelambda.body = self.visit(thelambda.body)
+                    thelambda.args, thelambda.body = self.visit(thelambda.args), self.visit(thelambda.body)
                 else:
                     tree.value = self.visit(tree.value)
                 return tree
             elif type(tree) is NamedExpr:  # f := lambda ...: ...  (Python 3.8+, added in unpythonic 0.15.0)
                 tree.value, thelambda, match = nameit(getname(tree.target), tree.value)
                 if match:
-                    thelambda.body = self.visit(thelambda.body)
+                    thelambda.args, thelambda.body = self.visit(thelambda.args), self.visit(thelambda.body)
                 else:
                     tree.value = self.visit(tree.value)
                 return tree
@@ -356,9 +356,10 @@ def _namedlambda(block_body):
                     # a single named arg
                     kw.value, thelambda, match = nameit(kw.arg, kw.value)
                     if match:
-                        thelambda.body = self.visit(thelambda.body)
+                        thelambda.args, thelambda.body = self.visit(thelambda.args), self.visit(thelambda.body)
                     else:
                         kw.value = self.visit(kw.value)
+                tree.func = self.visit(tree.func)
                 tree.args = self.visit(tree.args)
                 return tree
             elif type(tree) is Dict:  # {"f": lambda: ..., "g": lambda: ...}
@@ -372,7 +373,7 @@ def _namedlambda(block_body):
                             thename = getconstant(k)
                             tree.values[j], thelambda, match = nameit(thename, v)
                             if match:
-                                thelambda.body = self.visit(thelambda.body)
+                                thelambda.args, thelambda.body = self.visit(thelambda.args), self.visit(thelambda.body)
                             else:
                                 tree.values[j] = self.visit(v)
                         else:
@@ -397,14 +398,14 @@ def _namedlambda(block_body):
             # Recurse into the lambda body in already named lambdas.
             if is_decorated_lambda(tree, mode="any") and has_deco(["namelambda"], tree):
                 decorator_list, thelambda = destructure_decorated_lambda(tree)
-                thelambda.body = self.visit(thelambda.body)
+                thelambda.args, thelambda.body = self.visit(thelambda.args), self.visit(thelambda.body)
                 return tree
             elif type(tree) is Lambda:
                 if hasattr(tree, "lineno"):
                     thename = f"<lambda at {dyn._macro_expander.filename}:{tree.lineno}>"
                     tree, thelambda, match = nameit(thename, tree)
                     if match:
-                        thelambda.body = self.visit(thelambda.body)
+                        thelambda.args, thelambda.body = self.visit(thelambda.args), self.visit(thelambda.body)
                     else:
                         tree = self.visit(tree)
                 return tree
-- 
2.43.0


From 1b1c153eea44fcb6d2dc94c2c72b65e26621b247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:59 +0000
Subject: [PATCH 118/124] fix: envify: default values, decorators and docstring
 of a function

---
 unpythonic/syntax/lambdatools.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/unpythonic/syntax/lambdatools.py b/unpythonic/syntax/lambdatools.py
index 00951da..5f38689 100644
--- a/unpythonic/syntax/lambdatools.py
+++ b/unpythonic/syntax/lambdatools.py
@@ -8,7 +8,7 @@ __all__ = ["multilambda",
            "envify"]
 
 from ast import (Lambda, Name, Assign, Subscript, Call, FunctionDef,
-                 AsyncFunctionDef, Attribute, keyword, Dict, Constant, arg)
+                 AsyncFunctionDef, Attribute, keyword, Dict, Constant, arg, get_docstring)
 from copy import deepcopy
 
 from mcpyrate.quotes import macros, q, u, n, a, h  # noqa: F401
@@ -497,7 +497,7 @@ def _envify(block_body):
                         with q as quoted:
                             n[ename] = a[theenv]
                         assignment = quoted[0]
-                        tree.body.insert(0, assignment)
+                        tree.body.insert(0 if get_docstring(tree, clean=False) is None else 1, assignment)
                     elif type(tree) is Lambda and id(tree) in userlambdas:
                         # We must in general inject a new do[] even if one is already there,
                         # due to scoping rules. If the user code writes to the same names in
@@ -514,7 +514,7 @@ def _envify(block_body):
                         thecall.keywords = kws
                         tree.body = splice_expression(thecall, tree.body, "_here_")
                     newbindings.update({k: q[n[f"{ename}.{k}"]] for k in argnames})  # "x" --> e.x
-                    self.generic_withstate(tree, enames=(enames + [ename]), bindings=newbindings)
+                    self.withstate(tree.body, enames=(enames + [ename]), bindings=newbindings)  # not in decorators, default values
             else:
                 # leave alone the _envify() added by us
                 if type(tree) is Call and (isx(tree.func, "_envify") or isourupdate(tree)):
-- 
2.43.0


From 80ee2da4af35914257cc27205c95b4a60aaada69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:22 +0000
Subject: [PATCH 119/124] fix: do: local[] in the body of a multilambda nested
 in a do

---
 unpythonic/syntax/letdo.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/unpythonic/syntax/letdo.py b/unpythonic/syntax/letdo.py
index 18af9e3..48c4070 100644
--- a/unpythonic/syntax/letdo.py
+++ b/unpythonic/syntax/letdo.py
@@ -833,6 +833,8 @@ def _do(tree):
 
     islocaldef = partial(is_unexpanded_expr_macro, local, dyn._macro_expander)
     isdelete = partial(is_unexpanded_expr_macro, delete, dyn._macro_expander)
+    def isnesteddo(tree):  # also an implicit do[] (which is hygienically captured), e.g. the body of a multilambda
+        return isdo(tree, expanded=False) or any(is_unexpanded_expr_macro(macro, dyn._macro_expander, tree) for macro in (do, do0))
 
     def transform_localdefs(tree):
         class LocaldefCollector(ASTTransformer):
@@ -872,7 +874,7 @@ def _do(tree):
             def examine(self, tree):
                 if is_captured_value(tree):
                     return  # don't recurse!
-                elif isdo(tree, expanded=False):
+                elif isnesteddo(tree):
                     return  # don't recurse!
                 elif ismatch(tree):
                     # Expand the stray helper macro invocation, to trigger its `SyntaxError`
@@ -894,7 +896,7 @@ def _do(tree):
             def transform(self, tree):
                 if is_captured_value(tree):
                     return tree  # don't recurse!
-                elif islet(tree, expanded=False) or isdo(tree, expanded=False) or isaif(tree) or iscond(tree):
+                elif islet(tree, expanded=False) or isnesteddo(tree) or isaif(tree) or iscond(tree):
                     return dyn._macro_expander.visit_recursively(tree)
                 elif type(tree) is Subscript and dyn._macro_expander.isbound(getname(tree.value, accept_attr=False)):
                     return tree  # don't recurse! Any other macro sees its argument unexpanded.
-- 
2.43.0


From 1696101d61ea4438338b897c6f80d09c28c8eb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:24 +0000
Subject: [PATCH 120/124] fix: aif: local[] in the body of a multilambda nested
 in an aif

---
 unpythonic/syntax/ifexprs.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/unpythonic/syntax/ifexprs.py b/unpythonic/syntax/ifexprs.py
index a915f7e..43cfdfc 100644
--- a/unpythonic/syntax/ifexprs.py
+++ b/unpythonic/syntax/ifexprs.py
@@ -4,14 +4,16 @@
 __all__ = ["aif", "it",
            "cond"]
 
-from ast import Tuple
+from ast import Name, Tuple
 
 from mcpyrate.quotes import macros, q, n, a, h  # noqa: F811, F401
 from .letdo import macros, let  # noqa: F811, F401
 
 from mcpyrate import namemacro
 from mcpyrate.expander import MacroExpander
+from mcpyrate.quotes import is_captured_value
 from mcpyrate.utils import extract_bindings, NestingLevelTracker
+from mcpyrate.walkers import ASTTransformer
 
 from .letdo import _implicit_do
 
@@ -59,8 +61,16 @@ _aif_level = NestingLevelTracker()
 
 def _aif(tree, bindings_of_it):
     # expand any `it` inside the `aif` (thus confirming those uses are valid)
+    # We expand just the names; a hygienically captured macro (e.g. an implicit do[]) needs the full expander.
+    class ItExpander(ASTTransformer):
+        def transform(self, tree):
+            if is_captured_value(tree):
+                return tree  # don't recurse!
+            if type(tree) is Name:
+                return MacroExpander(bindings_of_it, dyn._macro_expander.filename).visit(tree)
+            return self.generic_visit(tree)
     def expand_it(tree):
-        return MacroExpander(bindings_of_it, dyn._macro_expander.filename).visit(tree)
+        return ItExpander().visit(tree)
 
     # careful here: `it` is only valid in the `then` and `otherwise` parts.
     test, then, otherwise = tree.elts
-- 
2.43.0


From 76c7e5148dc3dc5210ca4b2ed32852e096910e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:28 +0000
Subject: [PATCH 121/124] fix: namedlambda: leave the bodies of let forms named
 under autocurry

---
 unpythonic/syntax/lambdatools.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/unpythonic/syntax/lambdatools.py b/unpythonic/syntax/lambdatools.py
index 5f38689..73d4bd9 100644
--- a/unpythonic/syntax/lambdatools.py
+++ b/unpythonic/syntax/lambdatools.py
@@ -400,6 +400,12 @@ def _namedlambda(block_body):
                 decorator_list, thelambda = destructure_decorated_lambda(tree)
                 thelambda.args, thelambda.body = self.visit(thelambda.args), self.visit(thelambda.body)
                 return tree
+            # Similarly, in an expanded autocurry: "currycall(currycall(namelambda, ...), curryf(lambda ...: ...))"
+            elif (isautocurrywithfinallambda(tree) and type(tree.args[0]) is Call and
+                  isx(tree.args[0].func, currycall_name) and isx(tree.args[0].args[0], "namelambda")):
+                thelambda = tree.args[-1].args[-1]
+                thelambda.args, thelambda.body = self.visit(thelambda.args), self.visit(thelambda.body)
+                return tree
             elif type(tree) is Lambda:
                 if hasattr(tree, "lineno"):
                     thename = f"<lambda at {dyn._macro_expander.filename}:{tree.lineno}>"
-- 
2.43.0


From cb5056cd7b7be6c6be6b48dc222f14f39cb727ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:19 +0000
Subject: [PATCH 122/124] fix: continuations: let/do assignment in tail
 position is not a call

---
 unpythonic/syntax/tailtools.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/unpythonic/syntax/tailtools.py b/unpythonic/syntax/tailtools.py
index 6694e56..05c8553 100644
--- a/unpythonic/syntax/tailtools.py
+++ b/unpythonic/syntax/tailtools.py
@@ -8,11 +8,12 @@ __all__ = ["autoreturn",
            "continuations", "call_cc", "get_cc", "iscontinuation"]
 
 from functools import partial
+import re
 
 from ast import (Lambda, FunctionDef, AsyncFunctionDef, ClassDef,
                  arguments, arg, keyword,
                  List, Tuple,
-                 Call, Name, Starred, Constant,
+                 Call, Name, Attribute, Starred, Constant,
                  BoolOp, And, Or,
                  With, AsyncWith, If, IfExp, Try, Assign, Return, Expr,
                  Await, Yield, YieldFrom,
@@ -1591,6 +1592,9 @@ def _transform_retexpr(tree, known_ecs, call_cb=None, data_cb=None):
     """
     transform_call = call_cb or (lambda tree: tree)
     transform_data = data_cb or (lambda tree: tree)
+    def isenvoperation(tree):  # an expanded `x := val` or `delete[x]`; must match what `let` and `do` use in their output.
+        return (type(tree.func) is Attribute and tree.func.attr in ("set", "_set", "pop") and
+                type(tree.func.value) is Name and bool(re.fullmatch("e_[0-9a-f]{32}", tree.func.value.id)))
     def transform(tree):
         # Ignore the "lambda e: ...", and descend into the ..., in:
         #   - let[] or letrec[] in tail position.
@@ -1624,7 +1628,9 @@ def _transform_retexpr(tree, known_ecs, call_cb=None, data_cb=None):
             #     But it acts like bare data.
             if isx(tree.func, _isjump) or isec(tree, known_ecs):
                 pass
-            elif isx(tree.func, "Values"):
+            #   - If an operation on a let/do environment (`x := val`, `delete[x]`),
+            #     leave it alone; in the source code, it is not a call.
+            elif isx(tree.func, "Values") or isenvoperation(tree):
                 tree = transform_data(tree)
             else:
                 tree.args = [tree.func] + tree.args
-- 
2.43.0


From d2f4aaf2f6ccccc5a264079fcac720c18b924d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:43 +0000
Subject: [PATCH 123/124] fix: autocurry: partial application of a lambda under
 tco or continuations returned a jump

---
 unpythonic/syntax/autocurry.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/unpythonic/syntax/autocurry.py b/unpythonic/syntax/autocurry.py
index 3b8292a..3f459ae 100644
--- a/unpythonic/syntax/autocurry.py
+++ b/unpythonic/syntax/autocurry.py
@@ -115,6 +115,15 @@ def _autocurry(block_body):
                     self.withstate(thunk.body, hascurry=False)
                     thunk.body = self.visit(thunk.body)
                     return tree
+                #   - `trampolined(lambda ...: ...)` comes from `with tco` or `with continuations`.
+                #     As for a `def`, the curry goes on the outside, so that also a partially
+                #     applied lambda is trampolined when the rest of its arguments arrive.
+                elif (not hascurry and isx(tree.func, "trampolined") and len(tree.args) == 1 and
+                        type(tree.args[0]) is Lambda):
+                    thelambda = tree.args[0]
+                    thelambda.args = self.visit(thelambda.args)
+                    thelambda.body = self.visit(thelambda.body)
+                    return q[h[curryf](a[tree])]
                 else:  # general case
                     if has_curry(tree):  # detect decorated lambda with manual curry
                         # the lambda inside the curry(...) is the next Lambda node we will descend into.
-- 
2.43.0


From c24d6eafe5683b177eaac0ab8c74aa2a2e2107df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:03 +0000
Subject: [PATCH 124/124] fix: namedlambda, lazify, autoref: let decorators
 inside the block

---
 unpythonic/syntax/autoref.py     | 2 +-
 unpythonic/syntax/lambdatools.py | 6 ++++--
 unpythonic/syntax/lazify.py      | 2 +-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/unpythonic/syntax/autoref.py b/unpythonic/syntax/autoref.py
index 739b22d..1d2c637 100644
--- a/unpythonic/syntax/autoref.py
+++ b/unpythonic/syntax/autoref.py
@@ -225,7 +225,7 @@ def _autoref(block_body, args, asname):
             if type(tree) in (Attribute, Subscript, Name) and type(tree.ctx) in (Store, Del):
                 return tree
             # skip autoref lookup for let/do envs
-            elif islet(tree):
+            elif islet(tree) and not islet(tree)[0].endswith("decorator"):  # let decorators have no body inside the Call node
                 view = ExpandedLetView(tree)
                 self.generic_withstate(tree, referents=referents + [view.body.args.args[0].arg])  # lambda e14: ...
             elif isdo(tree):
diff --git a/unpythonic/syntax/lambdatools.py b/unpythonic/syntax/lambdatools.py
index 73d4bd9..f3dd3c1 100644
--- a/unpythonic/syntax/lambdatools.py
+++ b/unpythonic/syntax/lambdatools.py
@@ -312,7 +312,8 @@ def _namedlambda(block_body):
         def transform(self, tree):
             if is_captured_value(tree):
                 return tree  # don't recurse!
-            if islet(tree, expanded=False):  # let bindings
+            kind = islet(tree, expanded=False)  # (kind, mode) or False
+            if kind:  # let bindings
                 view = UnexpandedLetView(tree)
                 newbindings = []
                 for b in view.bindings:
@@ -323,7 +324,8 @@ def _namedlambda(block_body):
                         b.elts[1] = self.visit(b.elts[1])
                     newbindings.append(b)
                 view.bindings = newbindings  # write the new bindings (important!)
-                view.body = self.visit(view.body)
+                if kind[0] != "decorator":  # let decorators have no body inside the Call node
+                    view.body = self.visit(view.body)
                 return tree
             # assumption: no one left-shifts by a literal lambda :)
             elif isenvassign(tree):  # f << (lambda ...: ...)
diff --git a/unpythonic/syntax/lazify.py b/unpythonic/syntax/lazify.py
index 7d21735..9931145 100644
--- a/unpythonic/syntax/lazify.py
+++ b/unpythonic/syntax/lazify.py
@@ -746,7 +746,7 @@ def _lazify(body):
                         for b in view.bindings.elts:  # b = (name, (lambda e: ...))
                             thelambda = b.elts[1]
                             thelambda.body = transform_arg(thelambda.body)
-                    if view.body:  # let decorators have no body inside the Call node
+                    if not islet(tree)[0].endswith("decorator"):  # let decorators have no body inside the Call node
                         thelambda = view.body
                         thelambda.body = self.visit(thelambda.body)
                     return tree
-- 
2.43.0

