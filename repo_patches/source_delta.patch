From bce69e38e0c1c3db5994abcd8438c407cb0b8439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:32 +0000
Subject: [PATCH 01/77] fix: argument-less fwd() forwards the arguments of the
 handled call

A handler without parameters, or one installed through interpreter() or
evaluate(intp=...), forwarded the arguments of an enclosing operation (or
none) to the next handler.
---
 effectful/ops/types.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/effectful/ops/types.py b/effectful/ops/types.py
index 65e31de..fa4bfc1 100644
--- a/effectful/ops/types.py
+++ b/effectful/ops/types.py
@@ -505,7 +505,11 @@ class Operation[**Q, V]:
             return self
 
     def __call__(self, *args: Q.args, **kwargs: Q.kwargs) -> V:
-        from effectful.internals.runtime import _restore_args, get_interpretation
+        from effectful.internals.runtime import (
+            _get_args,
+            _restore_args,
+            get_interpretation,
+        )
         from effectful.ops.semantics import fwd, handler
 
         intp = get_interpretation()
@@ -514,10 +518,13 @@ class Operation[**Q, V]:
         if self_handler is not None:
             # ensure that fwd is bound to the default rule. if this handler has
             # a bound fwd, it will override this binding
-            fwd_intp = typing.cast(
-                Interpretation, {fwd: _restore_args(self.__default_rule__)}
-            )
-            with handler(fwd_intp):
+            fwd_intp: dict[Operation, Callable] = {
+                fwd: _restore_args(self.__default_rule__)
+            }
+            if self is not fwd and self is not _get_args:
+                # an argument-less fwd() forwards the arguments of this call
+                fwd_intp[_get_args] = lambda: (args, kwargs)
+            with handler(typing.cast(Interpretation, fwd_intp)):
                 return self_handler(*args, **kwargs)
         elif args and isinstance(args[0], Operation) and self is args[0].__apply__:
             # Prevent infinite recursion when calling self.apply directly
-- 
2.43.0


From 01d17a8aa336cb4d3ec7190b771c7f4e275892c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:49 +0000
Subject: [PATCH 02/77] fix: comparing and rounding numbers through numeric
 term operations

Evaluating x() < 2.5 with an int returned NotImplemented and round(x())
raised TypeError, because the special methods were called directly instead of
through Python's operators.
---
 effectful/ops/syntax.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/effectful/ops/syntax.py b/effectful/ops/syntax.py
index 6349e10..a1c8051 100644
--- a/effectful/ops/syntax.py
+++ b/effectful/ops/syntax.py
@@ -1104,7 +1104,7 @@ class _NumberTerm[T: numbers.Number](_BaseTerm[T], numbers.Number):
     @defop
     def __round__(self, ndigits: int | None = None) -> numbers.Real:
         if not isinstance(self, Term) and not isinstance(ndigits, Term):
-            return self.__round__(ndigits)
+            return round(self, ndigits)
         else:
             raise NotHandled
 
@@ -1125,35 +1125,35 @@ class _NumberTerm[T: numbers.Number](_BaseTerm[T], numbers.Number):
     @defop
     def __eq__(self, other) -> bool:
         if not isinstance(self, Term) and not isinstance(other, Term):
-            return self.__eq__(other)
+            return operator.__eq__(self, other)
         else:
             return syntactic_eq(self, other)
 
     @defop
     def __lt__(self, other) -> bool:
         if not isinstance(self, Term) and not isinstance(other, Term):
-            return self.__lt__(other)
+            return operator.__lt__(self, other)
         else:
             raise NotHandled
 
     @defop
     def __gt__(self, other) -> bool:
         if not isinstance(self, Term) and not isinstance(other, Term):
-            return self.__gt__(other)
+            return operator.__gt__(self, other)
         else:
             raise NotHandled
 
     @defop
     def __le__(self, other) -> bool:
         if not isinstance(self, Term) and not isinstance(other, Term):
-            return self.__le__(other)
+            return operator.__le__(self, other)
         else:
             raise NotHandled
 
     @defop
     def __ge__(self, other) -> bool:
         if not isinstance(self, Term) and not isinstance(other, Term):
-            return self.__ge__(other)
+            return operator.__ge__(self, other)
         else:
             raise NotHandled
 
-- 
2.43.0


From 9b0e79313e227aa013fb56203ebf99d15a7150cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:01 +0000
Subject: [PATCH 03/77] fix: evaluate ranges, memoryviews, Counters, ChainMaps
 and dataclasses with non-init fields

These containers were rebuilt from pairs or through arguments their
constructors do not take, which changed their value or raised.
---
 effectful/internals/product_n.py | 5 +++--
 effectful/ops/semantics.py       | 5 ++++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/effectful/internals/product_n.py b/effectful/internals/product_n.py
index 4b8bd2a..e8e83e3 100644
--- a/effectful/internals/product_n.py
+++ b/effectful/internals/product_n.py
@@ -67,9 +67,9 @@ def map_structure(func, expr):
         elif isinstance(expr, types.MappingProxyType):
             return type(expr)(dict(map_structure(func, tuple(expr.items()))))
         else:
-            return type(expr)(map_structure(func, tuple(expr.items())))
+            return type(expr)(dict(map_structure(func, tuple(expr.items()))))
     elif isinstance(expr, collections.abc.Sequence):
-        if isinstance(expr, str | bytes):
+        if isinstance(expr, str | bytes | range | memoryview):
             return expr
         elif (
             isinstance(expr, tuple)
@@ -97,6 +97,7 @@ def map_structure(func, expr):
             **{
                 field.name: map_structure(func, getattr(expr, field.name))
                 for field in dataclasses.fields(expr)
+                if field.init
             },
         )
     else:
diff --git a/effectful/ops/semantics.py b/effectful/ops/semantics.py
index de041b6..353d963 100644
--- a/effectful/ops/semantics.py
+++ b/effectful/ops/semantics.py
@@ -151,6 +151,8 @@ def evaluate[T](
 @evaluate.register(object)
 @evaluate.register(str)
 @evaluate.register(bytes)
+@evaluate.register(range)
+@evaluate.register(memoryview)
 def _evaluate_object[T](expr: T, **kwargs) -> T:
     if dataclasses.is_dataclass(expr) and not isinstance(expr, type):
         return typing.cast(
@@ -160,6 +162,7 @@ def _evaluate_object[T](expr: T, **kwargs) -> T:
                 **{
                     field.name: evaluate(getattr(expr, field.name))
                     for field in dataclasses.fields(expr)
+                    if field.init
                 },
             ),
         )
@@ -193,7 +196,7 @@ def _evaluate_mappingproxytype(expr, **kwargs):
 
 @evaluate.register(collections.abc.Mapping)
 def _evaluate_mapping(expr, **kwargs):
-    return type(expr)(evaluate(tuple(expr.items())))
+    return type(expr)(dict(evaluate(tuple(expr.items()))))
 
 
 @evaluate.register(tuple)
-- 
2.43.0


From e48f59ad2d9d4c3d594a7d6f7b142b97c3d3fae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:01 +0000
Subject: [PATCH 04/77] fix: % on deferred tensors computes the remainder like
 torch.Tensor does

---
 effectful/handlers/torch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/effectful/handlers/torch.py b/effectful/handlers/torch.py
index c9b8f64..8faf232 100644
--- a/effectful/handlers/torch.py
+++ b/effectful/handlers/torch.py
@@ -433,10 +433,10 @@ class _TensorTerm(Term[torch.Tensor]):
         return torch.floor_divide(other, typing.cast(torch.Tensor, self))
 
     def __mod__(self, other: torch.Tensor) -> torch.Tensor:
-        return torch.fmod(typing.cast(torch.Tensor, self), other)
+        return torch.remainder(typing.cast(torch.Tensor, self), other)
 
     def __rmod__(self, other: torch.Tensor) -> torch.Tensor:
-        return torch.fmod(other, typing.cast(torch.Tensor, self))
+        return torch.remainder(other, typing.cast(torch.Tensor, self))
 
     def __lt__(self, other: torch.Tensor) -> torch.Tensor:
         return torch.lt(typing.cast(torch.Tensor, self), other)
-- 
2.43.0


From 2f35dacc1e5717bbb6498dd8b34b4604b0096a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:01 +0000
Subject: [PATCH 05/77] fix: pass keyword arguments through the torch function
 transforms

---
 effectful/handlers/torch.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/effectful/handlers/torch.py b/effectful/handlers/torch.py
index 8faf232..51f8897 100644
--- a/effectful/handlers/torch.py
+++ b/effectful/handlers/torch.py
@@ -642,28 +642,28 @@ def grad(func, *args, **kwargs):
     """
     (deindexed_func, reindex) = _indexed_func_wrapper(func)
     f = _register_torch_op(torch.func.grad(deindexed_func, *args, **kwargs))
-    return lambda *a, **k: reindex(f(*a, *k))
+    return lambda *a, **k: reindex(f(*a, **k))
 
 
 @functools.wraps(torch.func.jacfwd)
 def jacfwd(func, *args, **kwargs):
     (deindexed_func, reindex) = _indexed_func_wrapper(func)
     jacobian = _register_torch_op(torch.func.jacfwd(deindexed_func, *args, **kwargs))
-    return lambda *a, **k: reindex(jacobian(*a, *k))
+    return lambda *a, **k: reindex(jacobian(*a, **k))
 
 
 @functools.wraps(torch.func.jacrev)
 def jacrev(func, *args, **kwargs):
     (deindexed_func, reindex) = _indexed_func_wrapper(func)
     jacobian = _register_torch_op(torch.func.jacrev(deindexed_func, *args, **kwargs))
-    return lambda *a, **k: reindex(jacobian(*a, *k))
+    return lambda *a, **k: reindex(jacobian(*a, **k))
 
 
 @functools.wraps(torch.func.hessian)
 def hessian(func, *args, **kwargs):
     (deindexed_func, reindex) = _indexed_func_wrapper(func)
     h = _register_torch_op(torch.func.hessian(deindexed_func, *args, **kwargs))
-    return lambda *a, **k: reindex(h(*a, *k))
+    return lambda *a, **k: reindex(h(*a, **k))
 
 
 @functools.wraps(torch.func.jvp)
@@ -719,7 +719,7 @@ def vmap(func, *args, **kwargs):
     # vmap_func returns tensors of shape [vmap_dim, indexed_dim_1, ...,
     # indexed_dim_n, pos_dim_1, ..., pos_dim_m], so we reapply indexes starting
     # at dim 1
-    return lambda *a, **k: reindex(vmap_func(*a, *k), starting_dim=1)
+    return lambda *a, **k: reindex(vmap_func(*a, **k), starting_dim=1)
 
 
 @syntactic_eq.register
-- 
2.43.0


From 19c61ec9e451e1b9aaacbea6ae786287726f4f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:32 +0000
Subject: [PATCH 06/77] fix: mix tensors and slices when indexing a tensor

torch_getitem with a tensor (or named dimension) and a partial slice or list
reshaped the converted slice so that it broadcast against the wrong
dimensions, raising or returning a result with extra dimensions.
---
 effectful/handlers/torch.py | 24 +++++++-----------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/effectful/handlers/torch.py b/effectful/handlers/torch.py
index 51f8897..ad25173 100644
--- a/effectful/handlers/torch.py
+++ b/effectful/handlers/torch.py
@@ -294,26 +294,16 @@ def torch_getitem(x: torch.Tensor, key: tuple[IndexElement, ...]) -> torch.Tenso
     # handle None, Ellipsis, and missing dimensions
     x, key = _getitem_ellipsis_and_none(x, key)
 
-    # Convert non-tensor args to tensors
+    # Apply the slices, which leaves only the dimensions they select
+    x = x[tuple(k if isinstance(k, slice) else slice(None) for k in key)]
+
+    # Convert the remaining non-tensor args to tensors
     key_l = list(key)
-    for i, arg in list(enumerate(key)):
+    for i, arg in enumerate(key):
         if isinstance(arg, slice):
-            if arg == slice(None):
-                key_l[i] = None
-            else:
-                # Convert slices to torch.arange()s.
-                start = arg.start if arg.start is not None else 0
-                stop = arg.stop if arg.stop is not None else x.shape[i]
-                step = arg.step if arg.step is not None else 1
-                flat_arg = torch.arange(
-                    start, stop, step, dtype=torch.long, device=x.device
-                )
-                key_l[i] = flat_arg.reshape((-1,) + (1,) * i)
-        elif isinstance(arg, int):
+            key_l[i] = None
+        elif isinstance(arg, int | list | tuple):
             key_l[i] = torch.tensor(arg, dtype=torch.long, device=x.device)
-        elif isinstance(arg, list | tuple):
-            flat_arg = torch.tensor(arg, dtype=torch.long, device=x.device)
-            key_l[i] = flat_arg.reshape(flat_arg.shape + (1,) * i)
 
     return torch.ops.aten.index(x, tuple(key_l))
 
-- 
2.43.0


From 92dc7bc684da69727f3a0d1e837382663a09481d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:59 +0000
Subject: [PATCH 07/77] fix: do not share instance operations with shallow
 copies of the instance

copy.copy(obj) copied the cached operations of obj, so that calling a method
operation on the copy ran it on the original.
---
 effectful/handlers/llm/template.py |  7 +++----
 effectful/ops/types.py             | 14 ++++++++++++--
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/effectful/handlers/llm/template.py b/effectful/handlers/llm/template.py
index cffda38..0f1fc63 100644
--- a/effectful/handlers/llm/template.py
+++ b/effectful/handlers/llm/template.py
@@ -231,10 +231,9 @@ class Template[**P, T](Tool[P, T]):
         return result
 
     def __get__[S](self, instance: S | None, owner: type[S] | None = None):
-        if hasattr(self, "_name_on_instance") and hasattr(
-            instance, self._name_on_instance
-        ):
-            return getattr(instance, self._name_on_instance)
+        cached_op = self._cached_instance_op(instance)
+        if cached_op is not None:
+            return cached_op
 
         result = super().__get__(instance, owner)
         self_param_name = list(self.__signature__.parameters.keys())[0]
diff --git a/effectful/ops/types.py b/effectful/ops/types.py
index fa4bfc1..17448a4 100644
--- a/effectful/ops/types.py
+++ b/effectful/ops/types.py
@@ -463,12 +463,21 @@ class Operation[**Q, V]:
                 f"{INSTANCE_OP_PREFIX}_{owner.__name__}_{name}"
             )
 
+    def _cached_instance_op(self, instance) -> "Operation | None":
+        op = getattr(instance, "__dict__", {}).get(
+            getattr(self, "_name_on_instance", None)
+        )
+        # A shallow copy of an instance has the attributes of the original, but
+        # not its operations.
+        return op if getattr(op, "_bound_instance", None) is instance else None
+
     def __get__[T](self, instance: T | None, owner: type[T] | None = None):
         if hasattr(instance, "__dict__") and hasattr(self, "_name_on_instance"):
             from effectful.ops.semantics import fvsof
 
-            if self._name_on_instance in instance.__dict__:
-                return instance.__dict__[self._name_on_instance]
+            cached_op = self._cached_instance_op(instance)
+            if cached_op is not None:
+                return cached_op
             elif isinstance(instance, Term) or fvsof(instance):
                 return types.MethodType(self, instance)
             else:
@@ -497,6 +506,7 @@ class Operation[**Q, V]:
                         return default_result
 
                 instance_op = self.define(types.MethodType(_instance_op, instance))
+                instance_op._bound_instance = instance  # type: ignore[attr-defined]
                 instance.__dict__[self._name_on_instance] = instance_op
                 return instance_op
         elif instance is not None:
-- 
2.43.0


From af2c4e5e02fc5c2468b5703b8351c3d56b7e1159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:19 +0000
Subject: [PATCH 08/77] fix: give method operations of same-named owners
 separate slots

An overriding class method operation, or one in a subclass with the same name
as its base, used the slot of the operation it overrides, so that calling it
through super() recursed forever.
---
 effectful/ops/types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/effectful/ops/types.py b/effectful/ops/types.py
index 17448a4..210f83a 100644
--- a/effectful/ops/types.py
+++ b/effectful/ops/types.py
@@ -49,7 +49,7 @@ class _ClassMethodOpDescriptor(classmethod):
 
     def __set_name__(self, owner, name):
         assert not hasattr(self, "_name_on_owner"), "should only be called once"
-        self._name_on_owner = f"_descriptorop_{name}"
+        self._name_on_owner = f"_descriptorop_{name}_{id(self)}"
 
     def __get__(self, instance, owner: type | None = None):
         owner = owner if owner is not None else type(instance)
@@ -460,7 +460,7 @@ class Operation[**Q, V]:
         if not issubclass(owner, Term):
             assert not hasattr(self, "_name_on_instance"), "should only be called once"
             self._name_on_instance: str = (
-                f"{INSTANCE_OP_PREFIX}_{owner.__name__}_{name}"
+                f"{INSTANCE_OP_PREFIX}_{owner.__name__}_{name}_{id(self)}"
             )
 
     def _cached_instance_op(self, instance) -> "Operation | None":
-- 
2.43.0


From e683518f851064fa21562e63fe4caa74906754c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 09/77] fix: create the thread-local runtime when the module is
 loaded

Two threads that made the first call of the process at the same time could
each get a runtime of their own, and one of them lost its handlers.
---
 effectful/internals/runtime.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/effectful/internals/runtime.py b/effectful/internals/runtime.py
index 4c9ebd7..93d09e7 100644
--- a/effectful/internals/runtime.py
+++ b/effectful/internals/runtime.py
@@ -13,9 +13,11 @@ class Runtime[S, T](local):
     interpretation: "Interpretation[S, T]"
 
 
-@functools.lru_cache(maxsize=1)
+_runtime: Runtime = Runtime(interpretation={})
+
+
 def get_runtime() -> Runtime:
-    return Runtime(interpretation={})
+    return _runtime
 
 
 def get_interpretation():
-- 
2.43.0


From daf6f2712fb943e9a8bd0b1b3c5f61bdeeb2b5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 10/77] fix: threads agree on the operations of an instance or
 class

Threads that first accessed a method operation at the same time got different
operations, so that one of them lost the handlers it installed.
---
 effectful/handlers/llm/template.py |  6 +++++-
 effectful/ops/types.py             | 20 ++++++++++++++++----
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/effectful/handlers/llm/template.py b/effectful/handlers/llm/template.py
index 0f1fc63..613835d 100644
--- a/effectful/handlers/llm/template.py
+++ b/effectful/handlers/llm/template.py
@@ -9,7 +9,7 @@ from collections import ChainMap, OrderedDict
 from collections.abc import Callable, Mapping, MutableMapping
 from typing import Annotated, Any
 
-from effectful.ops.types import Annotation, Operation
+from effectful.ops.types import Annotation, Operation, _method_op_lock
 
 
 class _IsRecursiveAnnotation(Annotation):
@@ -231,6 +231,10 @@ class Template[**P, T](Tool[P, T]):
         return result
 
     def __get__[S](self, instance: S | None, owner: type[S] | None = None):
+        with _method_op_lock:
+            return self._bind_instance(instance, owner)
+
+    def _bind_instance[S](self, instance: S | None, owner: type[S] | None = None):
         cached_op = self._cached_instance_op(instance)
         if cached_op is not None:
             return cached_op
diff --git a/effectful/ops/types.py b/effectful/ops/types.py
index 210f83a..940bdb8 100644
--- a/effectful/ops/types.py
+++ b/effectful/ops/types.py
@@ -2,6 +2,7 @@ import abc
 import collections.abc
 import functools
 import inspect
+import threading
 import types
 import typing
 from collections.abc import Callable, Mapping, Sequence
@@ -57,12 +58,18 @@ class _ClassMethodOpDescriptor(classmethod):
             return owner.__dict__[self._name_on_owner]
         except KeyError:
             bound_op = self._define(super().__get__(instance, owner))
-            setattr(owner, self._name_on_owner, bound_op)
-            return bound_op
+            with _method_op_lock:
+                if self._name_on_owner not in owner.__dict__:
+                    setattr(owner, self._name_on_owner, bound_op)
+            return owner.__dict__[self._name_on_owner]
 
 
 INSTANCE_OP_PREFIX = "__instanceop"
 
+# Held while the operation of an instance or class is stored, so that threads
+# that access it for the first time agree on which one it is.
+_method_op_lock = threading.RLock()
+
 
 class Operation[**Q, V]:
     """An abstract class representing an effect that can be implemented by an effect handler.
@@ -507,8 +514,13 @@ class Operation[**Q, V]:
 
                 instance_op = self.define(types.MethodType(_instance_op, instance))
                 instance_op._bound_instance = instance  # type: ignore[attr-defined]
-                instance.__dict__[self._name_on_instance] = instance_op
-                return instance_op
+                with _method_op_lock:
+                    cached_op = self._cached_instance_op(instance)
+                    if cached_op is None:
+                        cached_op = instance.__dict__[self._name_on_instance] = (
+                            instance_op
+                        )
+                return cached_op
         elif instance is not None:
             return types.MethodType(self, instance)
         else:
-- 
2.43.0


From 585714d32d1317a34d235f30bd3d5b931613bc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:59 +0000
Subject: [PATCH 11/77] fix: collect the implementations of each handler class
 separately

Classes collected them in one shared dict, so that two threads defining
handler classes at the same time lost or mixed up their implementations, and
a failed class definition leaked its implementations into the next one.
---
 effectful/ops/syntax.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/effectful/ops/syntax.py b/effectful/ops/syntax.py
index a1c8051..7f4430b 100644
--- a/effectful/ops/syntax.py
+++ b/effectful/ops/syntax.py
@@ -939,24 +939,20 @@ class ObjectInterpretation[T, V](collections.abc.Mapping):
 
     # This is a weird hack to get around the fact that
     # the default meta-class runs __set_name__ before __init__subclass__.
-    # We basically store the implementations here temporarily
-    # until __init__subclass__ is called.
-    # This dict is shared by all `Implementation`s,
-    # so we need to clear it when we're done.
-    _temporary_implementations: dict[Operation[..., T], Callable[..., V]] = dict()
+    # __set_name__ stores the implementations of a class here, in a dict of its
+    # own, until __init__subclass__ is called.
+    _own_implementations: dict[Operation[..., T], Callable[..., V]] = dict()
     implementations: dict[Operation[..., T], Callable[..., V]] = dict()
 
     @classmethod
     def __init_subclass__(cls, **kwargs):
         super().__init_subclass__(**kwargs)
-        cls.implementations = ObjectInterpretation._temporary_implementations.copy()
+        cls.implementations = dict(cls.__dict__.get("_own_implementations", {}))
 
         for sup in cls.mro():
             if issubclass(sup, ObjectInterpretation):
                 cls.implementations = {**sup.implementations, **cls.implementations}
 
-        ObjectInterpretation._temporary_implementations.clear()
-
     def __iter__(self):
         return iter(self.implementations)
 
@@ -989,7 +985,9 @@ class _ImplementedOperation[**P, **Q, T, V]:
     def __set_name__(self, owner: ObjectInterpretation[T, V], name):
         assert self.impl is not None
         assert self.op is not None
-        owner._temporary_implementations[self.op] = self.impl
+        if "_own_implementations" not in owner.__dict__:
+            owner._own_implementations = {}
+        owner._own_implementations[self.op] = self.impl
 
 
 def implements[**P, V](op: Operation[P, V]):
-- 
2.43.0


From 8ce6530d030f237043f868a7a93abe3538679b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:46 +0000
Subject: [PATCH 12/77] fix: operations inside the body of a binder are not
 bound variables

Only parameters that can hold variables bind them. A bare operation in
the body of a function was renamed, and so lost, when it was built.
---
 effectful/ops/syntax.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/effectful/ops/syntax.py b/effectful/ops/syntax.py
index 7f4430b..2c0537d 100644
--- a/effectful/ops/syntax.py
+++ b/effectful/ops/syntax.py
@@ -150,6 +150,27 @@ class Scoped(Annotation):
             param = typing.cast(type, typing.get_origin(param))
         return isinstance(param, type) and issubclass(param, Operation)
 
+    @classmethod
+    def _param_holds_vars(cls, anno) -> bool:
+        """
+        Helper function that checks if values of an annotation can hold bound
+        variables, as opposed to being an expression in their scope.
+
+        :param anno: The annotation to check.
+        :returns: ``True`` if the annotation mentions :class:`Operation` or is a
+            collection of unspecified elements, ``False`` otherwise.
+        """
+        if typing.get_origin(anno) is Annotated:
+            anno = typing.get_args(anno)[0]
+        origin = typing.get_origin(anno) or anno
+        if isinstance(origin, type) and issubclass(origin, Operation):
+            return True
+        if typing.get_args(anno):
+            return any(cls._param_holds_vars(arg) for arg in typing.get_args(anno))
+        return isinstance(origin, type) and issubclass(
+            origin, collections.abc.Collection
+        )
+
     @classmethod
     def _get_param_ordinal(cls, param: type | inspect.Parameter) -> collections.abc.Set:
         """
@@ -358,7 +379,7 @@ class Scoped(Annotation):
                         param_bound_vars = set(param_value.values())
                     else:
                         param_bound_vars = {param_value}
-                elif param_ordinal:  # Only process if there's a Scoped annotation
+                elif self._param_holds_vars(param.annotation):
                     # We can't use flatten here because we want to be able
                     # to see dict keys
                     def extract_operations(obj):
-- 
2.43.0


From d29364f16f7967ca868b9cd37301524368456599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:24 +0000
Subject: [PATCH 13/77] fix: argsof returns the first argument of operations
 handled by apply

---
 effectful/internals/product_n.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effectful/internals/product_n.py b/effectful/internals/product_n.py
index e8e83e3..d2a0e67 100644
--- a/effectful/internals/product_n.py
+++ b/effectful/internals/product_n.py
@@ -148,7 +148,7 @@ def productN(intps: Mapping[Operation, Interpretation]) -> Interpretation:
             return result_intp[prompt].args, result_intp[prompt].kwargs
 
         def argsof_apply(prompt):
-            return result_intp[prompt].args[2:], result_intp[prompt].kwargs
+            return result_intp[prompt].args[1:], result_intp[prompt].kwargs
 
         # Every prompt gets an argsof implementation. The implementation is
         # either for a direct call to a handler or for a call to an apply
-- 
2.43.0


From 4522d904a711f46095e003d0b3e77dbdcb86be80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:28 +0000
Subject: [PATCH 14/77] fix: components of a product see the operations of
 their caller

Handlers that called an operation handled only by another component got
a term of a renamed operation instead of its default behavior, and apply
handlers were given a renamed operation.
---
 effectful/internals/product_n.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/effectful/internals/product_n.py b/effectful/internals/product_n.py
index d2a0e67..d06fea0 100644
--- a/effectful/internals/product_n.py
+++ b/effectful/internals/product_n.py
@@ -111,17 +111,21 @@ def productN(intps: Mapping[Operation, Interpretation]) -> Interpretation:
     if result_ops is None:
         return {}
 
-    renaming = {(prompt, op): defop(op) for prompt in intps for op in result_ops}
+    renaming = {
+        (prompt, op): defop(op) for prompt, intp in intps.items() for op in intp
+    }
 
     # We enforce isolation between the named interpretations by giving every
     # operation a fresh name and giving each operation a translation from
-    # the fresh names back to the names from their interpretation.
+    # the fresh names back to the names from their interpretation. Operations
+    # that an interpretation does not handle keep their default behavior in it.
     #
     # E.g. { a: { f, g }, b: { f, h } } =>
-    # { handler({f: f_a, g: g_a, h: h_default})(f_a), handler({f: f_a, g: g_a})(g_a),
+    # { handler({f: f_a, g: g_a})(f_a), handler({f: f_a, g: g_a})(g_a),
     #   handler({f: f_b, h: h_b})(f_b), handler({f: f_b, h: h_b})(h_b) }
     translation_intps: dict[Operation, Interpretation] = {
-        prompt: {op: renaming[(prompt, op)] for op in result_ops} for prompt in intps
+        prompt: {op: renaming[(prompt, op)] for op in intp}
+        for prompt, intp in intps.items()
     }
 
     # For every prompt, build an isolated interpretation that binds all operations.
@@ -173,16 +177,17 @@ def productN(intps: Mapping[Operation, Interpretation]) -> Interpretation:
             # evaluates in a context that binds the results of the other
             # named interpretations.
             isolated_intp = isolated_intps[prompt]
-            renamed_op = renaming[(prompt, op)]
             if op in intp:
                 result = CallByNeed(
-                    handler(isolated_intp)(renamed_op), *intp_args, **intp_kwargs
+                    handler(isolated_intp)(renaming[(prompt, op)]),
+                    *intp_args,
+                    **intp_kwargs,
                 )
                 argsof_impl = argsof_direct_call
             elif apply in intp:
                 result = CallByNeed(
                     handler(isolated_intp)(renaming[(prompt, apply)]),
-                    renamed_op,
+                    op,
                     *intp_args,
                     **intp_kwargs,
                 )
-- 
2.43.0


From fa894b1e46a02ab04dc325b8f353952acb2c8454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:49 +0000
Subject: [PATCH 15/77] fix: isolate a product component from the component
 that reads it

A result read by name was computed with the handlers of the reading
component still installed.
---
 effectful/internals/product_n.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/effectful/internals/product_n.py b/effectful/internals/product_n.py
index d06fea0..7c17149 100644
--- a/effectful/internals/product_n.py
+++ b/effectful/internals/product_n.py
@@ -144,10 +144,23 @@ def productN(intps: Mapping[Operation, Interpretation]) -> Interpretation:
         interpretations.
 
         """
+        from effectful.internals.runtime import interpreter
+
         assert isinstance(op, Operation)
 
         result_intp = {}
 
+        def isolate(prompt, func, intp={}):
+            """Run `func` with the handlers of `prompt` only, no matter which
+            component requests its result."""
+
+            def run(*args, **kwargs):
+                isolated_intp = coproduct(result_intp, isolated_intps[prompt])
+                with interpreter(coproduct(isolated_intp, intp)):
+                    return func(*args, **kwargs)
+
+            return run
+
         def argsof_direct_call(prompt):
             return result_intp[prompt].args, result_intp[prompt].kwargs
 
@@ -176,17 +189,16 @@ def productN(intps: Mapping[Operation, Interpretation]) -> Interpretation:
             # so that when the result is requested in `get_for_intp`, it
             # evaluates in a context that binds the results of the other
             # named interpretations.
-            isolated_intp = isolated_intps[prompt]
             if op in intp:
                 result = CallByNeed(
-                    handler(isolated_intp)(renaming[(prompt, op)]),
+                    isolate(prompt, renaming[(prompt, op)]),
                     *intp_args,
                     **intp_kwargs,
                 )
                 argsof_impl = argsof_direct_call
             elif apply in intp:
                 result = CallByNeed(
-                    handler(isolated_intp)(renaming[(prompt, apply)]),
+                    isolate(prompt, renaming[(prompt, apply)]),
                     op,
                     *intp_args,
                     **intp_kwargs,
@@ -200,9 +212,7 @@ def productN(intps: Mapping[Operation, Interpretation]) -> Interpretation:
                 # all operations with product handlers which would have to be
                 # skipped over.
                 result = CallByNeed(
-                    handler(coproduct(isolated_intp, translation_intps[prompt]))(
-                        op.__default_rule__
-                    ),
+                    isolate(prompt, op.__default_rule__, translation_intps[prompt]),
                     *intp_args,
                     **intp_kwargs,
                 )
-- 
2.43.0


From f35b59b2038330bcb9e35fdec6b2643e895fae13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:57 +0000
Subject: [PATCH 16/77] fix: values and terms of one type in a container have
 one type

A list or dictionary that mixes a term of type list[int] with the value [1]
was seen as holding two different types: the type variable was lost, or
building the term raised TypeError.
---
 effectful/internals/unification.py | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/effectful/internals/unification.py b/effectful/internals/unification.py
index 0ebd029..fb17094 100644
--- a/effectful/internals/unification.py
+++ b/effectful/internals/unification.py
@@ -1040,6 +1040,23 @@ def _(value: collections.abc.Callable):
         )
 
 
+def _join_types(typs: list) -> typing.Any:
+    """
+    The type of the elements of a collection, given the type of each element.
+
+    Types with the same canonical form are one type, however they are spelled:
+    a term of type ``list[int]`` and the value ``[1]``, for example.
+    """
+    if any(typ != typs[0] for typ in typs):
+        try:
+            canonical = [canonicalize(typ) for typ in typs]
+        except TypeError:
+            canonical = typs
+        if all(typ == canonical[0] for typ in canonical):
+            return canonical[0]
+    return functools.reduce(operator.or_, typs)
+
+
 @nested_type.register
 def _(value: collections.abc.Mapping):
     if value and isinstance(value, effectful.ops.types.Interpretation):
@@ -1055,12 +1072,8 @@ def _(value: collections.abc.Mapping):
             return Box(typing.TypedDict("RuntimeTypeDict", fields))  # type: ignore
         return Box(canonicalize(type(value))[ktyp, vtyp])  # type: ignore
     else:
-        ktyp = functools.reduce(
-            operator.or_, [nested_type(x).value for x in value.keys()]
-        )
-        vtyp = functools.reduce(
-            operator.or_, [nested_type(x).value for x in value.values()]
-        )
+        ktyp = _join_types([nested_type(x).value for x in value.keys()])
+        vtyp = _join_types([nested_type(x).value for x in value.values()])
         if type(value) is dict and ktyp is str and isinstance(vtyp, UnionType):
             # str-keyed dicts with *heterogeneous* values → TypedDict, which
             # captures the per-field value types that a single ``V`` cannot.
@@ -1092,7 +1105,7 @@ def _(value: collections.abc.Collection):
         vtyp = nested_type(next(iter(value))).value
         return Box(typ[vtyp])  # type: ignore
     else:
-        valtyp = functools.reduce(operator.or_, [nested_type(x).value for x in value])
+        valtyp = _join_types([nested_type(x).value for x in value])
         if isinstance(valtyp, UnionType):
             return Box(typ)
         else:
-- 
2.43.0


From f14ce52bc11b8c21fa12393808a529cb9945012e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:57 +0000
Subject: [PATCH 17/77] fix: never return a cyclic substitution from unify

Matching both ways (mutable TypedDict fields) bound two variables to each
other, and T was bound to types containing T; substitute then recursed forever.
---
 effectful/internals/unification.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/effectful/internals/unification.py b/effectful/internals/unification.py
index fb17094..1ab0221 100644
--- a/effectful/internals/unification.py
+++ b/effectful/internals/unification.py
@@ -312,8 +312,17 @@ def _unify_typevar(
 
 
 def _unify_typevar(typ, subtyp, subs: Substitutions) -> Substitutions:
+    for var, other in ((typ, subtyp), (subtyp, typ)):
+        if isinstance(var, TypeVariable) and var not in subs:
+            while isinstance(other, TypeVariable) and other in subs:
+                other = subs[other]
+            if other == var:
+                return subs
+            elif _occurs_in(var, other, subs):
+                raise TypeError(f"Cannot unify {typ} with {subtyp} given {subs}.")
+
     if isinstance(typ, TypeVariable) and isinstance(subtyp, TypeVariable):
-        return subs if typ == subtyp else {typ: subtyp, **subs}
+        return {typ: subtyp, **subs}
     elif isinstance(typ, TypeVariable) and not isinstance(subtyp, TypeVariable):
         return unify(subs.get(typ, subtyp), subtyp, {typ: subtyp, **subs})
     elif (
@@ -326,6 +335,18 @@ def _unify_typevar(typ, subtyp, subs: Substitutions) -> Substitutions:
         raise TypeError(f"Cannot unify type variable {typ} with {subtyp} given {subs}.")
 
 
+def _occurs_in(
+    var: TypeVariable, typ: TypeExpressions, subs: Substitutions
+) -> bool:
+    """Whether a type variable occurs in a type expression under a substitution."""
+    if isinstance(typ, list | tuple):
+        return any(_occurs_in(var, item, subs) for item in typ)
+    return any(
+        fv == var or (fv in subs and _occurs_in(var, subs[fv], subs))
+        for fv in freetypevars(typ)
+    )
+
+
 @typing.overload
 def _unify_sequence(
     typ: collections.abc.Sequence, subtyp: TypeExpressions, subs: Substitutions
-- 
2.43.0


From a50fe77a4b851c37782e388aa016e155a0a705a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:31 +0000
Subject: [PATCH 18/77] fix: real, imag, numerator and denominator of deferred
 numbers are expressions

They raised NotHandled, which made an enclosing operation look unhandled.
---
 effectful/ops/syntax.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/effectful/ops/syntax.py b/effectful/ops/syntax.py
index 2c0537d..6ec9529 100644
--- a/effectful/ops/syntax.py
+++ b/effectful/ops/syntax.py
@@ -1043,6 +1043,7 @@ class _NumberTerm[T: numbers.Number](_BaseTerm[T], numbers.Number):
         raise ValueError("Cannot convert term to bool")
 
     @property
+    @defop
     def real(self) -> float:
         if not isinstance(self, Term):
             return self.real
@@ -1050,6 +1051,7 @@ class _NumberTerm[T: numbers.Number](_BaseTerm[T], numbers.Number):
             raise NotHandled
 
     @property
+    @defop
     def imag(self) -> float:
         if not isinstance(self, Term):
             return self.imag
@@ -1064,6 +1066,7 @@ class _NumberTerm[T: numbers.Number](_BaseTerm[T], numbers.Number):
             raise NotHandled
 
     @property
+    @defop
     def numerator(self) -> int:
         if not isinstance(self, Term):
             return self.numerator
@@ -1071,6 +1074,7 @@ class _NumberTerm[T: numbers.Number](_BaseTerm[T], numbers.Number):
             raise NotHandled
 
     @property
+    @defop
     def denominator(self) -> int:
         if not isinstance(self, Term):
             return self.denominator
-- 
2.43.0


From d0db4eb198d32ee8b226073f60724d9cbee795cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:48 +0000
Subject: [PATCH 19/77] fix: unify signatures that use typing.ParamSpec

The __bound__ of typing.ParamSpec("P") is NoneType, not None, in Python 3.12; it
was taken for an unsupported bound, also for the variables _freshen makes.
---
 effectful/internals/unification.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effectful/internals/unification.py b/effectful/internals/unification.py
index 1ab0221..50cc2af 100644
--- a/effectful/internals/unification.py
+++ b/effectful/internals/unification.py
@@ -756,7 +756,7 @@ def _(typ: typing.TypeVar):
 @canonicalize.register
 def _(typ: typing.ParamSpec):
     if (
-        typ.__bound__
+        typ.__bound__ not in (None, type(None))
         or typ.__covariant__
         or typ.__contravariant__
         or getattr(typ, "__default__", None) is not getattr(typing, "NoDefault", None)
-- 
2.43.0


From f79e8c46d6032eb64c4b57a94faa94a187385688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:30 +0000
Subject: [PATCH 20/77] fix: pass type arguments to the base classes that
 declare them

Given class H[X, Y](G[tuple[Y, X]]), H[int, str] was seen as G[tuple[int, str]];
a base using only some of the parameters raised TypeError.
---
 effectful/internals/unification.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/effectful/internals/unification.py b/effectful/internals/unification.py
index 50cc2af..5e4f8b8 100644
--- a/effectful/internals/unification.py
+++ b/effectful/internals/unification.py
@@ -790,8 +790,24 @@ def _(typ: GenericAlias):
             return canonicalize(args[0])
         else:
             raise TypeError(f"Cannot canonicalize type {typ}")
+
+    corigin, cargs = canonicalize(origin), tuple(canonicalize(a) for a in args)
+    params = getattr(origin, "__parameters__", ())
+    if isinstance(corigin, GenericAlias) and params and len(params) == len(cargs):
+        # the base class of a generic class, in terms of the parameters of the class
+        return _instantiate(corigin, dict(zip(params, cargs)))
     else:
-        return canonicalize(origin)[tuple(canonicalize(a) for a in args)]  # type: ignore
+        return corigin[cargs]  # type: ignore
+
+
+def _instantiate(typ, subs: Substitutions) -> typing.Any:
+    """Replace type variables by type arguments, all at once."""
+    if isinstance(typ, TypeVariable):
+        return subs.get(typ, typ)
+    params = tuple(_freetypevars((typ,)))
+    if not any(param in subs for param in params):
+        return typ
+    return typ[tuple(subs.get(param, param) for param in params)]
 
 
 @canonicalize.register
-- 
2.43.0


From d8b470d50696ac4739191801b3edcaaf8a2c2eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:11 +0000
Subject: [PATCH 21/77] fix: resolve the type parameters of generic TypedDicts

Fields whose type is not canonical (a: list[Q]), classes using typing.Generic and
fields inherited from a parameterized TypedDict lost their type arguments.
---
 effectful/internals/unification.py | 70 ++++++++++++++----------------
 1 file changed, 32 insertions(+), 38 deletions(-)

diff --git a/effectful/internals/unification.py b/effectful/internals/unification.py
index 5e4f8b8..edf12bb 100644
--- a/effectful/internals/unification.py
+++ b/effectful/internals/unification.py
@@ -413,30 +413,17 @@ def _is_typeddict_type(typ) -> bool:
 
 def _get_typeddict_hints(typ) -> dict[str, TypeExpressions]:
     """Get type hints for a TypedDict, substituting type params if parameterized."""
-    origin = typing.get_origin(typ)
-    if origin is not None and typing.is_typeddict(origin):
-        args = typing.get_args(typ)
-        type_params = origin.__type_params__
-        hints = typing.get_type_hints(origin)
-        param_subs = dict(zip(type_params, args))
-        return {field: substitute(hint, param_subs) for field, hint in hints.items()}
-    else:
-        hints = typing.get_type_hints(typ)
-        # For classes like Derived(Base[int]), resolve unsubstituted TypeVars
-        # from parameterized bases.
-        base_param_subs: dict[TypeVariable, TypeExpressions] = {
-            tp: arg
-            for base in types.get_original_bases(typ)
-            if (base_origin := typing.get_origin(base)) is not None
-            and hasattr(base_origin, "__type_params__")
-            for tp, arg in zip(base_origin.__type_params__, typing.get_args(base))
-        }
-        if base_param_subs:
-            hints = {
-                field: substitute(hint, base_param_subs)
-                for field, hint in hints.items()
-            }
-        return hints
+    origin = typing.get_origin(typ) or typ
+    hints = typing.get_type_hints(origin)
+    # Fields inherited from parameterized bases, like Derived(Base[int])
+    for base in types.get_original_bases(origin):
+        if _is_typeddict_type(base):
+            base_hints = typing.get_type_hints(typing.get_origin(base) or base)
+            for field, hint in _get_typeddict_hints(base).items():
+                if hints[field] == base_hints[field]:
+                    hints[field] = hint
+    param_subs = dict(zip(getattr(origin, "__parameters__", ()), typing.get_args(typ)))
+    return {field: _instantiate(hint, param_subs) for field, hint in hints.items()}
 
 
 def _unify_typeddict(typ, subtyp, subs: Substitutions) -> Substitutions:
@@ -699,20 +686,7 @@ def _(typ: type | abc.ABCMeta):
     elif typ is range:
         return collections.abc.Sequence[int]
     elif typing.is_typeddict(typ):
-        hints = typing.get_type_hints(typ)
-        # Idempotency: if all field types are already canonical, return same object
-        if all(canonicalize(h) == h for h in hints.values()):
-            return typ
-        # Otherwise, create a fresh TypedDict with canonicalized field types
-        optional_keys: frozenset[str] = getattr(typ, "__optional_keys__", frozenset())
-        canon_fields: dict[str, type] = {}
-        for field, ftype in hints.items():
-            ct = canonicalize(ftype)
-            if field in optional_keys:
-                canon_fields[field] = typing.NotRequired[ct]  # type: ignore[assignment]
-            else:
-                canon_fields[field] = ct  # type: ignore[assignment]
-        return typing.TypedDict(typ.__name__, canon_fields)  # type: ignore[operator]
+        return _canonicalize_typeddict(typ)
     elif typ is types.GeneratorType:
         return collections.abc.Generator
     elif typ in {types.FunctionType, types.BuiltinFunctionType, types.LambdaType}:
@@ -736,6 +710,24 @@ def _(typ: type | abc.ABCMeta):
         raise TypeError(f"Cannot canonicalize type {typ}.")
 
 
+def _canonicalize_typeddict(typ) -> typing.Any:
+    hints = _get_typeddict_hints(typ)
+    # Idempotency: if all field types are already canonical, return same object
+    if all(canonicalize(h) == h for h in hints.values()):
+        return typ
+    # Otherwise, create a fresh TypedDict with canonicalized field types
+    origin = typing.get_origin(typ) or typ
+    optional_keys: frozenset[str] = getattr(origin, "__optional_keys__", frozenset())
+    canon_fields: dict[str, type] = {}
+    for field, ftype in hints.items():
+        ct = canonicalize(ftype)
+        if field in optional_keys:
+            canon_fields[field] = typing.NotRequired[ct]  # type: ignore[assignment]
+        else:
+            canon_fields[field] = ct  # type: ignore[assignment]
+    return typing.TypedDict(origin.__name__, canon_fields)  # type: ignore[operator]
+
+
 @canonicalize.register
 def _(typ: types.EllipsisType | None):
     return typ
@@ -785,6 +777,8 @@ def _(typ: GenericAlias):
     origin, args = typing.get_origin(typ), typing.get_args(typ)
     if origin is tuple and len(args) == 2 and args[-1] is Ellipsis:  # Variadic tuple
         return collections.abc.Sequence[canonicalize(args[0])]  # type: ignore
+    elif typing.is_typeddict(origin):
+        return _canonicalize_typeddict(typ)
     elif isinstance(origin, typing._SpecialForm):
         if len(args) == 1:
             return canonicalize(args[0])
-- 
2.43.0


From d073da39f319a3b8e6c682d35253236394138369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:27 +0000
Subject: [PATCH 22/77] fix: unify two type variables that are already bound
 through their bindings

---
 effectful/internals/unification.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/effectful/internals/unification.py b/effectful/internals/unification.py
index edf12bb..6b7b5b8 100644
--- a/effectful/internals/unification.py
+++ b/effectful/internals/unification.py
@@ -322,6 +322,10 @@ def _unify_typevar(typ, subtyp, subs: Substitutions) -> Substitutions:
                 raise TypeError(f"Cannot unify {typ} with {subtyp} given {subs}.")
 
     if isinstance(typ, TypeVariable) and isinstance(subtyp, TypeVariable):
+        if typ in subs and (
+            subtyp in subs or getattr(subtyp, "__bound__", None) is None
+        ):
+            return unify(subs[typ], subs.get(subtyp, subtyp), subs)
         return {typ: subtyp, **subs}
     elif isinstance(typ, TypeVariable) and not isinstance(subtyp, TypeVariable):
         return unify(subs.get(typ, subtyp), subtyp, {typ: subtyp, **subs})
-- 
2.43.0


From dc5699c30ba38798e2a034cb46566dc7eb8a6360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:28 +0000
Subject: [PATCH 23/77] fix: syntactic_eq of a sequence and a string or bytes
 is symmetric

---
 effectful/ops/syntax.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/effectful/ops/syntax.py b/effectful/ops/syntax.py
index 6ec9529..ab5ecb3 100644
--- a/effectful/ops/syntax.py
+++ b/effectful/ops/syntax.py
@@ -900,6 +900,7 @@ def _(x: collections.abc.Sequence, other) -> bool:
     else:
         return (
             isinstance(other, collections.abc.Sequence)
+            and not isinstance(other, str | bytes)
             and len(x) == len(other)
             and all(syntactic_eq(a, b) for a, b in zip(x, other))
         )
-- 
2.43.0


From b6f2da48e83f3d640fad82ca31e50138c955d970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:28 +0000
Subject: [PATCH 24/77] fix: syntactic_eq of a value and a term invokes no
 operation

---
 effectful/handlers/torch.py | 1 +
 effectful/ops/syntax.py     | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/effectful/handlers/torch.py b/effectful/handlers/torch.py
index ad25173..53feb32 100644
--- a/effectful/handlers/torch.py
+++ b/effectful/handlers/torch.py
@@ -716,6 +716,7 @@ def vmap(func, *args, **kwargs):
 def _(x: torch.Tensor, other) -> bool:
     return (
         isinstance(other, torch.Tensor)
+        and not isinstance(other, Term)
         and x.shape == other.shape
         and bool((x == other).all())
     )
diff --git a/effectful/ops/syntax.py b/effectful/ops/syntax.py
index ab5ecb3..47f305a 100644
--- a/effectful/ops/syntax.py
+++ b/effectful/ops/syntax.py
@@ -909,7 +909,8 @@ def _(x: collections.abc.Sequence, other) -> bool:
 @syntactic_eq.register(object)
 @syntactic_eq.register(str | bytes)
 def _(x: object, other) -> bool:
-    return x == other
+    # The == of a term may be an operation, which must not be invoked here
+    return not isinstance(other, Term) and x == other
 
 
 class ObjectInterpretation[T, V](collections.abc.Mapping):
-- 
2.43.0


From 59c2d0541e58af9114435d53a131c848736b12ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:23 +0000
Subject: [PATCH 25/77] fix: syntactic_eq of bytes and other sequences of
 integers is symmetric

---
 effectful/ops/syntax.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/effectful/ops/syntax.py b/effectful/ops/syntax.py
index 47f305a..f9d21f3 100644
--- a/effectful/ops/syntax.py
+++ b/effectful/ops/syntax.py
@@ -906,8 +906,14 @@ def _(x: collections.abc.Sequence, other) -> bool:
         )
 
 
-@syntactic_eq.register(object)
 @syntactic_eq.register(str | bytes)
+def _(x: str | bytes, other) -> bool:
+    if isinstance(other, collections.abc.Sequence):
+        return isinstance(other, str | bytes) and x == other
+    return not isinstance(other, Term) and x == other
+
+
+@syntactic_eq.register(object)
 def _(x: object, other) -> bool:
     # The == of a term may be an operation, which must not be invoked here
     return not isinstance(other, Term) and x == other
-- 
2.43.0


From c5b843f70a03a1c130e61e79d780c2b0da110dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:12 +0000
Subject: [PATCH 26/77] fix: syntactic_eq of a value and an array is a truth
 value

---
 effectful/ops/syntax.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/effectful/ops/syntax.py b/effectful/ops/syntax.py
index f9d21f3..c794cc5 100644
--- a/effectful/ops/syntax.py
+++ b/effectful/ops/syntax.py
@@ -914,9 +914,11 @@ def _(x: str | bytes, other) -> bool:
 
 
 @syntactic_eq.register(object)
-def _(x: object, other) -> bool:
-    # The == of a term may be an operation, which must not be invoked here
-    return not isinstance(other, Term) and x == other
+def _syntactic_eq_object(x: object, other) -> bool:
+    # The == of a term may be an operation, which must not be invoked here, and
+    # the == of an array is not a truth value
+    rule = syntactic_eq.dispatch(type(other))
+    return x == other if rule is _syntactic_eq_object else rule(other, x)
 
 
 class ObjectInterpretation[T, V](collections.abc.Mapping):
-- 
2.43.0


From 15ddd810a648e663658c97083881e17c66191258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:25 +0000
Subject: [PATCH 27/77] fix: evaluation keeps the identity of dataclass
 instances it does not change

---
 effectful/internals/product_n.py | 19 +++++++++++--------
 effectful/ops/semantics.py       | 22 +++++++++++-----------
 2 files changed, 22 insertions(+), 19 deletions(-)

diff --git a/effectful/internals/product_n.py b/effectful/internals/product_n.py
index 7c17149..afc7fd0 100644
--- a/effectful/internals/product_n.py
+++ b/effectful/internals/product_n.py
@@ -92,14 +92,17 @@ def map_structure(func, expr):
     elif isinstance(expr, collections.abc.ValuesView):
         return [map_structure(func, item) for item in expr]
     elif dataclasses.is_dataclass(expr) and not isinstance(expr, type):
-        return dataclasses.replace(
-            expr,
-            **{
-                field.name: map_structure(func, getattr(expr, field.name))
-                for field in dataclasses.fields(expr)
-                if field.init
-            },
-        )
+        fields = {
+            field.name: getattr(expr, field.name)
+            for field in dataclasses.fields(expr)
+            if field.init
+        }
+        results = {
+            name: map_structure(func, value) for name, value in fields.items()
+        }
+        if all(results[name] is value for name, value in fields.items()):
+            return expr
+        return dataclasses.replace(expr, **results)
     else:
         return func(expr)
 
diff --git a/effectful/ops/semantics.py b/effectful/ops/semantics.py
index 353d963..d868d8d 100644
--- a/effectful/ops/semantics.py
+++ b/effectful/ops/semantics.py
@@ -155,17 +155,17 @@ def evaluate[T](
 @evaluate.register(memoryview)
 def _evaluate_object[T](expr: T, **kwargs) -> T:
     if dataclasses.is_dataclass(expr) and not isinstance(expr, type):
-        return typing.cast(
-            T,
-            dataclasses.replace(
-                expr,
-                **{
-                    field.name: evaluate(getattr(expr, field.name))
-                    for field in dataclasses.fields(expr)
-                    if field.init
-                },
-            ),
-        )
+        fields = {
+            field.name: getattr(expr, field.name)
+            for field in dataclasses.fields(expr)
+            if field.init
+        }
+        results = {name: evaluate(value) for name, value in fields.items()}
+        # Evaluation must not change the identity of an instance without terms,
+        # which has operations of its own.
+        if all(results[name] is value for name, value in fields.items()):
+            return expr
+        return typing.cast(T, dataclasses.replace(expr, **results))
     return expr
 
 
-- 
2.43.0


From dd8c64ce36141406d5c84c1097c3c82eae8edc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:20 +0000
Subject: [PATCH 28/77] fix: handler classes inherit implementations in method
 resolution order

---
 effectful/ops/syntax.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/effectful/ops/syntax.py b/effectful/ops/syntax.py
index c794cc5..73b897f 100644
--- a/effectful/ops/syntax.py
+++ b/effectful/ops/syntax.py
@@ -978,11 +978,11 @@ class ObjectInterpretation[T, V](collections.abc.Mapping):
     @classmethod
     def __init_subclass__(cls, **kwargs):
         super().__init_subclass__(**kwargs)
-        cls.implementations = dict(cls.__dict__.get("_own_implementations", {}))
+        cls.implementations = {}
 
-        for sup in cls.mro():
+        for sup in reversed(cls.mro()):
             if issubclass(sup, ObjectInterpretation):
-                cls.implementations = {**sup.implementations, **cls.implementations}
+                cls.implementations.update(sup.__dict__.get("_own_implementations", {}))
 
     def __iter__(self):
         return iter(self.implementations)
-- 
2.43.0


From 654513a4bdb905be0c7bf8ecb0ff8044db33ee9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:56 +0000
Subject: [PATCH 29/77] fix: never print two operations of a term with the same
 name

---
 effectful/ops/types.py | 60 ++++++++++++++++++++++++------------------
 1 file changed, 34 insertions(+), 26 deletions(-)

diff --git a/effectful/ops/types.py b/effectful/ops/types.py
index 940bdb8..cd0a54f 100644
--- a/effectful/ops/types.py
+++ b/effectful/ops/types.py
@@ -619,6 +619,31 @@ if typing.TYPE_CHECKING:
     assert isinstance(Operation.define, _OperationDefine)
 
 
+class _OperationNames:
+    """Names for the operations in a printed term.
+
+    Every operation has one name, and no other operation has the same name.
+
+    """
+
+    def __init__(self):
+        self._names: dict[Operation, str] = {}
+        self._used: set[str] = set()
+        self._counts: dict[str, int] = collections.defaultdict(int)
+
+    def __call__(self, op: Operation) -> str:
+        if op not in self._names:
+            while True:
+                n = self._counts[op.__name__]
+                self._counts[op.__name__] += 1
+                name = op.__name__ if n == 0 else f"{op.__name__}!{n}"
+                if name not in self._used:
+                    break
+            self._names[op] = name
+            self._used.add(name)
+        return self._names[op]
+
+
 class Term[T](abc.ABC):
     """A term in an effectful computation is a is a tree of :class:`Operation`
     applied to values.
@@ -652,20 +677,7 @@ class Term[T](abc.ABC):
         from effectful.internals.runtime import interpreter
         from effectful.ops.semantics import apply, evaluate
 
-        fresh: dict[str, dict[Operation, int]] = collections.defaultdict(dict)
-
-        def op_str(op):
-            """Return a unique (in this term) name for the operation."""
-            name = op.__name__
-            if name not in fresh:
-                fresh[name] = {op: 0}
-            if op not in fresh[name]:
-                fresh[name][op] = len(fresh[name])
-
-            n = fresh[name][op]
-            if n == 0:
-                return name
-            return f"{name}!{n}"
+        op_str = _OperationNames()
 
         def term_str(term):
             if isinstance(term, Operation):
@@ -709,20 +721,16 @@ try:
 
     @register_pretty(Term)
     def pretty_term(value: Term, ctx):
-        default_op_name = str(value.op)
-
-        fresh_by_name = ctx.get("fresh_by_name") or {}
-        new_ctx = ctx.assoc("fresh_by_name", fresh_by_name)
-
-        fresh = fresh_by_name.get(default_op_name, {})
-        fresh_by_name[default_op_name] = fresh
-
-        fresh_ctr = fresh.get(value.op, len(fresh))
-        fresh[value.op] = fresh_ctr
-
-        op_name = str(value.op) + (f"!{fresh_ctr}" if fresh_ctr > 0 else "")
+        op_names = ctx.get("op_names") or _OperationNames()
+        new_ctx = ctx.assoc("op_names", op_names)
+        op_name = op_names(value.op)
         return pretty_call(new_ctx, op_name, *value.args, **value.kwargs)
 
+    @register_pretty(Operation)
+    def pretty_operation(value: Operation, ctx):
+        op_names = ctx.get("op_names")
+        return repr(value) if op_names is None else op_names(value)
+
 except ImportError:
     pass
 
-- 
2.43.0


From 458c7cbb9fcce5a0077d4e9f96e38569e7a4edf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:17 +0000
Subject: [PATCH 30/77] fix: distinguish same-named dimensions in the text of a
 tensor

---
 effectful/handlers/torch.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/effectful/handlers/torch.py b/effectful/handlers/torch.py
index 53feb32..a8c9c55 100644
--- a/effectful/handlers/torch.py
+++ b/effectful/handlers/torch.py
@@ -15,7 +15,7 @@ from effectful.internals.runtime import interpreter
 from effectful.internals.tensor_utils import _desugar_tensor_index
 from effectful.ops.semantics import apply, evaluate, fvsof, handler, typeof
 from effectful.ops.syntax import Scoped, defdata, defop, syntactic_eq
-from effectful.ops.types import Expr, NotHandled, Operation, Term
+from effectful.ops.types import Expr, NotHandled, Operation, Term, _OperationNames
 
 # + An element of a tensor index expression.
 IndexElement = None | int | slice | Sequence[int] | EllipsisType | torch.Tensor
@@ -506,10 +506,14 @@ class _EagerTensorTerm(torch.Tensor):
     def op(self) -> Operation[..., torch.Tensor]:
         return torch_getitem
 
+    def _key_str(self) -> str:
+        names = _OperationNames()
+        return ", ".join(
+            f"{names(k.op)}()" if isinstance(k, Term) else str(k) for k in self.args[1]
+        )
+
     def __str__(self):
-        tensor_str = str(self.args[0])
-        key_str = ", ".join(str(k) for k in self.args[1])
-        return f"{tensor_str}[{key_str}]"
+        return f"{self.args[0]}[{self._key_str()}]"
 
     def __repr__(self):
         return str(self)
@@ -527,7 +531,7 @@ class _EagerTensorTerm(torch.Tensor):
         return (
             format(torch.Tensor(self), format_spec)
             + "["
-            + ", ".join(str(a) for a in self.args[1])
+            + self._key_str()
             + "]"
         )
 
-- 
2.43.0


From 7d22bd03cc098864a74102e1e60e778c212ddc3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:15 +0000
Subject: [PATCH 31/77] fix: bind a name that indexes several dimensions of a
 tensor

---
 effectful/handlers/torch.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/effectful/handlers/torch.py b/effectful/handlers/torch.py
index a8c9c55..2eaabaa 100644
--- a/effectful/handlers/torch.py
+++ b/effectful/handlers/torch.py
@@ -180,6 +180,11 @@ def _bind_dims_tensor(
     ):
         raise NotHandled
 
+    # a name that indexes several dimensions selects their diagonal
+    indices = [a.op for a in value.args[1] if isinstance(a, Term)]
+    if len(set(indices)) < len(indices):
+        value = _partial_eval(value)
+
     tensor = value.args[0]
     dims = value.args[1]
     assert isinstance(dims, Sequence)
-- 
2.43.0


From 876da2183cfabf08c54905e07447cb46a8d7a98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:50 +0000
Subject: [PATCH 32/77] fix: torch transforms of several arguments, trees of
 arguments and trees of results

---
 effectful/handlers/torch.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/effectful/handlers/torch.py b/effectful/handlers/torch.py
index 2eaabaa..67611b4 100644
--- a/effectful/handlers/torch.py
+++ b/effectful/handlers/torch.py
@@ -615,19 +615,17 @@ def _indexed_func_wrapper[**P, S, T](
         tensors = pytree.tree_map(lambda t, i: deindex_tensor(t, i), ret, indexes)
         return tensors
 
-    # reapply the stored indexes to a result
-    def reindex(ret, starting_dim=0):
+    # reapply the stored indexes to a result, in which every tensor of the
+    # function's result may be replaced by a tree of tensors
+    def reindex(ret, starting_dim=0, select=lambda i: i):
         def index_expr(i):
             return (slice(None),) * (starting_dim) + tuple(x() for x in i.indexes)
 
-        if not pytree.tree_is_leaf(ret):
-            indexed_ret = pytree.tree_map(
-                lambda t, i: torch_getitem(t, index_expr(i)), ret, indexes
-            )
-        else:
-            indexed_ret = torch_getitem(ret, index_expr(indexes))
-
-        return indexed_ret
+        return pytree.tree_map(
+            lambda i, ts: pytree.tree_map(lambda t: torch_getitem(t, index_expr(i)), ts),
+            select(indexes),
+            ret,
+        )
 
     return deindexed, reindex
 
@@ -672,7 +670,9 @@ def jvp(func, *args, **kwargs):
     # hide deindexed_func from _register_torch_op
     jvp_func = functools.partial(torch.func.jvp, deindexed_func)
     ret = _register_torch_op(jvp_func)(*args, **kwargs)
-    return pytree.tree_map(reindex, ret)
+    if kwargs.get("has_aux", False):
+        return reindex(ret, select=lambda i: (i[0], i[0], i[1]))
+    return reindex(ret, select=lambda i: (i, i))
 
 
 @functools.wraps(torch.func.vjp)
-- 
2.43.0


From ff6474ed2c9afb18b3896703f8835f393808f371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:15 +0000
Subject: [PATCH 33/77] fix: out_dims of vmap counts the positional dimensions
 of a result with named ones

---
 effectful/handlers/torch.py | 64 ++++++++++++++++++++++++++-----------
 1 file changed, 45 insertions(+), 19 deletions(-)

diff --git a/effectful/handlers/torch.py b/effectful/handlers/torch.py
index 67611b4..a1185e9 100644
--- a/effectful/handlers/torch.py
+++ b/effectful/handlers/torch.py
@@ -591,7 +591,7 @@ class _EagerTensorTerm(torch.Tensor):
 
 def _indexed_func_wrapper[**P, S, T](
     func: Callable[P, T],
-) -> tuple[Callable[P, S], Callable[[S], T]]:
+) -> tuple[Callable[P, S], Callable[[S], T], Callable[[S, Any], T]]:
     # index expressions for the result of the function
     indexes = None
 
@@ -617,17 +617,41 @@ def _indexed_func_wrapper[**P, S, T](
 
     # reapply the stored indexes to a result, in which every tensor of the
     # function's result may be replaced by a tree of tensors
-    def reindex(ret, starting_dim=0, select=lambda i: i):
-        def index_expr(i):
-            return (slice(None),) * (starting_dim) + tuple(x() for x in i.indexes)
-
+    def reindex(ret, select=lambda i: i):
         return pytree.tree_map(
-            lambda i, ts: pytree.tree_map(lambda t: torch_getitem(t, index_expr(i)), ts),
+            lambda i, ts: pytree.tree_map(lambda t: reindex_tensor(t, i), ts),
             select(indexes),
             ret,
         )
 
-    return deindexed, reindex
+    # reapply the stored indexes to a mapped result, whose mapped dimension leads,
+    # and move the mapped dimension where it belongs among the positional ones
+    def reindex_mapped(ret, out_dims):
+        def reindex_tensor_mapped(t, i, dim):
+            if dim is None:
+                return reindex_tensor(t, i)
+            t = reindex_tensor(t, i, starting_dim=1)
+            return t if dim == 0 else torch.movedim(t, 0, dim)
+
+        leaves, spec = pytree.tree_flatten(indexes)
+        if spec.is_leaf():
+            dims = pytree.tree_leaves(out_dims)
+        else:
+            dims = pytree._broadcast_to_and_flatten(out_dims, spec)
+            assert dims is not None
+        return pytree.tree_unflatten(
+            [
+                reindex_tensor_mapped(t, i, d)
+                for t, i, d in zip(pytree.tree_leaves(ret), leaves, dims, strict=True)
+            ],
+            spec,
+        )
+
+    def reindex_tensor(t, i, starting_dim=0):
+        key = (slice(None),) * starting_dim + tuple(x() for x in i.indexes)
+        return torch_getitem(t, key)
+
+    return deindexed, reindex, reindex_mapped
 
 
 @functools.wraps(torch.func.grad)
@@ -637,35 +661,35 @@ def grad(func, *args, **kwargs):
     with indexed arguments.
 
     """
-    (deindexed_func, reindex) = _indexed_func_wrapper(func)
+    (deindexed_func, reindex, _) = _indexed_func_wrapper(func)
     f = _register_torch_op(torch.func.grad(deindexed_func, *args, **kwargs))
     return lambda *a, **k: reindex(f(*a, **k))
 
 
 @functools.wraps(torch.func.jacfwd)
 def jacfwd(func, *args, **kwargs):
-    (deindexed_func, reindex) = _indexed_func_wrapper(func)
+    (deindexed_func, reindex, _) = _indexed_func_wrapper(func)
     jacobian = _register_torch_op(torch.func.jacfwd(deindexed_func, *args, **kwargs))
     return lambda *a, **k: reindex(jacobian(*a, **k))
 
 
 @functools.wraps(torch.func.jacrev)
 def jacrev(func, *args, **kwargs):
-    (deindexed_func, reindex) = _indexed_func_wrapper(func)
+    (deindexed_func, reindex, _) = _indexed_func_wrapper(func)
     jacobian = _register_torch_op(torch.func.jacrev(deindexed_func, *args, **kwargs))
     return lambda *a, **k: reindex(jacobian(*a, **k))
 
 
 @functools.wraps(torch.func.hessian)
 def hessian(func, *args, **kwargs):
-    (deindexed_func, reindex) = _indexed_func_wrapper(func)
+    (deindexed_func, reindex, _) = _indexed_func_wrapper(func)
     h = _register_torch_op(torch.func.hessian(deindexed_func, *args, **kwargs))
     return lambda *a, **k: reindex(h(*a, **k))
 
 
 @functools.wraps(torch.func.jvp)
 def jvp(func, *args, **kwargs):
-    (deindexed_func, reindex) = _indexed_func_wrapper(func)
+    (deindexed_func, reindex, _) = _indexed_func_wrapper(func)
 
     # hide deindexed_func from _register_torch_op
     jvp_func = functools.partial(torch.func.jvp, deindexed_func)
@@ -712,13 +736,15 @@ def vjp(func, *indexed_primals, **kwargs):
 
 
 @functools.wraps(torch.func.vmap)
-def vmap(func, *args, **kwargs):
-    (deindexed_func, reindex) = _indexed_func_wrapper(func)
-    vmap_func = _register_torch_op(torch.func.vmap(deindexed_func, *args, **kwargs))
-    # vmap_func returns tensors of shape [vmap_dim, indexed_dim_1, ...,
-    # indexed_dim_n, pos_dim_1, ..., pos_dim_m], so we reapply indexes starting
-    # at dim 1
-    return lambda *a, **k: reindex(vmap_func(*a, **k), starting_dim=1)
+def vmap(func, in_dims=0, out_dims=0, *args, **kwargs):
+    (deindexed_func, _, reindex_mapped) = _indexed_func_wrapper(func)
+    # the mapped dimension of a result is kept in front until its indexes, which
+    # precede its positional dimensions, are reapplied
+    leading = pytree.tree_map(lambda d: d if d is None else 0, out_dims)
+    vmap_func = _register_torch_op(
+        torch.func.vmap(deindexed_func, in_dims, leading, *args, **kwargs)
+    )
+    return lambda *a, **k: reindex_mapped(vmap_func(*a, **k), out_dims)
 
 
 @syntactic_eq.register
-- 
2.43.0


From b01ed151ff818d9dbb0028e1d1147004a3a6c82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:46 +0000
Subject: [PATCH 34/77] fix: vjp of trees of primals, with has_aux and with
 cotangents in any order of dimensions

---
 effectful/handlers/torch.py | 49 ++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 25 deletions(-)

diff --git a/effectful/handlers/torch.py b/effectful/handlers/torch.py
index a1185e9..20e256e 100644
--- a/effectful/handlers/torch.py
+++ b/effectful/handlers/torch.py
@@ -700,39 +700,38 @@ def jvp(func, *args, **kwargs):
 
 
 @functools.wraps(torch.func.vjp)
-def vjp(func, *indexed_primals, **kwargs):
-    unpacked_primals = []
-    for t in indexed_primals:
-        indices = list(sizesof(t).keys())
-        unpacked = bind_dims(t, *indices)
-        unpacked_primals.append((unpacked, indices))
+def vjp(func, *indexed_primals, has_aux=False):
+    (deindexed_func, reindex, _) = _indexed_func_wrapper(func)
 
-    indexed_result = None
+    indexed, spec = pytree.tree_flatten(indexed_primals)
+    indices = [tuple(sizesof(t).keys()) for t in indexed]
+    primals = [bind_dims(t, *i) for t, i in zip(indexed, indices)]
 
     def repack_primals(primals):
-        return [
-            torch_getitem(p, tuple(x() for x in unpacked_primals[i][1]))
-            for i, p in enumerate(primals)
-        ]
-
-    def wrapper(*primals):
-        nonlocal indexed_result
-        indexed_result = func(*repack_primals(primals))
-        return pytree.tree_map(
-            lambda t: bind_dims(t, *list(sizesof(t).keys())), indexed_result
+        return pytree.tree_unflatten(
+            [
+                torch_getitem(p, tuple(x() for x in i))
+                for p, i in zip(pytree.tree_leaves(primals), indices, strict=True)
+            ],
+            spec,
         )
 
-    unindexed_primals = [t[0] for t in unpacked_primals]
-    _, vjpfunc = torch.func.vjp(wrapper, *unindexed_primals, **kwargs)
+    ret = torch.func.vjp(
+        lambda *p: deindexed_func(*repack_primals(p)),
+        *pytree.tree_unflatten(primals, spec),
+        has_aux=has_aux,
+    )
+    vjpfunc = ret[1]
+    indexed_result, *aux = reindex((ret[0], *ret[2:]), lambda i: i if has_aux else (i,))
 
-    def vjpfunc_wrapper(*tangents):
-        unindexed_tangents = pytree.tree_map(
-            lambda t: bind_dims(t, *list(sizesof(t).keys())), tangents
+    def vjpfunc_wrapper(cotangents, *args, **kwargs):
+        # the dimensions of a cotangent are in the order of those of the result
+        unindexed_cotangents = pytree.tree_map(
+            lambda r, t: bind_dims(t, *sizesof(r).keys()), indexed_result, cotangents
         )
-        grads = vjpfunc(*unindexed_tangents)
-        return repack_primals(grads)
+        return repack_primals(vjpfunc(unindexed_cotangents, *args, **kwargs))
 
-    return indexed_result, vjpfunc_wrapper
+    return indexed_result, vjpfunc_wrapper, *aux
 
 
 @functools.wraps(torch.func.vmap)
-- 
2.43.0


From 35acfde429e0c42be82f8f7eb93c85b323842800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:28 +0000
Subject: [PATCH 35/77] fix: a jitted function returns the named dimensions of
 the trace it runs

---
 effectful/handlers/jax/_handlers.py | 60 +++++++++++++++++------------
 1 file changed, 35 insertions(+), 25 deletions(-)

diff --git a/effectful/handlers/jax/_handlers.py b/effectful/handlers/jax/_handlers.py
index 308cdb7..7594e82 100644
--- a/effectful/handlers/jax/_handlers.py
+++ b/effectful/handlers/jax/_handlers.py
@@ -232,40 +232,50 @@ def jit(f, *args, **kwargs):
     return lambda *args, **kwargs: f_reindex(f_noindex_jitted(*args, **kwargs))
 
 
+@jax.tree_util.register_pytree_node_class
+class _Deindexed:
+    """An array and the named indexes that its leading dimensions stand for.
+
+    The indexes are part of the structure of a result, so that a compiled
+    function returns the ones of the trace that it runs.
+
+    """
+
+    def __init__(self, array, indexes: tuple[Operation[[], jax.Array], ...]):
+        self.array = array
+        self.indexes = indexes
+
+    def tree_flatten(self):
+        return (self.array,), self.indexes
+
+    @classmethod
+    def tree_unflatten(cls, indexes, children):
+        return cls(*children, indexes)
+
+
 def _indexed_func_wrapper[**P, S, T](
     func: Callable[P, T], getitem, sizesof
 ) -> tuple[Callable[P, S], Callable[[S], T]]:
-    # index expressions for the result of the function
-    indexes = None
-
-    # hide index lists from jax.tree.mapping
-    class Indexes:
-        def __init__(self, sizes):
-            self.sizes = sizes
-            self.indexes = list(sizes.keys())
-
-    # strip named indexes from the result of the function and store them
+    # strip named indexes from the result of the function and store them next to
+    # the arrays
     def deindexed(*args, **kwargs):
-        nonlocal indexes
+        def deindex_tensor(t):
+            sizes = sizesof(t)
+            t_ = bind_dims(t, *sizes.keys())
+            assert all(t_.shape[j] == sizes[v] for j, v in enumerate(sizes))
+            return _Deindexed(t_, tuple(sizes.keys()))
 
-        def deindex_tensor(t, i):
-            t_ = bind_dims(t, *i.sizes.keys())
-            assert all(t_.shape[j] == i.sizes[v] for j, v in enumerate(i.sizes))
-            return t_
-
-        ret = func(*args, **kwargs)
-        indexes = jax.tree.map(lambda t: Indexes(sizesof(t)), ret)
-        tensors = jax.tree.map(lambda t, i: deindex_tensor(t, i), ret, indexes)
-        return tensors
+        return jax.tree.map(deindex_tensor, func(*args, **kwargs))
 
     # reapply the stored indexes to a result
     def reindex(ret, starting_dim=0):
-        def index_expr(i):
-            return (slice(None),) * (starting_dim) + tuple(x() for x in i.indexes)
-
-        indexed_ret = jax.tree.map(lambda t, i: getitem(t, index_expr(i)), ret, indexes)
+        def reindex_tensor(d):
+            key = (slice(None),) * (starting_dim) + tuple(x() for x in d.indexes)
+            return getitem(d.array, key)
 
-        return indexed_ret
+        return jax.tree.map(
+            reindex_tensor, ret, is_leaf=lambda d: isinstance(d, _Deindexed)
+        )
 
     return deindexed, reindex
 
-- 
2.43.0


From b4badb45057217e030b0ed7410727953fbc8f8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:28 +0000
Subject: [PATCH 36/77] fix: transpose of a named array takes axes like
 jax.Array.transpose

---
 effectful/handlers/jax/_terms.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/effectful/handlers/jax/_terms.py b/effectful/handlers/jax/_terms.py
index 8120629..10a58e7 100644
--- a/effectful/handlers/jax/_terms.py
+++ b/effectful/handlers/jax/_terms.py
@@ -396,8 +396,10 @@ class _ArrayTerm(Term[jax.Array]):
             cast(jax.Array, self), offset=offset, axis1=axis1, axis2=axis2, dtype=dtype
         )
 
-    def transpose(self, axes=None):
-        return jnp.transpose(cast(jax.Array, self), axes=axes)
+    def transpose(self, *axes):
+        if len(axes) == 1 and (axes[0] is None or isinstance(axes[0], tuple | list)):
+            axes = axes[0]
+        return jnp.transpose(cast(jax.Array, self), axes=axes or None)
 
     def var(self, axis=None, keepdims=False, ddof=0, *, where=None):
         return jnp.var(
-- 
2.43.0


From 4ccecddfd5df58df1a7acfa357a8af0d8c212259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:03 +0000
Subject: [PATCH 37/77] fix: NumPy values defer to arrays with named dimensions
 in operators

---
 effectful/handlers/jax/_terms.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/effectful/handlers/jax/_terms.py b/effectful/handlers/jax/_terms.py
index 10a58e7..b2c34d0 100644
--- a/effectful/handlers/jax/_terms.py
+++ b/effectful/handlers/jax/_terms.py
@@ -69,6 +69,9 @@ def _embed_array(ty, op, *args, **kwargs):
 
 
 class _ArrayTerm(Term[jax.Array]):
+    # like jax.Array, take precedence over the operators of NumPy values
+    __array_priority__ = 100
+
     def __init__(self, op: Operation[..., jax.Array], *args: Expr, **kwargs: Expr):
         self._op = op
         self._args = args
-- 
2.43.0


From 0be405d57fe29eb6e1a384738014eb1ccf88376a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:20 +0000
Subject: [PATCH 38/77] fix: sizes of named dimensions of an array indexed with
 None or Ellipsis

---
 effectful/handlers/jax/_handlers.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/effectful/handlers/jax/_handlers.py b/effectful/handlers/jax/_handlers.py
index 7594e82..10be6a9 100644
--- a/effectful/handlers/jax/_handlers.py
+++ b/effectful/handlers/jax/_handlers.py
@@ -11,6 +11,7 @@ except ImportError:
     raise ImportError("JAX is required to use effectful.handlers.jax")
 
 from effectful.internals.runtime import interpreter
+from effectful.internals.tensor_utils import _desugar_tensor_index
 from effectful.ops.semantics import apply, evaluate, fvsof, typeof
 from effectful.ops.syntax import (
     Scoped,
@@ -65,9 +66,11 @@ def sizesof(value) -> Mapping[Operation[[], jax.Array], int]:
 
     def _getitem_sizeof(x: jax.Array, key: tuple[Expr[IndexElement], ...]):
         if is_eager_array(x):
-            for i, k in enumerate(key):
+            shape, key_ = _desugar_tensor_index(x.shape, key)
+
+            for i, k in enumerate(key_):
                 if isinstance(k, Term) and len(k.args) == 0 and len(k.kwargs) == 0:
-                    update_sizes(sizes, k.op, x.shape[i])
+                    update_sizes(sizes, k.op, shape[i])
         return defdata(jax_getitem, x, key)
 
     def _apply(op, *args, **kwargs):
-- 
2.43.0


From f8a18a18c6b0a8891fe722ebb08f68ebdaef1299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:28 +0000
Subject: [PATCH 39/77] fix: gather the entries of equal index sets in the same
 order

---
 effectful/handlers/indexed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effectful/handlers/indexed.py b/effectful/handlers/indexed.py
index 2e97b8b..2e63d7a 100644
--- a/effectful/handlers/indexed.py
+++ b/effectful/handlers/indexed.py
@@ -228,7 +228,7 @@ def gather(value: torch.Tensor, indexset: IndexSet) -> torch.Tensor:
     """
     indexset_vars = {name_to_sym(name): inds for name, inds in indexset.items()}
     binding = {
-        k: functools.partial(lambda v: v, torch.tensor(list(indexset_vars[k]))[k()])
+        k: functools.partial(lambda v: v, torch.tensor(sorted(indexset_vars[k]))[k()])
         for k in sizesof(value).keys()
         if k in indexset_vars
     }
-- 
2.43.0


From 79f0abc12d1bbf1152fd1596bb4ea953efcfa6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:57 +0000
Subject: [PATCH 40/77] fix: keep the degrees of freedom of a StudentT

---
 effectful/handlers/pyro.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/effectful/handlers/pyro.py b/effectful/handlers/pyro.py
index 2e79242..469f913 100644
--- a/effectful/handlers/pyro.py
+++ b/effectful/handlers/pyro.py
@@ -580,7 +580,6 @@ def _embed_masked(d: dist.MaskedDistribution) -> Term[TorchDistribution]:
 @evaluate.register(dist.Logistic)
 @evaluate.register(dist.LogisticNormal)
 @evaluate.register(dist.Normal)
-@evaluate.register(dist.StudentT)
 def _embed_loc_scale(d: TorchDistribution) -> Term[TorchDistribution]:
     with interpreter({}):
         loc_raw = d.loc
@@ -592,6 +591,20 @@ def _embed_loc_scale(d: TorchDistribution) -> Term[TorchDistribution]:
     return _register_distribution_op(type(d))(loc, scale)
 
 
+@evaluate.register
+def _embed_student_t(d: dist.StudentT) -> Term[TorchDistribution]:
+    with interpreter({}):
+        df_raw = d.df
+        loc_raw = d.loc
+        scale_raw = d.scale
+
+    df = evaluate(df_raw)
+    loc = evaluate(loc_raw)
+    scale = evaluate(scale_raw)
+
+    return _register_distribution_op(dist.StudentT)(df, loc, scale)
+
+
 @evaluate.register(dist.Bernoulli)
 @evaluate.register(dist.Categorical)
 @evaluate.register(dist.ContinuousBernoulli)
-- 
2.43.0


From 01452faffb21c2b12ca976a2751b651e0af3d9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:57 +0000
Subject: [PATCH 41/77] fix: rebuild a Wishart from its scale_tril

---
 effectful/handlers/pyro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effectful/handlers/pyro.py b/effectful/handlers/pyro.py
index 469f913..4b20765 100644
--- a/effectful/handlers/pyro.py
+++ b/effectful/handlers/pyro.py
@@ -840,7 +840,7 @@ def _embed_wishart(d: dist.Wishart) -> Term[TorchDistribution]:
     df = evaluate(df_raw)
     scale_tril = evaluate(scale_tril_raw)
 
-    return _register_distribution_op(dist.Wishart)(df, scale_tril)
+    return _register_distribution_op(dist.Wishart)(df, scale_tril=scale_tril)
 
 
 @evaluate.register
-- 
2.43.0


From a8033736d9e20c6e3ed72a7ad410317d45e76232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:57 +0000
Subject: [PATCH 42/77] fix: keep ExtendedBinomial and
 NanMaskedMultivariateNormal when rebuilding them

---
 effectful/handlers/pyro.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/effectful/handlers/pyro.py b/effectful/handlers/pyro.py
index 4b20765..5561ae6 100644
--- a/effectful/handlers/pyro.py
+++ b/effectful/handlers/pyro.py
@@ -633,7 +633,8 @@ def _embed_beta(d: TorchDistribution) -> Term[TorchDistribution]:
     return _register_distribution_op(type(d))(concentration1, concentration0)
 
 
-@evaluate.register
+@evaluate.register(dist.Binomial)
+@evaluate.register(dist.ExtendedBinomial)
 def _embed_binomial(d: dist.Binomial) -> Term[TorchDistribution]:
     with interpreter({}):
         total_count_raw = d.total_count
@@ -642,7 +643,7 @@ def _embed_binomial(d: dist.Binomial) -> Term[TorchDistribution]:
     total_count = evaluate(total_count_raw)
     probs = evaluate(probs_raw)
 
-    return _register_distribution_op(dist.Binomial)(total_count, probs)
+    return _register_distribution_op(type(d))(total_count, probs)
 
 
 @evaluate.register
@@ -748,6 +749,22 @@ def _embed_multivariate_normal(d: dist.MultivariateNormal) -> Term[TorchDistribu
     )
 
 
+@evaluate.register
+def _embed_nan_masked_multivariate_normal(
+    d: dist.NanMaskedMultivariateNormal,
+) -> Term[TorchDistribution]:
+    with interpreter({}):
+        loc_raw = d.loc
+        scale_tril_raw = d.scale_tril
+
+    loc = evaluate(loc_raw)
+    scale_tril = evaluate(scale_tril_raw)
+
+    return _register_distribution_op(dist.NanMaskedMultivariateNormal)(
+        loc, scale_tril=scale_tril
+    )
+
+
 @evaluate.register
 def _embed_negative_binomial(d: dist.NegativeBinomial) -> Term[TorchDistribution]:
     with interpreter({}):
-- 
2.43.0


From 77a06ead9dc70c298bbff48abebf7e2d5092267d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:25 +0000
Subject: [PATCH 43/77] fix: keep the scalar temperature of relaxed
 distributions when binding names

---
 effectful/handlers/pyro.py | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/effectful/handlers/pyro.py b/effectful/handlers/pyro.py
index 5561ae6..5a0a960 100644
--- a/effectful/handlers/pyro.py
+++ b/effectful/handlers/pyro.py
@@ -333,6 +333,21 @@ PyroDistribution = (
 )
 
 
+def _is_shared_parameter(name: str, value: Any) -> bool:
+    """Whether a parameter is one scalar for the whole batch.
+
+    A temperature does not take part in the batch shape of a relaxed
+    distribution, and is not broadcast against its other parameters.
+
+    """
+    return (
+        name == "temperature"
+        and isinstance(value, torch.Tensor)
+        and len(value.shape) == 0
+        and not sizesof(value)
+    )
+
+
 @unbind_dims.register(pyro.distributions.torch_distribution.TorchDistribution)  # type: ignore
 @unbind_dims.register(pyro.distributions.torch_distribution.TorchDistributionMixin)  # type: ignore
 def _unbind_dims_distribution(
@@ -376,7 +391,10 @@ def _unbind_dims_distribution(
 
     new_d = d.op(
         *[_to_named(a) for a in d.args],
-        **{k: _to_named(v) for (k, v) in d.kwargs.items()},
+        **{
+            k: v if _is_shared_parameter(k, v) else _to_named(v)
+            for (k, v) in d.kwargs.items()
+        },
     )
     assert new_d.event_shape == d.event_shape
     return new_d
@@ -413,7 +431,10 @@ def _bind_dims_distribution(
     indices = {k: sizes[k] for k in names}
 
     pos_args = [_to_positional(a, indices) for a in d.args]
-    pos_kwargs = {k: _to_positional(v, indices) for (k, v) in d.kwargs.items()}
+    pos_kwargs = {
+        k: v if _is_shared_parameter(k, v) else _to_positional(v, indices)
+        for (k, v) in d.kwargs.items()
+    }
     new_d = d.op(*pos_args, **pos_kwargs)
 
     assert new_d.event_shape == d.event_shape
@@ -809,7 +830,7 @@ def _embed_relaxed(d: TorchDistribution) -> Term[TorchDistribution]:
     temperature = evaluate(temperature_raw)
     probs = evaluate(probs_raw)
 
-    return _register_distribution_op(type(d))(temperature, probs)
+    return _register_distribution_op(type(d))(temperature=temperature, probs=probs)
 
 
 @evaluate.register
-- 
2.43.0


From 1e562ab35bc039cb723e8caebfb484ec6b4b1865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:50 +0000
Subject: [PATCH 44/77] fix: bind names of a masked distribution that only its
 mask has

---
 effectful/handlers/pyro.py | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/effectful/handlers/pyro.py b/effectful/handlers/pyro.py
index 5a0a960..07e24c0 100644
--- a/effectful/handlers/pyro.py
+++ b/effectful/handlers/pyro.py
@@ -417,28 +417,33 @@ def _bind_dims_distribution(
             )[tuple(n() for n in missing_dims)]
             return bind_dims(a_indexed, *names)
         elif isinstance(a, TorchDistribution):
-            return bind_dims(a, *names)
+            return _bind(a, indices)
         else:
             return a
 
-    with handler({apply: defdata}):
-        d = typing.cast(TorchDistribution, evaluate(value))
+    def _bind(value, indices):
+        with handler({apply: defdata}):
+            d = typing.cast(TorchDistribution, evaluate(value))
 
-    if not (isinstance(d, Term) and typeof(d) is TorchDistribution):
-        raise NotHandled
+        if not (isinstance(d, Term) and typeof(d) is TorchDistribution):
+            raise NotHandled
 
-    sizes = sizesof(d)
-    indices = {k: sizes[k] for k in names}
+        # A nested distribution need not have all of the names itself.
+        if indices is None:
+            sizes = sizesof(d)
+            indices = {k: sizes[k] for k in names}
 
-    pos_args = [_to_positional(a, indices) for a in d.args]
-    pos_kwargs = {
-        k: v if _is_shared_parameter(k, v) else _to_positional(v, indices)
-        for (k, v) in d.kwargs.items()
-    }
-    new_d = d.op(*pos_args, **pos_kwargs)
+        pos_args = [_to_positional(a, indices) for a in d.args]
+        pos_kwargs = {
+            k: v if _is_shared_parameter(k, v) else _to_positional(v, indices)
+            for (k, v) in d.kwargs.items()
+        }
+        new_d = d.op(*pos_args, **pos_kwargs)
 
-    assert new_d.event_shape == d.event_shape
-    return new_d
+        assert new_d.event_shape == d.event_shape
+        return new_d
+
+    return _bind(value, None)
 
 
 @functools.cache
-- 
2.43.0


From dc5d55d5d0e6598a13d87512b983cfd1eb451cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:54 +0000
Subject: [PATCH 45/77] fix: keep the shape of values without named dimensions
 under PyroShim

---
 effectful/handlers/pyro.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/effectful/handlers/pyro.py b/effectful/handlers/pyro.py
index 07e24c0..231fd09 100644
--- a/effectful/handlers/pyro.py
+++ b/effectful/handlers/pyro.py
@@ -153,7 +153,8 @@ class PyroShim(pyro.poutine.messenger.Messenger):
         if not isinstance(t, torch.Tensor):
             t = torch.tensor(t)
 
-        if len(t.shape) < len(shape):
+        # without named dimensions there is nothing to align
+        if (indices or t_indices) and len(t.shape) < len(shape):
             t = t.expand(shape)
 
         # create a positional dimension for every named index in the target shape
@@ -320,7 +321,7 @@ class PyroShim(pyro.poutine.messenger.Messenger):
 
         # note: is it safe to assume that msg['fn'] is a distribution?
         dist_shape: tuple[int, ...] = msg["fn"].batch_shape + msg["fn"].event_shape  # type: ignore
-        if len(value.shape) < len(dist_shape):
+        if naming.name_to_dim and len(value.shape) < len(dist_shape):
             value = value.broadcast_to(torch.broadcast_shapes(value.shape, dist_shape))
 
         value = naming.apply(value)
-- 
2.43.0


From 5912c8e19f85bd4a80517899e90cf029bd770c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:00 +0000
Subject: [PATCH 46/77] fix: restore names of sites replayed from a trace of
 another PyroShim

---
 effectful/handlers/pyro.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/effectful/handlers/pyro.py b/effectful/handlers/pyro.py
index 231fd09..e788565 100644
--- a/effectful/handlers/pyro.py
+++ b/effectful/handlers/pyro.py
@@ -259,6 +259,10 @@ class PyroShim(pyro.poutine.messenger.Messenger):
             msg["value"] = pos_obs
             msg["mask"] = pos_mask
 
+            # Record on the message itself that it is ours: messengers outside of
+            # the shim, such as replay, may replace the infer dict.
+            msg["_pyro_shim"] = id(self)  # type: ignore
+
             # stash the index naming on the sample message so that future
             # consumers of the trace can get at it
             msg["_index_naming"] = naming  # type: ignore
@@ -297,14 +301,16 @@ class PyroShim(pyro.poutine.messenger.Messenger):
         # If there is no shim status, assume that we are looking at a guide sample.
         # In this case, we should handle the sample and claim it as ours if we have naming
         # information for it.
-        if "pyro_shim_status" not in msg["infer"]:
+        if msg.get("_pyro_shim") == id(self):
+            msg["infer"] = {**msg["infer"], "pyro_shim_status": (id(self), 1)}  # type: ignore
+        elif "pyro_shim_status" not in msg["infer"]:
             # Except, of course, for subsample messages, which we should ignore.
             if (
                 pyro.poutine.util.site_is_subsample(msg)
                 or msg["name"] not in self._index_naming
             ):
                 return
-            msg["infer"]["pyro_shim_status"] = (id(self), 1)  # type: ignore
+            msg["infer"] = {**msg["infer"], "pyro_shim_status": (id(self), 1)}  # type: ignore
 
         # If this message has been handled already by a different pyro shim, ignore.
         handler_id, handler_stage = msg["infer"]["pyro_shim_status"]  # type: ignore
-- 
2.43.0


From 4d6f25109c8576714c12ed79d94a2b55f0a3c461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:50 +0000
Subject: [PATCH 47/77] fix: entropy of a NumPyro distribution keeps its named
 dimensions

---
 effectful/handlers/numpyro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effectful/handlers/numpyro.py b/effectful/handlers/numpyro.py
index 329cf47..1eaf1d7 100644
--- a/effectful/handlers/numpyro.py
+++ b/effectful/handlers/numpyro.py
@@ -352,7 +352,7 @@ class _DistributionTerm(dist.Distribution):
     def entropy(self) -> jax.Array:
         if not self._is_eager:
             raise NotHandled
-        return self._pos_base_dist.entropy()
+        return self._reindex_sample(self._pos_base_dist.entropy(), ())
 
     @defop
     def to_event(self, reinterpreted_batch_ndims=None) -> dist.Distribution:
-- 
2.43.0


From 5c46d187714eb5d0aeff659ec05bf91687b33841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:50 +0000
Subject: [PATCH 48/77] fix: enumerated support of a NumPyro distribution with
 named dimensions

---
 effectful/handlers/numpyro.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/effectful/handlers/numpyro.py b/effectful/handlers/numpyro.py
index 1eaf1d7..55ff498 100644
--- a/effectful/handlers/numpyro.py
+++ b/effectful/handlers/numpyro.py
@@ -346,7 +346,13 @@ class _DistributionTerm(dist.Distribution):
     def enumerate_support(self, expand=True) -> jax.Array:
         if not self._is_eager:
             raise NotHandled
-        return self._reindex_sample(self._pos_base_dist.enumerate_support(expand), ())
+        values = self._pos_base_dist.enumerate_support(expand)
+        if not expand:
+            # the batch dimensions, named ones included, have size 1
+            return values.reshape(
+                values.shape[:1] + values.shape[len(self._indices) + 1 :]
+            )
+        return self._reindex_sample(values, values.shape[:1])
 
     @defop
     def entropy(self) -> jax.Array:
-- 
2.43.0


From 8ee3aedb8bd82cb36c3d2b627f31824aa2795b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:50 +0000
Subject: [PATCH 49/77] fix: embed LKJCholesky, Wishart and MultivariateNormal
 by their NumPyro parameters

---
 effectful/handlers/numpyro.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/effectful/handlers/numpyro.py b/effectful/handlers/numpyro.py
index 55ff498..d182417 100644
--- a/effectful/handlers/numpyro.py
+++ b/effectful/handlers/numpyro.py
@@ -969,7 +969,7 @@ class LKJCholeskyTerm(_DistributionTerm):
 
 @evaluate.register(dist.LKJCholesky)
 def _embed_lkjcholesky(d: dist.LKJCholesky) -> Term[dist.LKJCholesky]:
-    return LKJCholesky(d.dim, d.concentration)
+    return LKJCholesky(d.dimension, d.concentration)
 
 
 @defop
@@ -1003,9 +1003,7 @@ class MultivariateNormalTerm(_DistributionTerm):
 def _embed_multivariatenormal(
     d: dist.MultivariateNormal,
 ) -> Term[dist.MultivariateNormal]:
-    return MultivariateNormal(
-        d.loc, d.covariance_matrix, d.precision_matrix, d.scale_tril
-    )
+    return MultivariateNormal(d.loc, scale_tril=d.scale_tril)
 
 
 @defop
@@ -1092,10 +1090,16 @@ class WishartTerm(_DistributionTerm):
         self.df = df
         self.scale_tril = scale_tril
 
+    @functools.cached_property
+    def _pos_base_dist(self) -> dist.Distribution:
+        # the second positional argument of NumPyro's constructor is another one
+        df, scale_tril = bind_dims(self, *self._indices).args
+        return self._constr(df, scale_tril=scale_tril, **self.kwargs)
+
 
 @evaluate.register(dist.Wishart)
 def _embed_wishart(d: dist.Wishart) -> Term[dist.Wishart]:
-    return Wishart(d.df, d.scale_tril)
+    return Wishart(d.concentration, d.scale_tril)
 
 
 @defop
-- 
2.43.0


From 7c91b1d532018716ccb177c0f79ff08305c17412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:50 +0000
Subject: [PATCH 50/77] fix: align the batch dimensions of NumPyro parameters
 and values with names

---
 effectful/handlers/numpyro.py | 121 +++++++++++++++++++++++-----------
 1 file changed, 82 insertions(+), 39 deletions(-)

diff --git a/effectful/handlers/numpyro.py b/effectful/handlers/numpyro.py
index d182417..250a14f 100644
--- a/effectful/handlers/numpyro.py
+++ b/effectful/handlers/numpyro.py
@@ -6,10 +6,12 @@ except ImportError:
 
 
 import functools
-from collections.abc import Collection, Mapping
+import inspect
+from collections.abc import Collection, Mapping, Sequence
 from typing import Any
 
 import jax
+import numpy as np
 
 import effectful.handlers.jax.numpy as jnp
 from effectful.handlers.jax import bind_dims, jax_getitem, sizesof, unbind_dims
@@ -56,59 +58,72 @@ class Naming(dict[Operation[[], jax.Array], int]):
 def _unbind_distribution(
     d: dist.Distribution, *names: Operation[[], jax.Array]
 ) -> dist.Distribution:
-    batch_shape = None
+    d = evaluate(d)
 
-    def _validate_batch_shape(t):
-        nonlocal batch_shape
-        if len(t.shape) < len(names):
-            raise ValueError(
-                "All tensors must have at least as many dimensions as names"
-            )
+    # FIXME: This assumes that the only operations that return distributions are
+    # distribution constructors.
+    if not (isinstance(d, Term) and issubclass(typeof(d), dist.Distribution)):
+        raise NotImplementedError
 
-        if batch_shape is None:
-            batch_shape = t.shape[: len(names)]
-
-        if (
-            len(t.shape) < len(batch_shape)
-            or t.shape[: len(batch_shape)] != batch_shape
-        ):
-            raise ValueError("All tensors must have the same batch shape.")
-
-    def _to_named(a):
-        nonlocal batch_shape
-        # FIXME: Some distributions take scalar arguments that are never
-        # batched. Ignore these. We should be able to raise an error in some
-        # cases that we see a scalar tensor, and a smarter version of this code
-        # would do so.
-        if isinstance(a, jax.Array) and a.shape != ():
-            _validate_batch_shape(a)
-            return unbind_dims(a, *names)
+    event_dims = d._param_event_dims
+    batch_ndims = _batch_ndims(d.args, event_dims)
+    arrays = {
+        i: _pad_batch(a, e, batch_ndims)
+        for i, (a, e) in enumerate(zip(d.args, event_dims))
+        if e is not None and _is_array(a)
+    }
+    if arrays and batch_ndims < len(names):
+        raise ValueError("Expected at least as many batch dimensions as names")
+    named_shape = jnp.broadcast_shapes(*(a.shape[: len(names)] for a in arrays.values()))
+
+    def _to_named(i, a):
+        if i in arrays:
+            a = arrays[i]
+            return unbind_dims(
+                jnp.broadcast_to(a, named_shape + a.shape[len(names) :]), *names
+            )
         elif isinstance(a, dist.Distribution):
             return unbind_dims(a, *names)
         else:
             return a
 
-    d = evaluate(d)
+    return d.op(*[_to_named(i, a) for i, a in enumerate(d.args)], **d.kwargs)
+
+
+def _is_array(a) -> bool:
+    return isinstance(a, np.ndarray) or issubclass(typeof(a), jax.Array)
 
-    # FIXME: This assumes that the only operations that return distributions are
-    # distribution constructors.
-    if not (isinstance(d, Term) and issubclass(typeof(d), dist.Distribution)):
-        raise NotImplementedError
 
-    new_d = d.op(
-        *[_to_named(a) for a in d.args],
-        **{k: _to_named(v) for (k, v) in d.kwargs.items()},
+def _batch_ndims(args, event_dims) -> int:
+    """The number of positional batch dimensions of the parameters ``args``."""
+    return max(
+        (
+            len(a.shape) - e
+            for a, e in zip(args, event_dims)
+            if e is not None and _is_array(a)
+        ),
+        default=0,
     )
-    return new_d
+
+
+def _pad_batch(a, event_dim: int, batch_ndims: int):
+    """Add dimensions of size 1 to the left, up to ``batch_ndims`` batch dimensions."""
+    missing = batch_ndims - (len(a.shape) - event_dim)
+    return jnp.reshape(a, (1,) * missing + tuple(a.shape)) if missing > 0 else a
 
 
 @bind_dims.register  # type: ignore
 def _bind_dims_distribution(
     d: dist.Distribution, *names: Operation[[], jax.Array]
 ) -> dist.Distribution:
-    def _to_positional(a, indices):
+    def _to_positional(a, event_dim, indices):
         typ = typeof(a)
-        if issubclass(typ, jax.Array):
+        if isinstance(a, np.ndarray) or issubclass(typ, jax.Array):
+            # the parameters broadcast from the right: give them the same
+            # number of batch dimensions before adding dimensions to the left
+            if event_dim is not None:
+                a = _pad_batch(a, event_dim, batch_ndims)
+
             # broadcast to full indexed shape
             existing_dims = set(sizesof(a).keys())
             missing_dims = set(indices) - existing_dims
@@ -138,8 +153,11 @@ def _bind_dims_distribution(
     sizes = sizesof(d)
     indices = {k: sizes[k] for k in names}
 
-    pos_args = [_to_positional(a, indices) for a in d.args]
-    pos_kwargs = {k: _to_positional(v, indices) for (k, v) in d.kwargs.items()}
+    event_dims = d._param_event_dims
+    batch_ndims = _batch_ndims(d.args, event_dims)
+
+    pos_args = [_to_positional(a, e, indices) for a, e in zip(d.args, event_dims)]
+    pos_kwargs = {k: _to_positional(v, None, indices) for (k, v) in d.kwargs.items()}
     new_d = d.op(*pos_args, **pos_kwargs)
 
     return new_d
@@ -215,6 +233,17 @@ class _DistributionTerm(dist.Distribution):
         self._args = args
         self._kwargs = kwargs
 
+    @property
+    def _param_event_dims(self) -> Sequence[int | None]:
+        """For each of ``args``, the number of trailing dimensions that belong to
+        one parameter value, or ``None`` for arguments that have no batch.
+
+        """
+        names = inspect.signature(self._op).parameters
+        constraints = (self._constr.arg_constraints.get(n) for n in names)
+        event_dims = [None if c is None else c.event_dim for c in constraints]
+        return event_dims[: len(self._args)]
+
     @functools.cached_property
     def _indices(self) -> Mapping[Operation[[], jax.Array], int]:
         return sizesof(self)
@@ -295,6 +324,8 @@ class _DistributionTerm(dist.Distribution):
             raise NotHandled
 
         # value has shape named_batch_shape + sample_shape + batch_shape + event_shape
+        if self._indices:
+            value = _pad_batch(value, len(self.event_shape), len(self.batch_shape))
         n_batch_event = len(self.batch_shape) + len(self.event_shape)
         sample_shape = (
             value.shape if n_batch_event == 0 else value.shape[:-n_batch_event]
@@ -430,6 +461,10 @@ class _DistributionMethodTerm(_DistributionTerm):
         )
         return getattr(base, self._op.__name__)(*self._args[1:], **self._kwargs)
 
+    @property
+    def _param_event_dims(self) -> Sequence[int | None]:
+        return [None] * len(self._args)
+
 
 @defop
 def Cauchy(loc=0.0, scale=1.0, **kwargs) -> dist.Cauchy:
@@ -1090,6 +1125,10 @@ class WishartTerm(_DistributionTerm):
         self.df = df
         self.scale_tril = scale_tril
 
+    @property
+    def _param_event_dims(self) -> Sequence[int | None]:
+        return [0, 2]
+
     @functools.cached_property
     def _pos_base_dist(self) -> dist.Distribution:
         # the second positional argument of NumPyro's constructor is another one
@@ -1114,6 +1153,10 @@ class DeltaTerm(_DistributionTerm):
         self.v = v
         self.log_density = log_density
 
+    @property
+    def _param_event_dims(self) -> Sequence[int | None]:
+        return [self.args[2], 0, None]
+
 
 @evaluate.register(dist.Delta)
 def _embed_delta(d: dist.Delta) -> Term[dist.Delta]:
-- 
2.43.0


From a0dfa466c4da06897c91ba1f5bce7d6773e0589f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:50 +0000
Subject: [PATCH 51/77] fix: expand and to_event of NumPyro distributions with
 named dimensions

---
 effectful/handlers/numpyro.py | 88 ++++++++++++++++++-----------------
 1 file changed, 46 insertions(+), 42 deletions(-)

diff --git a/effectful/handlers/numpyro.py b/effectful/handlers/numpyro.py
index 250a14f..e56fdc9 100644
--- a/effectful/handlers/numpyro.py
+++ b/effectful/handlers/numpyro.py
@@ -171,39 +171,12 @@ def _broadcast_to_named(t, sizes):
     return jax_getitem(t_broadcast, tuple(dim() for dim in missing_dims))
 
 
-def expand_to_batch_shape(tensor, batch_ndims, expanded_batch_shape):
-    """
-    Expands a tensor of shape batch_shape + remaining_shape to
-    expanded_batch_shape + remaining_shape.
-
-    Args:
-        tensor: JAX array with shape batch_shape + event_shape
-        expanded_batch_shape: tuple of the desired expanded batch dimensions
-        event_ndims: number of dimensions in the event_shape
-
-    Returns:
-        A JAX array with shape expanded_batch_shape + event_shape
-    """
-    # Split the shape into batch and event parts
-    assert len(tensor.shape) >= batch_ndims
-
-    batch_shape = tensor.shape[:batch_ndims] if batch_ndims > 0 else ()
-    remaining_shape = tensor.shape[batch_ndims:]
-
-    # Ensure the expanded batch shape is compatible with the current batch shape
-    if len(expanded_batch_shape) < batch_ndims:
+def _validate_reinterpreted(d: dist.Distribution, reinterpreted_batch_ndims: int):
+    if reinterpreted_batch_ndims > len(d.batch_shape):
         raise ValueError(
-            "Expanded batch shape must have at least as many dimensions as current batch shape"
+            "Expected reinterpreted_batch_ndims <= len(base_dist.batch_shape), "
+            f"actual {reinterpreted_batch_ndims} vs {len(d.batch_shape)}"
         )
-    new_batch_shape = jnp.broadcast_shapes(batch_shape, expanded_batch_shape)
-
-    # Create the new shape
-    new_shape = new_batch_shape + remaining_shape
-
-    # Broadcast the tensor to the new shape
-    expanded_tensor = jnp.broadcast_to(tensor, new_shape)
-
-    return expanded_tensor
 
 
 @Term.register
@@ -393,6 +366,11 @@ class _DistributionTerm(dist.Distribution):
 
     @defop
     def to_event(self, reinterpreted_batch_ndims=None) -> dist.Distribution:
+        if self._is_eager:
+            # named dimensions are not part of the batch shape
+            if reinterpreted_batch_ndims is None:
+                return self.to_event(len(self.batch_shape))
+            _validate_reinterpreted(self, reinterpreted_batch_ndims)
         raise NotHandled
 
     @defop
@@ -400,19 +378,29 @@ class _DistributionTerm(dist.Distribution):
         if not self._is_eager:
             raise NotHandled
 
-        def expand_arg(a, batch_shape):
-            if is_eager_array(a):
-                return expand_to_batch_shape(a, len(self.batch_shape), batch_shape)
-            return a
-
+        batch_shape = tuple(batch_shape)
         if self.batch_shape == batch_shape:
             return self
-
-        expanded_args = [expand_arg(a, batch_shape) for a in self.args]
-        expanded_kwargs = {
-            k: expand_arg(v, batch_shape) for (k, v) in self.kwargs.items()
-        }
-        return self.op(*expanded_args, **expanded_kwargs)
+        return self._expand(batch_shape)
+
+    def _expand(self, batch_shape: tuple[int, ...]) -> dist.Distribution:
+        event_dims = self._param_event_dims
+        params = [i for i, e in enumerate(event_dims) if e is not None]
+        # integers (such as counts) stay as they are, unless nothing else has a batch
+        params = [
+            i for i in params if _is_array(self.args[i]) or isinstance(self.args[i], float)
+        ] or [i for i in params if isinstance(self.args[i], int)]
+
+        def expand_arg(a, event_dim):
+            shape = tuple(getattr(a, "shape", ()))
+            event_shape = shape[len(shape) - event_dim :]
+            return jnp.broadcast_to(a, batch_shape + event_shape)
+
+        args = [
+            expand_arg(a, event_dims[i]) if i in params else a
+            for i, a in enumerate(self.args)
+        ]
+        return self.op(*args, **self.kwargs)
 
     def __repr__(self):
         return Term.__repr__(self)
@@ -465,6 +453,12 @@ class _DistributionMethodTerm(_DistributionTerm):
     def _param_event_dims(self) -> Sequence[int | None]:
         return [None] * len(self._args)
 
+    def _expand(self, batch_shape: tuple[int, ...]) -> dist.Distribution:
+        base, *rest = self._args
+        ndims = len(self.event_shape) - len(base.event_shape)
+        base_shape = base.batch_shape[len(base.batch_shape) - ndims :]
+        return self._op(base.expand(batch_shape + base_shape), *rest, **self._kwargs)
+
 
 @defop
 def Cauchy(loc=0.0, scale=1.0, **kwargs) -> dist.Cauchy:
@@ -1224,6 +1218,16 @@ class IndependentTerm(_DistributionTerm):
         self.base_dist = base_dist
         self.reinterpreted_batch_ndims = reinterpreted_batch_ndims
 
+    @functools.cached_property
+    def _pos_base_dist(self) -> dist.Distribution:
+        _validate_reinterpreted(*self._args)
+        return super()._pos_base_dist
+
+    def _expand(self, batch_shape: tuple[int, ...]) -> dist.Distribution:
+        base, ndims = self._args
+        base_shape = base.batch_shape[len(base.batch_shape) - ndims :]
+        return self._op(base.expand(batch_shape + base_shape), ndims, **self._kwargs)
+
 
 @evaluate.register(dist.Independent)
 def _embed_independent(d: dist.Independent) -> Term[dist.Independent]:
-- 
2.43.0


From f4ec6f2b67455ec88c95cf1408f2c425e9a4d419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:50 +0000
Subject: [PATCH 52/77] fix: bind and unbind names of NumPyro distributions
 inside pytrees

---
 effectful/handlers/jax/_handlers.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/effectful/handlers/jax/_handlers.py b/effectful/handlers/jax/_handlers.py
index 10be6a9..55ca43c 100644
--- a/effectful/handlers/jax/_handlers.py
+++ b/effectful/handlers/jax/_handlers.py
@@ -211,9 +211,15 @@ def bind_dims[T, A, B](
     >>> bind_dims(t, b, a).shape
     (3, 2)
     """
-    if jax.tree_util.treedef_is_leaf(jax.tree.structure(value)):
+    # values with a rule of their own are not taken apart
+    default = __dispatch(object)
+
+    def is_leaf(v):
+        return __dispatch(typeof(v)) is not default
+
+    if is_leaf(value) or jax.tree_util.treedef_is_leaf(jax.tree.structure(value)):
         return __dispatch(typeof(value))(value, *names)
-    return jax.tree.map(lambda v: bind_dims(v, *names), value)
+    return jax.tree.map(lambda v: bind_dims(v, *names), value, is_leaf=is_leaf)
 
 
 @defop
@@ -224,9 +230,15 @@ def unbind_dims[T, A, B](
     *names: Annotated[Operation[[], jax.Array], Scoped[B]],
 ) -> Annotated[T, Scoped[A | B]]:
     """Convert positional dimensions to named dimensions."""
-    if jax.tree_util.treedef_is_leaf(jax.tree.structure(value)):
+    # values with a rule of their own are not taken apart
+    default = __dispatch(object)
+
+    def is_leaf(v):
+        return __dispatch(typeof(v)) is not default
+
+    if is_leaf(value) or jax.tree_util.treedef_is_leaf(jax.tree.structure(value)):
         return __dispatch(typeof(value))(value, *names)
-    return jax.tree.map(lambda v: unbind_dims(v, *names), value)
+    return jax.tree.map(lambda v: unbind_dims(v, *names), value, is_leaf=is_leaf)
 
 
 def jit(f, *args, **kwargs):
-- 
2.43.0


From 710e02984bcd76294dd47b57fc711adcdf33eb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:56 +0000
Subject: [PATCH 53/77] fix: formatting of the NumPyro handlers

---
 effectful/handlers/numpyro.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/effectful/handlers/numpyro.py b/effectful/handlers/numpyro.py
index e56fdc9..8c35ad9 100644
--- a/effectful/handlers/numpyro.py
+++ b/effectful/handlers/numpyro.py
@@ -74,7 +74,9 @@ def _unbind_distribution(
     }
     if arrays and batch_ndims < len(names):
         raise ValueError("Expected at least as many batch dimensions as names")
-    named_shape = jnp.broadcast_shapes(*(a.shape[: len(names)] for a in arrays.values()))
+    named_shape = jnp.broadcast_shapes(
+        *(a.shape[: len(names)] for a in arrays.values())
+    )
 
     def _to_named(i, a):
         if i in arrays:
@@ -388,7 +390,9 @@ class _DistributionTerm(dist.Distribution):
         params = [i for i, e in enumerate(event_dims) if e is not None]
         # integers (such as counts) stay as they are, unless nothing else has a batch
         params = [
-            i for i in params if _is_array(self.args[i]) or isinstance(self.args[i], float)
+            i
+            for i in params
+            if _is_array(self.args[i]) or isinstance(self.args[i], float)
         ] or [i for i in params if isinstance(self.args[i], int)]
 
         def expand_arg(a, event_dim):
-- 
2.43.0


From c86afe3c727f411b6b5be76029f8aff4d9d57c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:09 +0000
Subject: [PATCH 54/77] fix: NumPyro distribution terms are recognised by their
 class

---
 effectful/handlers/numpyro.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/effectful/handlers/numpyro.py b/effectful/handlers/numpyro.py
index 8c35ad9..b7551ff 100644
--- a/effectful/handlers/numpyro.py
+++ b/effectful/handlers/numpyro.py
@@ -62,7 +62,7 @@ def _unbind_distribution(
 
     # FIXME: This assumes that the only operations that return distributions are
     # distribution constructors.
-    if not (isinstance(d, Term) and issubclass(typeof(d), dist.Distribution)):
+    if not isinstance(d, _DistributionTerm):
         raise NotImplementedError
 
     event_dims = d._param_event_dims
@@ -149,7 +149,7 @@ def _bind_dims_distribution(
 
     # FIXME: This assumes that the only operations that return distributions are
     # distribution constructors.
-    if not (isinstance(d, Term) and issubclass(typeof(d), dist.Distribution)):
+    if not isinstance(d, _DistributionTerm):
         raise NotImplementedError
 
     sizes = sizesof(d)
-- 
2.43.0


From c9094569c95184c5510477ea3e79bd23e5125146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:00 +0000
Subject: [PATCH 55/77] fix: expand NumPyro distributions with scalar
 parameters of vector families

---
 effectful/handlers/numpyro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effectful/handlers/numpyro.py b/effectful/handlers/numpyro.py
index b7551ff..56e8dc2 100644
--- a/effectful/handlers/numpyro.py
+++ b/effectful/handlers/numpyro.py
@@ -396,7 +396,7 @@ class _DistributionTerm(dist.Distribution):
         ] or [i for i in params if isinstance(self.args[i], int)]
 
         def expand_arg(a, event_dim):
-            shape = tuple(getattr(a, "shape", ()))
+            shape = (1,) * event_dim + tuple(getattr(a, "shape", ()))
             event_shape = shape[len(shape) - event_dim :]
             return jnp.broadcast_to(a, batch_shape + event_shape)
 
-- 
2.43.0


From 445658421de0601d27d7fb8e8285222c0ab67161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:03 +0000
Subject: [PATCH 56/77] fix: nested_type of a named tuple is its class

---
 effectful/internals/unification.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/effectful/internals/unification.py b/effectful/internals/unification.py
index 6b7b5b8..faaac7a 100644
--- a/effectful/internals/unification.py
+++ b/effectful/internals/unification.py
@@ -1149,6 +1149,8 @@ def _(value: collections.abc.Collection):
 
 @nested_type.register
 def _(value: tuple):
+    if type(value) != tuple and hasattr(type(value), "_fields"):
+        return Box(type(value))
     if type(value) != tuple or len(value) == 0:
         return nested_type.dispatch(collections.abc.Sequence)(value)
     else:
-- 
2.43.0


From ef5e8c30682c32b9300b053de3a53fd862a6e5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:03 +0000
Subject: [PATCH 57/77] fix: data with a type key is not taken for a content
 block

---
 effectful/handlers/llm/encoding.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/effectful/handlers/llm/encoding.py b/effectful/handlers/llm/encoding.py
index 4ccc8fd..605cd79 100644
--- a/effectful/handlers/llm/encoding.py
+++ b/effectful/handlers/llm/encoding.py
@@ -61,6 +61,25 @@ CONTENT_BLOCK_TYPES: frozenset[str] = frozenset(
 )
 
 
+_CONTENT_BLOCK_ADAPTER: pydantic.TypeAdapter[OpenAIMessageContentListBlock] = (
+    pydantic.TypeAdapter(OpenAIMessageContentListBlock)
+)
+
+
+def _is_content_block(value: typing.Any) -> bool:
+    """Whether ``value`` is a complete content block, rather than ordinary data
+    that happens to have a ``type`` key."""
+    if not isinstance(value, dict):
+        return False
+    block_type = value.get("type")
+    if not isinstance(block_type, str) or block_type not in CONTENT_BLOCK_TYPES:
+        return False
+    try:
+        return _CONTENT_BLOCK_ADAPTER.validate_python(value) == value
+    except pydantic.ValidationError:
+        return False
+
+
 @pydantic.validate_call(validate_return=True)
 def to_content_blocks(value: typing.Any) -> list[OpenAIMessageContentListBlock]:
     """Convert an encoded JSON-compatible value into a flat list of content blocks.
@@ -85,7 +104,7 @@ def to_content_blocks(value: typing.Any) -> list[OpenAIMessageContentListBlock]:
             buf.clear()
 
     def walk(v: typing.Any) -> None:
-        if isinstance(v, dict) and v.get("type") in CONTENT_BLOCK_TYPES:
+        if _is_content_block(v):
             flush()
             blocks.append(typing.cast(OpenAIMessageContentListBlock, v))
         elif isinstance(v, dict):
-- 
2.43.0


From 9869254e5a1f386d3b5c46e266129bcf9a85b0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:03 +0000
Subject: [PATCH 58/77] fix: tuples and named tuples decode only data with
 exactly their items

---
 effectful/handlers/llm/encoding.py | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/effectful/handlers/llm/encoding.py b/effectful/handlers/llm/encoding.py
index 605cd79..ae4cf59 100644
--- a/effectful/handlers/llm/encoding.py
+++ b/effectful/handlers/llm/encoding.py
@@ -31,6 +31,7 @@ from openai.types.chat import (
     ChatCompletionMessageToolCall as OpenAIChatCompletionMessageToolCall,
 )
 from PIL import Image
+from pydantic_core import PydanticSerializationUnexpectedValue
 
 import effectful.handlers.llm.evaluation as evaluation
 from effectful.handlers.llm.template import Tool
@@ -313,6 +314,20 @@ def _inline_refs(schema: dict) -> dict:
     return _resolve(schema)
 
 
+def _tuple_items(value: typing.Any, names: list[str]) -> Mapping[str, typing.Any]:
+    """The items of an encoded tuple by name; raises ``ValueError`` if ``value``
+    does not have exactly one item for each name."""
+    if isinstance(value, tuple | list):
+        if len(value) != len(names):
+            raise ValueError(f"expected {len(names)} items, got {len(value)}")
+        return dict(zip(names, value))
+    if not isinstance(value, Mapping):
+        raise ValueError(f"expected an object, got {type(value).__name__}")
+    if set(value) != set(names):
+        raise ValueError(f"expected the items {names}, got {list(value)}")
+    return value
+
+
 @TypeToPydanticType.register(tuple)
 def _pydantic_type_tuple(ty):
     """Convert finitary tuples to object-based schemas (``properties/required``).
@@ -328,7 +343,9 @@ def _pydantic_type_tuple(ty):
     if isinstance(ty, type) and hasattr(ty, "_fields"):
         hints = typing.get_type_hints(ty)
         nt_fields: list[str] = list(ty._fields)
-        nt_types = [hints.get(f, typing.Any) for f in nt_fields]
+        nt_types = [
+            TypeToPydanticType().evaluate(hints.get(f, typing.Any)) for f in nt_fields
+        ]
         nt_adapters = [pydantic.TypeAdapter(t) for t in nt_types]
         nt_model = pydantic.create_model(
             ty.__name__,
@@ -337,8 +354,7 @@ def _pydantic_type_tuple(ty):
         )
 
         def _nt_validate(value, info: pydantic.ValidationInfo):
-            if isinstance(value, tuple | list):
-                value = dict(zip(nt_fields, value))
+            value = _tuple_items(value, nt_fields)
             return ty(
                 **{
                     f: nt_adapters[i].validate_python(value[f], context=info.context)
@@ -347,6 +363,8 @@ def _pydantic_type_tuple(ty):
             )
 
         def _nt_serialize(value, info: pydantic.SerializationInfo):
+            if not isinstance(value, ty):
+                raise PydanticSerializationUnexpectedValue(f"expected {ty.__name__}")
             return {
                 f: nt_adapters[i].dump_python(
                     getattr(value, f), mode="json", context=info.context
@@ -372,6 +390,7 @@ def _pydantic_type_tuple(ty):
 
     # tuple[()] (empty args with origin) maps to zero fields; otherwise use args.
     effective: list[typing.Any] = list(args)
+    item_names = [f"item_{i}" for i in range(len(effective))]
 
     adapters = [pydantic.TypeAdapter(a) for a in effective]
 
@@ -382,14 +401,15 @@ def _pydantic_type_tuple(ty):
     )
 
     def _validate(value, info: pydantic.ValidationInfo):
-        if isinstance(value, tuple | list):
-            value = {f"item_{i}": v for i, v in enumerate(value)}
+        value = _tuple_items(value, item_names)
         return tuple(
             adapters[i].validate_python(value[f"item_{i}"], context=info.context)
             for i in range(len(effective))
         )
 
     def _serialize(value, info: pydantic.SerializationInfo):
+        if type(value) is not tuple or len(value) != len(effective):
+            raise PydanticSerializationUnexpectedValue(f"expected {ty}")
         return {
             f"item_{i}": adapters[i].dump_python(v, mode="json", context=info.context)
             for i, v in enumerate(value)
-- 
2.43.0


From 168964e5565b69e42d34d8b7b8236acf269bfb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:03 +0000
Subject: [PATCH 59/77] fix: complex numbers and images survive unions and
 models, extra keys are rejected

---
 effectful/handlers/llm/encoding.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/effectful/handlers/llm/encoding.py b/effectful/handlers/llm/encoding.py
index ae4cf59..56bfee7 100644
--- a/effectful/handlers/llm/encoding.py
+++ b/effectful/handlers/llm/encoding.py
@@ -6,6 +6,7 @@ import inspect
 import io
 import json
 import linecache
+import numbers
 import textwrap
 import types
 import typing
@@ -197,20 +198,32 @@ def _pydantic_type_base(ty: type) -> Any:
 
 
 class _ComplexModel(typing.TypedDict):
+    __pydantic_config__ = pydantic.ConfigDict(extra="forbid")  # type: ignore[misc]
+
     real: float
     imag: float
 
 
 @pydantic.validate_call(validate_return=True)
-def _validate_complex(value: _ComplexModel) -> complex:
+def _decode_complex(value: _ComplexModel) -> complex:
     return complex(value["real"], value["imag"])
 
 
+def _validate_complex(value: typing.Any) -> complex:
+    return value if isinstance(value, complex) else _decode_complex(value)
+
+
 @pydantic.validate_call(validate_return=True)
-def _serialize_complex(value: complex) -> _ComplexModel:
+def _encode_complex(value: complex) -> _ComplexModel:
     return {"real": value.real, "imag": value.imag}
 
 
+def _serialize_complex(value: typing.Any) -> _ComplexModel:
+    if not isinstance(value, numbers.Complex):
+        raise PydanticSerializationUnexpectedValue("expected complex")
+    return _encode_complex(value)
+
+
 @TypeToPydanticType.register(complex)
 def _pydantic_type_complex(ty):
     """Encode ``complex`` as ``{"real": float, "imag": float}``."""
@@ -434,7 +447,7 @@ def _pydantic_type_operation(ty: type[Operation]):
 
 
 @pydantic.validate_call(validate_return=False)
-def _validate_image(value: ChatCompletionImageObject) -> Image.Image:
+def _decode_image(value: ChatCompletionImageObject) -> Image.Image:
     value = pydantic.TypeAdapter(ChatCompletionImageObject).validate_python(value)
     image_url: litellm.ChatCompletionImageUrlObject | str = value["image_url"]
     url: str = image_url["url"] if isinstance(image_url, dict) else image_url
@@ -444,6 +457,10 @@ def _validate_image(value: ChatCompletionImageObject) -> Image.Image:
     return Image.open(fp=io.BytesIO(base64.b64decode(data)))
 
 
+def _validate_image(value: typing.Any) -> Image.Image:
+    return value if isinstance(value, Image.Image) else _decode_image(value)
+
+
 def _serialize_image(value: Image.Image) -> ChatCompletionImageObject:
     buf = io.BytesIO()
     value.save(buf, format="PNG")
-- 
2.43.0


From 5b3230d85e2e052385851b6a4e399703a9c9d842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:03 +0000
Subject: [PATCH 60/77] fix: containers of values of several types are encoded
 element by element

---
 effectful/handlers/llm/completions.py | 13 +++----------
 effectful/handlers/llm/encoding.py    | 26 +++++++++++++++++++++++++-
 2 files changed, 28 insertions(+), 11 deletions(-)

diff --git a/effectful/handlers/llm/completions.py b/effectful/handlers/llm/completions.py
index 4e9f03d..5336801 100644
--- a/effectful/handlers/llm/completions.py
+++ b/effectful/handlers/llm/completions.py
@@ -30,6 +30,7 @@ from effectful.handlers.llm.encoding import (
     TYPE_CHECK_ANCHOR_KEY,
     DecodedToolCall,
     Encodable,
+    encode_value,
     to_content_blocks,
 )
 from effectful.handlers.llm.evaluation import ReplSession, _repl_session
@@ -475,12 +476,7 @@ def call_tool(tool_call: DecodedToolCall) -> Message:
     except Exception as e:
         raise ToolCallExecutionError(raw_tool_call=tool_call, original_error=e) from e
 
-    return_type: pydantic.TypeAdapter[typing.Any] = pydantic.TypeAdapter(
-        Encodable[nested_type(result).value]  # type: ignore[misc]
-    )
-    encoded_result = to_content_blocks(
-        return_type.dump_python(result, mode="json", context={})
-    )
+    encoded_result = to_content_blocks(encode_value(result, context={}))
     message = _make_message(
         dict(role="tool", content=encoded_result, tool_call_id=tool_call.id),
     )
@@ -516,10 +512,7 @@ def call_user(
             continue
 
         obj, _ = formatter.get_field(field_name, (), env)
-        encoder: pydantic.TypeAdapter[typing.Any] = pydantic.TypeAdapter(
-            Encodable[nested_type(obj).value]  # type: ignore[misc]
-        )
-        encoded_obj = encoder.dump_python(obj, mode="json", context=env)
+        encoded_obj = encode_value(obj, context=env)
         for part in to_content_blocks(encoded_obj):
             if part["type"] == "text":
                 text = (
diff --git a/effectful/handlers/llm/encoding.py b/effectful/handlers/llm/encoding.py
index 56bfee7..fd0625a 100644
--- a/effectful/handlers/llm/encoding.py
+++ b/effectful/handlers/llm/encoding.py
@@ -32,7 +32,10 @@ from openai.types.chat import (
     ChatCompletionMessageToolCall as OpenAIChatCompletionMessageToolCall,
 )
 from PIL import Image
-from pydantic_core import PydanticSerializationUnexpectedValue
+from pydantic_core import (
+    PydanticSerializationError,
+    PydanticSerializationUnexpectedValue,
+)
 
 import effectful.handlers.llm.evaluation as evaluation
 from effectful.handlers.llm.template import Tool
@@ -153,6 +156,27 @@ else:
             return TypeToPydanticType().evaluate(item)
 
 
+def encode_value(value: typing.Any, context: Any = None) -> typing.Any:
+    """Encode a value according to its runtime type.
+
+    The elements of a container that has no single encodable element type are
+    encoded one by one.
+    """
+    try:
+        adapter: pydantic.TypeAdapter[Any] = pydantic.TypeAdapter(
+            Encodable[nested_type(value).value]  # type: ignore[misc]
+        )
+        return adapter.dump_python(value, mode="json", context=context)
+    except (pydantic.errors.PydanticSchemaGenerationError, PydanticSerializationError):
+        if type(value) is dict and all(isinstance(k, str) for k in value):
+            return {k: encode_value(v, context) for k, v in value.items()}
+        if type(value) is list:
+            return [encode_value(v, context) for v in value]
+        if type(value) is tuple:
+            return {f"item_{i}": encode_value(v, context) for i, v in enumerate(value)}
+        raise
+
+
 class TypeToPydanticType(TypeEvaluator):
     """Substitute custom types with their Pydantic Annotated equivalents.
 
-- 
2.43.0


From 6d7d81b57d5da894ff22462bfebb97536cf3e2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:03 +0000
Subject: [PATCH 61/77] fix: tool calls encode under their name and parameter
 types, positional-only parameters are bound

---
 effectful/handlers/llm/encoding.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/effectful/handlers/llm/encoding.py b/effectful/handlers/llm/encoding.py
index fd0625a..6c4d9e8 100644
--- a/effectful/handlers/llm/encoding.py
+++ b/effectful/handlers/llm/encoding.py
@@ -839,9 +839,14 @@ def _validate_tool_call(
             Encodable[param.annotation]  # type: ignore[name-defined]
         )
         decoded_args[name] = arg_enc.validate_python(raw_arg, context=ctx)
+    positional = [
+        decoded_args.pop(name)
+        for name, param in sig.parameters.items()
+        if param.kind is inspect.Parameter.POSITIONAL_ONLY and name in decoded_args
+    ]
     return DecodedToolCall(
         tool=tool,
-        bound_args=sig.bind(**decoded_args),
+        bound_args=sig.bind(*positional, **decoded_args),
         id=value.id,
         name=value.function.name,
     )
@@ -852,9 +857,10 @@ def _serialize_tool_call(
 ) -> dict:
     ctx = info.context or {}
     encoded_args = {}
+    parameters = value.bound_args.signature.parameters
     for k, v in value.bound_args.arguments.items():
         v_enc: pydantic.TypeAdapter[Any] = pydantic.TypeAdapter(
-            Encodable[nested_type(v).value]  # type: ignore[misc]
+            Encodable[parameters[k].annotation]  # type: ignore[misc]
         )
         encoded_args[k] = v_enc.dump_python(v, mode="json", context=ctx)
     return OpenAIChatCompletionMessageToolCall.model_validate(
@@ -862,7 +868,7 @@ def _serialize_tool_call(
             "type": "function",
             "id": value.id,
             "function": {
-                "name": value.tool.__name__,
+                "name": value.name,
                 "arguments": json.dumps(encoded_args),
             },
         }
-- 
2.43.0


From 5db8955cf53919582bce68b2ff53ff047bb02da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:03 +0000
Subject: [PATCH 62/77] fix: fields nested in the format specifications of
 prompts are expanded

---
 effectful/handlers/llm/completions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/effectful/handlers/llm/completions.py b/effectful/handlers/llm/completions.py
index 5336801..5547467 100644
--- a/effectful/handlers/llm/completions.py
+++ b/effectful/handlers/llm/completions.py
@@ -512,6 +512,8 @@ def call_user(
             continue
 
         obj, _ = formatter.get_field(field_name, (), env)
+        # fields nested in the specification, as in `{x:>{width}}`
+        spec = formatter.vformat(format_spec, (), env) if format_spec else ""
         encoded_obj = encode_value(obj, context=env)
         for part in to_content_blocks(encoded_obj):
             if part["type"] == "text":
@@ -520,7 +522,7 @@ def call_user(
                     if conversion
                     else part["text"]
                 )
-                buf.append(formatter.format_field(text, format_spec or ""))
+                buf.append(formatter.format_field(text, spec))
             else:
                 flush_text()
                 parts.append(part)
-- 
2.43.0


From 24959bd8ffdac5e8bdd89f4f0b6a015a033834db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:03 +0000
Subject: [PATCH 63/77] fix: collecting tools does not evaluate the properties
 of agents

---
 effectful/handlers/llm/completions.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/effectful/handlers/llm/completions.py b/effectful/handlers/llm/completions.py
index 5547467..8a776c0 100644
--- a/effectful/handlers/llm/completions.py
+++ b/effectful/handlers/llm/completions.py
@@ -244,9 +244,13 @@ def collect_tools(
             result[name] = obj
         elif isinstance(obj, Agent):
             for cls in type(obj).__mro__:
-                for attr_name in vars(cls):
-                    if isinstance(getattr(obj, attr_name), Tool):
-                        result[f"{name}__{attr_name}"] = getattr(obj, attr_name)
+                for attr_name, member in vars(cls).items():
+                    # do not evaluate properties, which may fail or have effects
+                    if not isinstance(member, Tool | staticmethod | classmethod):
+                        continue
+                    tool = getattr(obj, attr_name)
+                    if isinstance(tool, Tool):
+                        result[f"{name}__{attr_name}"] = tool
 
     # Same Tool can appear under multiple names when visible both in the
     # enclosing scope and via an Agent instance's MRO.  Keep only the
-- 
2.43.0


From f49d1f4227b4252d121199222dfac675936963d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:03 +0000
Subject: [PATCH 64/77] fix: a template that is not recursive is not offered to
 itself as a method

---
 effectful/handlers/llm/completions.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/effectful/handlers/llm/completions.py b/effectful/handlers/llm/completions.py
index 8a776c0..d2046a4 100644
--- a/effectful/handlers/llm/completions.py
+++ b/effectful/handlers/llm/completions.py
@@ -387,7 +387,15 @@ def call_assistant[T](
             includes the raw assistant message for retry handling.
     """
     anchor = kwargs.pop("anchor", None)  # ride in kwargs; pop before the LLM call
-    tools = dict(collect_tools(env))
+    # A template is not a tool of itself unless it is declared to be recursive,
+    # under whatever name it can be reached (such as the method of an agent).
+    tools = {
+        k: t
+        for k, t in collect_tools(env).items()
+        if anchor is None
+        or t.__default__ is not anchor
+        or _is_recursive_signature(t.__signature__)
+    }
     tool_specs = {
         k: typing.cast(
             pydantic.TypeAdapter[typing.Any],
-- 
2.43.0


From 79257a3e5f16ad5c163e444660aa16a6f76f0e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:03 +0000
Subject: [PATCH 65/77] fix: an empty answer is text, and a missing one is an
 error that can be retried

---
 effectful/handlers/llm/completions.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/effectful/handlers/llm/completions.py b/effectful/handlers/llm/completions.py
index d2046a4..7c04f37 100644
--- a/effectful/handlers/llm/completions.py
+++ b/effectful/handlers/llm/completions.py
@@ -452,14 +452,14 @@ def call_assistant[T](
     result = None
     if not tool_calls:
         # return response
-        serialized_result = message.get("content") or message.get("reasoning_content")
-        assert isinstance(serialized_result, str), (
-            "final response from the model should be a string"
-        )
-        if response_type is str:
+        content = message.get("content")
+        serialized_result = content or message.get("reasoning_content") or content
+        if response_type is str and isinstance(serialized_result, str):
             result = typing.cast(T, serialized_result)
         else:
             try:
+                if not isinstance(serialized_result, str):
+                    raise ValueError("final response from the model should be a string")
                 # Add the type-check anchor to the decode context only (not `env`,
                 # which is exposed as tools), so a synthesized result is checked
                 # against the Template's source.
-- 
2.43.0


From 016849fa7ea8169d1b449cda542352079fd3f320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:03 +0000
Subject: [PATCH 66/77] fix: retries answer every tool call of a message with a
 malformed one

---
 effectful/handlers/llm/completions.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/effectful/handlers/llm/completions.py b/effectful/handlers/llm/completions.py
index 7c04f37..791e98c 100644
--- a/effectful/handlers/llm/completions.py
+++ b/effectful/handlers/llm/completions.py
@@ -612,7 +612,25 @@ class RetryLLMHandler(ObjectInterpretation):
         e = retry_state.outcome.exception()  # type: ignore
         assert isinstance(e, (ToolCallDecodingError, ResultDecodingError))
         append_message(e.raw_message)
-        append_message(e.to_feedback_message(self.include_traceback))
+        if isinstance(e, ToolCallDecodingError):
+            # every tool call of the message has to be answered, in order
+            for raw_tool_call in e.raw_message.get("tool_calls") or []:
+                tool_call_id = raw_tool_call["id"]
+                if tool_call_id == e.raw_tool_call.id:
+                    append_message(e.to_feedback_message(self.include_traceback))
+                else:
+                    append_message(
+                        _make_message(
+                            {
+                                "role": "tool",
+                                "tool_call_id": tool_call_id,
+                                "content": "Not executed, because another tool call "
+                                "of the same message could not be decoded.",
+                            }
+                        )
+                    )
+        else:
+            append_message(e.to_feedback_message(self.include_traceback))
         if self._user_before_sleep is not None:
             self._user_before_sleep(retry_state)
 
-- 
2.43.0


From d6474ccdd10926b506530ff8264b80a7bbf87e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:03 +0000
Subject: [PATCH 67/77] fix: templates see the current values of their lexical
 scope, class and static methods included

Prompts of class methods are validated, and names nested in format specifications.
---
 effectful/handlers/llm/template.py | 165 ++++++++++++++++++++---------
 1 file changed, 117 insertions(+), 48 deletions(-)

diff --git a/effectful/handlers/llm/template.py b/effectful/handlers/llm/template.py
index 613835d..978a32d 100644
--- a/effectful/handlers/llm/template.py
+++ b/effectful/handlers/llm/template.py
@@ -6,10 +6,15 @@ import string
 import types
 import typing
 from collections import ChainMap, OrderedDict
-from collections.abc import Callable, Mapping, MutableMapping
+from collections.abc import Callable, Iterator, Mapping, MutableMapping
 from typing import Annotated, Any
 
-from effectful.ops.types import Annotation, Operation, _method_op_lock
+from effectful.ops.types import (
+    Annotation,
+    Operation,
+    _ClassMethodOpDescriptor,
+    _method_op_lock,
+)
 
 
 class _IsRecursiveAnnotation(Annotation):
@@ -109,6 +114,79 @@ class Tool[**P, T](Operation[P, T]):
         return typing.cast("Tool[P, T]", super().define(*args, **kwargs))
 
 
+class _FrameLocals(Mapping[str, Any]):
+    """The current values of the local variables of a frame.
+
+    Before Python 3.13, :attr:`frame.f_locals` is a snapshot.
+    """
+
+    def __init__(self, frame: types.FrameType):
+        self._frame = frame
+
+    def __getitem__(self, name: str) -> Any:
+        return self._frame.f_locals[name]
+
+    def __contains__(self, name: object) -> bool:
+        return name in self._frame.f_locals
+
+    def __iter__(self) -> Iterator[str]:
+        return iter(dict(self._frame.f_locals))
+
+    def __len__(self) -> int:
+        return len(self._frame.f_locals)
+
+
+def _defines_code(outer: types.CodeType, inner: types.CodeType) -> bool:
+    """Whether ``inner`` is the code of a definition nested in ``outer``."""
+    return any(
+        const is inner or _defines_code(const, inner)
+        for const in outer.co_consts
+        if isinstance(const, types.CodeType)
+    )
+
+
+def _lexical_context(fn: Callable, frame: types.FrameType | None) -> ChainMap[str, Any]:
+    """The variables visible at the definition of ``fn``, innermost scope first.
+
+    ``frame`` is the frame to start looking for the enclosing functions of ``fn``
+    from. Class bodies are not lexical scopes for methods, so their locals are not
+    captured.
+    """
+    assert frame is not None
+    definition = inspect.unwrap(fn)
+    context_globals = getattr(definition, "__globals__", frame.f_globals)
+    code: types.CodeType | None = getattr(definition, "__code__", None)
+    if code is not None and code.co_qualname != fn.__qualname__:
+        code = None
+
+    # Use the qualname of the decorated function to identify which
+    # frames are *lexical* enclosers (as opposed to dynamic callers).
+    # A segment preceding "<locals>" in the qualname is an enclosing
+    # function; everything else (class names, the function itself) is not.
+    parts = fn.__qualname__.split(".")
+    enclosing_fns = [
+        parts[i] for i in range(len(parts) - 1) if parts[i + 1] == "<locals>"
+    ]
+    enclosing_fns.reverse()  # innermost first for frame walking
+
+    contexts: list[Mapping[str, Any]] = []
+    for fn_name in enclosing_fns:
+        while frame is not None and frame.f_locals is not frame.f_globals:
+            encloser = frame
+            frame = frame.f_back
+            if (
+                encloser.f_code.co_name == fn_name
+                and encloser.f_code.co_flags & inspect.CO_OPTIMIZED  # not a class body
+                and (code is None or _defines_code(encloser.f_code, code))
+            ):
+                contexts.append(_FrameLocals(encloser))
+                if code is not None:
+                    code = encloser.f_code
+                break
+    contexts.append(types.MappingProxyType(context_globals))
+    return ChainMap(*typing.cast(list[MutableMapping[str, Any]], contexts))
+
+
 class Template[**P, T](Tool[P, T]):
     """A :class:`Template` is a function that is implemented by a large language model.
 
@@ -176,6 +254,7 @@ class Template[**P, T](Tool[P, T]):
         cls,
         template: "Template",
         context: ChainMap[str, Any],
+        signature: inspect.Signature | None = None,
     ) -> None:
         """Validate that all format string variables in the docstring
         refer to names resolvable at call time.
@@ -187,25 +266,34 @@ class Template[**P, T](Tool[P, T]):
         """
         doc = template.__prompt_template__
         formatter = string.Formatter()
-        param_names = set(template.__signature__.parameters.keys())
+        if signature is None:
+            signature = template.__signature__
+        param_names = set(signature.parameters.keys())
         context_keys = set(context.keys())
         allowed_names = param_names | context_keys
 
         unresolved: list[str] = []
-        for _, field_name, _, _ in formatter.parse(doc):
-            if field_name is None:
-                continue
-            # Extract root identifier from compound names like
-            match = re.match(r"^(\w+)", field_name)
-            root = match.group(1) if match else field_name
-            if root not in allowed_names:
-                unresolved.append(field_name)
+
+        def validate(format_string: str) -> None:
+            for _, field_name, format_spec, _ in formatter.parse(format_string):
+                if field_name is None:
+                    continue
+                # Extract the root of compound names like `self.name` or `xs[0]`,
+                # exactly as `str.format` does.
+                root = re.split(r"[.\[]", field_name, maxsplit=1)[0]
+                if root not in allowed_names:
+                    unresolved.append(field_name)
+                # Format specifications may themselves contain fields.
+                if format_spec:
+                    validate(format_spec)
+
+        validate(doc)
 
         if unresolved:
             raise TypeError(
                 f"Template '{template.__name__}' docstring references undefined "
                 f"variables {list(sorted(unresolved))} that are not in the signature "
-                f"{{{template.__signature__}}} or lexical scope."
+                f"{{{signature}}} or lexical scope."
             )
 
     @property
@@ -240,6 +328,8 @@ class Template[**P, T](Tool[P, T]):
             return cached_op
 
         result = super().__get__(instance, owner)
+        if result is self or not isinstance(result, Template):
+            return result
         self_param_name = list(self.__signature__.parameters.keys())[0]
         result.__context__ = self.__context__.new_child({self_param_name: instance})
         if isinstance(instance, Agent):
@@ -273,47 +363,26 @@ class Template[**P, T](Tool[P, T]):
         frame = frame.f_back
         assert frame is not None
 
-        # Skip class body frames: in Python, class bodies are not lexical
-        # scopes for methods, so their locals should not be captured.
-        qualname = frame.f_locals.get("__qualname__")
-        if qualname is not None:
-            for name in reversed(qualname.split(".")):
-                if name == "<locals>":
-                    break
-                assert frame is not None
-                frame = frame.f_back
-
-        # Use the qualname of the decorated function to identify which
-        # frames are *lexical* enclosers (as opposed to dynamic callers).
-        # A segment preceding "<locals>" in the qualname is an enclosing
-        # function; everything else (class names, the function itself) is not.
-        assert frame is not None
         _fn = default
         if isinstance(_fn, staticmethod | classmethod):
             _fn = _fn.__func__
-        parts = _fn.__qualname__.split(".")
-        enclosing_fns = [
-            parts[i] for i in range(len(parts) - 1) if parts[i + 1] == "<locals>"
-        ]
-        enclosing_fns.reverse()  # innermost first for frame walking
-
-        globals_proxy: types.MappingProxyType[str, Any] = types.MappingProxyType(
-            frame.f_globals
-        )
-        contexts: list[types.MappingProxyType[str, Any]] = []
-        for fn_name in enclosing_fns:
-            while frame is not None and frame.f_locals is not frame.f_globals:
-                if frame.f_code.co_name == fn_name:
-                    contexts.append(types.MappingProxyType(frame.f_locals))
-                    frame = frame.f_back
-                    break
-                frame = frame.f_back
-        contexts.append(globals_proxy)
-        context: ChainMap[str, Any] = ChainMap(
-            *typing.cast(list[MutableMapping[str, Any]], contexts)
-        )
+        context = _lexical_context(_fn, frame)
         op = super().define(default, *args, **kwargs)
         op.__context__ = context  # type: ignore[attr-defined]
+        if isinstance(op, _ClassMethodOpDescriptor):
+            # The operation of each class is defined when it is first accessed,
+            # by which time the enclosing scopes cannot be found any more.
+            define_for_class = op._define
+            signature = inspect.signature(_fn)
+            cls_param_name = next(iter(signature.parameters))
+
+            def define_in_context(bound):
+                result = define_for_class(bound)
+                result.__context__ = context.new_child({cls_param_name: bound.__self__})
+                return result
+
+            op._define = define_in_context
+            cls._validate_prompt(cls(_fn, *args, **kwargs), context, signature)
         mod = inspect.getmodule(_fn)
         op.__system_prompt__ = inspect.getdoc(mod) or ""  # type: ignore[attr-defined]
         # Keep validation on original define-time callables, but skip the bound wrapper path.
-- 
2.43.0


From 672ea6bc8802023776184f4b736be0177078069f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:50 +0000
Subject: [PATCH 68/77] fix: a key named $ref in the schema of a tuple item is
 not taken for a reference

---
 effectful/handlers/llm/encoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effectful/handlers/llm/encoding.py b/effectful/handlers/llm/encoding.py
index 6c4d9e8..2889c2a 100644
--- a/effectful/handlers/llm/encoding.py
+++ b/effectful/handlers/llm/encoding.py
@@ -339,7 +339,7 @@ def _inline_refs(schema: dict) -> dict:
 
     def _resolve(obj):
         if isinstance(obj, dict):
-            if "$ref" in obj:
+            if isinstance(obj.get("$ref"), str):
                 ref_name = obj["$ref"].split("/")[-1]
                 if ref_name in defs:
                     return _resolve(defs[ref_name])
-- 
2.43.0


From 4cae7e64ada66f27e03a754ba172f2faacaa214d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:08 +0000
Subject: [PATCH 69/77] fix: the restricted provider executes in the namespace
 it is given

---
 effectful/handlers/llm/evaluation.py | 76 ++++++++++++++--------------
 1 file changed, 39 insertions(+), 37 deletions(-)

diff --git a/effectful/handlers/llm/evaluation.py b/effectful/handlers/llm/evaluation.py
index 729d818..cc8cf89 100644
--- a/effectful/handlers/llm/evaluation.py
+++ b/effectful/handlers/llm/evaluation.py
@@ -526,43 +526,45 @@ class RestrictedEvalProvider(ObjectInterpretation):
         bytecode: CodeType,
         env: dict[str, Any],
     ) -> None:
-        # Build restricted globals from RestrictedPython's defaults
-        rglobals: dict[str, Any] = safe_globals.copy()
-
-        # Enable class definitions (required for Python 3)
-        rglobals["__metaclass__"] = type
-        rglobals["__name__"] = "restricted"
-
-        # Layer `env` on top (without letting callers replace the restricted builtins).
-        rglobals.update({k: v for k, v in env.items() if k != "__builtins__"})
-
-        # Enable for loops and comprehensions
-        rglobals["_getiter_"] = Eval.default_guarded_getiter
-        # Enable sequence unpacking in comprehensions and for loops
-        rglobals["_iter_unpack_sequence_"] = Guards.guarded_iter_unpack_sequence
-
-        rglobals["getattr"] = Guards.safer_getattr
-        rglobals["setattr"] = Guards.guarded_setattr
-        rglobals["_write_"] = lambda x: x
-
-        # RestrictedPython rewrites `print(...)` into its `_print_` collector
-        # protocol; route it to the real stdout so output-capturing callers
-        # (e.g. redirect_stdout) see it instead of a discarded collector.
-        rglobals["_print_"] = _StdoutPrintCollector
-
-        # Snapshot value identities before execution so we can copy back every
-        # *binding effect* — both new names and rebindings of seeded names.
-        before = dict(rglobals)
-        builtins.exec(bytecode, rglobals, rglobals)
-
-        sentinel = object()
-        env.update(
-            {
-                key: value
-                for key, value in rglobals.items()
-                if key != "__builtins__" and before.get(key, sentinel) is not value
-            }
-        )
+        # Like the builtins, the guards are found behind the bindings of `env`, so
+        # `env` itself can be the namespace of the code: functions see later
+        # rebindings, and no effect is lost when the code raises.
+        guards: dict[str, Any] = {
+            **safe_globals["__builtins__"],
+            # Enable class definitions (required for Python 3)
+            "__metaclass__": type,
+            "__name__": "restricted",
+            # Enable for loops and comprehensions
+            "_getiter_": Eval.default_guarded_getiter,
+            # Enable sequence unpacking in comprehensions and for loops
+            "_iter_unpack_sequence_": Guards.guarded_iter_unpack_sequence,
+            "getattr": Guards.safer_getattr,
+            "setattr": Guards.guarded_setattr,
+            "_write_": lambda x: x,
+            # RestrictedPython rewrites `print(...)` into its `_print_` collector
+            # protocol; route it to the real stdout so output-capturing callers
+            # (e.g. redirect_stdout) see it instead of a discarded collector.
+            "_print_": _StdoutPrintCollector,
+        }
+        # Do not let callers replace the restricted builtins or shadow the guards.
+        for name in guards:
+            if name.startswith("_") and name != "__name__":
+                env.pop(name, None)
+        for builtin in (getattr, setattr, delattr):
+            if env.get(builtin.__name__) is builtin:
+                del env[builtin.__name__]
+        env["__builtins__"] = guards
+
+        # The collector of the top level is not a binding of the code.
+        missing = object()
+        collector = env.get("_print", missing)
+        try:
+            builtins.exec(bytecode, env, env)
+        finally:
+            if collector is not missing:
+                env["_print"] = collector
+            else:
+                env.pop("_print", None)
 
 
 class _OpCommandCompiler(codeop.CommandCompiler):
-- 
2.43.0


From 1a187cfb629e8d8da9d2a24e9e0aa1788be12b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:08 +0000
Subject: [PATCH 70/77] fix: subscripts, unpacking and augmented assignment
 work under the restricted provider

---
 effectful/handlers/llm/evaluation.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/effectful/handlers/llm/evaluation.py b/effectful/handlers/llm/evaluation.py
index cc8cf89..8d55977 100644
--- a/effectful/handlers/llm/evaluation.py
+++ b/effectful/handlers/llm/evaluation.py
@@ -9,6 +9,7 @@ import io
 import json
 import linecache
 import logging
+import operator
 import os
 import shutil
 import subprocess
@@ -468,6 +469,28 @@ class _StdoutPrintCollector(PrintCollector):
         builtins.print(*objects, **kwargs)
 
 
+_INPLACE_OPERATORS: dict[str, collections.abc.Callable[[Any, Any], Any]] = {
+    "+=": operator.iadd,
+    "-=": operator.isub,
+    "*=": operator.imul,
+    "/=": operator.itruediv,
+    "//=": operator.ifloordiv,
+    "%=": operator.imod,
+    "**=": operator.ipow,
+    "@=": operator.imatmul,
+    "<<=": operator.ilshift,
+    ">>=": operator.irshift,
+    "&=": operator.iand,
+    "|=": operator.ior,
+    "^=": operator.ixor,
+}
+
+
+def _inplace(op: str, target: Any, value: Any) -> Any:
+    """`_inplacevar_` of RestrictedPython: the result of ``target op value``."""
+    return _INPLACE_OPERATORS[op](target, value)
+
+
 class RestrictedEvalProvider(ObjectInterpretation):
     """
     Safer provider using RestrictedPython.
@@ -538,6 +561,10 @@ class RestrictedEvalProvider(ObjectInterpretation):
             "_getiter_": Eval.default_guarded_getiter,
             # Enable sequence unpacking in comprehensions and for loops
             "_iter_unpack_sequence_": Guards.guarded_iter_unpack_sequence,
+            # Enable unpacking assignments, subscripts and augmented assignments
+            "_unpack_sequence_": Guards.guarded_unpack_sequence,
+            "_getitem_": Eval.default_guarded_getitem,
+            "_inplacevar_": _inplace,
             "getattr": Guards.safer_getattr,
             "setattr": Guards.guarded_setattr,
             "_write_": lambda x: x,
-- 
2.43.0


From a8da0eb29c417af7ed2af3c849335cba6161bd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:08 +0000
Subject: [PATCH 71/77] fix: missing attributes raise AttributeError under the
 restricted provider

---
 effectful/handlers/llm/evaluation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/effectful/handlers/llm/evaluation.py b/effectful/handlers/llm/evaluation.py
index 8d55977..f1e565a 100644
--- a/effectful/handlers/llm/evaluation.py
+++ b/effectful/handlers/llm/evaluation.py
@@ -565,7 +565,9 @@ class RestrictedEvalProvider(ObjectInterpretation):
             "_unpack_sequence_": Guards.guarded_unpack_sequence,
             "_getitem_": Eval.default_guarded_getitem,
             "_inplacevar_": _inplace,
-            "getattr": Guards.safer_getattr,
+            # Enable attribute access that fails for missing attributes
+            "_getattr_": Guards.safer_getattr_raise,
+            "getattr": Guards.safer_getattr_raise,
             "setattr": Guards.guarded_setattr,
             "_write_": lambda x: x,
             # RestrictedPython rewrites `print(...)` into its `_print_` collector
-- 
2.43.0


From 79fedff492f4c9a974463115d65af4be6927caca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:07 +0000
Subject: [PATCH 72/77] fix: calls with unpacked arguments work under the
 restricted provider

---
 effectful/handlers/llm/evaluation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/effectful/handlers/llm/evaluation.py b/effectful/handlers/llm/evaluation.py
index f1e565a..afe9fbf 100644
--- a/effectful/handlers/llm/evaluation.py
+++ b/effectful/handlers/llm/evaluation.py
@@ -565,6 +565,8 @@ class RestrictedEvalProvider(ObjectInterpretation):
             "_unpack_sequence_": Guards.guarded_unpack_sequence,
             "_getitem_": Eval.default_guarded_getitem,
             "_inplacevar_": _inplace,
+            # Enable calls with unpacked arguments
+            "_apply_": lambda f, *args, **kwargs: f(*args, **kwargs),
             # Enable attribute access that fails for missing attributes
             "_getattr_": Guards.safer_getattr_raise,
             "getattr": Guards.safer_getattr_raise,
-- 
2.43.0


From 75861a7352f641bc23481c75d9534e3db54a7945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:12 +0000
Subject: [PATCH 73/77] fix: callables that return None can be decoded

---
 effectful/handlers/llm/encoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effectful/handlers/llm/encoding.py b/effectful/handlers/llm/encoding.py
index 2889c2a..5a55d5b 100644
--- a/effectful/handlers/llm/encoding.py
+++ b/effectful/handlers/llm/encoding.py
@@ -654,7 +654,7 @@ def _pydantic_callable(callable_type: Any) -> Any:
                 f"got {type(value)}"
             )
 
-        if expected_return is None:
+        if not type_args:
             raise TypeError(
                 "Cannot decode/synthesize callable without a concrete type signature. "
                 "Use Callable[[ParamTypes...], ReturnType] or Callable[..., ReturnType] "
-- 
2.43.0


From 775ee7992d6f540c9da2da4fdac809eb97308846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:12 +0000
Subject: [PATCH 74/77] fix: decoded functions keep their own source

---
 effectful/handlers/llm/encoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/effectful/handlers/llm/encoding.py b/effectful/handlers/llm/encoding.py
index 5a55d5b..7aecc41 100644
--- a/effectful/handlers/llm/encoding.py
+++ b/effectful/handlers/llm/encoding.py
@@ -662,7 +662,7 @@ def _pydantic_callable(callable_type: Any) -> Any:
             )
 
         ctx = info.context or {}
-        filename = f"<synthesis:{id(encoded)}>"
+        filename = f"<synthesis:{uuid.uuid4()}>"
         module: ast.AST = evaluation.parse(encoded.module_code, filename)
 
         if not isinstance(module, ast.Module) or not module.body:
-- 
2.43.0


From b841c74f2d2552ef5421b29b9d330c1934884399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:12 +0000
Subject: [PATCH 75/77] fix: the whole signature of a synthesized function is
 validated before it runs

---
 effectful/handlers/llm/encoding.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/effectful/handlers/llm/encoding.py b/effectful/handlers/llm/encoding.py
index 7aecc41..1dae6bd 100644
--- a/effectful/handlers/llm/encoding.py
+++ b/effectful/handlers/llm/encoding.py
@@ -571,16 +571,26 @@ def _validate_signature_ast(
     expected_params: list[type] | None,
 ) -> None:
     """Validate the function signature from AST before execution."""
-    if expected_params is not None:
-        ast_params = func_ast.args.args + func_ast.args.posonlyargs
-        if len(ast_params) != len(expected_params):
-            params_str = ", ".join(
-                getattr(t, "__name__", str(t)) for t in expected_params
-            )
-            raise ValueError(
-                f"synthesized function must take exactly {len(expected_params)} "
-                f"parameter(s) ({params_str}), but got {len(ast_params)}"
-            )
+    args = func_ast.args
+    ast_params = args.posonlyargs + args.args
+    other_params = args.kwonlyargs + [
+        a for a in (args.vararg, args.kwarg) if a is not None
+    ]
+    # What a decorator makes of the rest of the signature is not known yet: it is left
+    # to `_validate_signature_callable`.
+    decorated = bool(func_ast.decorator_list)
+    if expected_params is not None and (
+        len(ast_params) != len(expected_params) or (other_params and not decorated)
+    ):
+        params_str = ", ".join(getattr(t, "__name__", str(t)) for t in expected_params)
+        raise ValueError(
+            f"synthesized function must take exactly {len(expected_params)} "
+            f"parameter(s) ({params_str}), but got {len(ast_params + other_params)}"
+        )
+    if func_ast.returns is None and not decorated:
+        raise ValueError(
+            "decode() requires synthesized function to have a return type annotation"
+        )
 
 
 def _validate_signature_callable(
-- 
2.43.0


From c7c604e640ba7a7c9b3f352079635c7962ec8737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:12 +0000
Subject: [PATCH 76/77] fix: decorators of the first generated statement are
 type checked

---
 effectful/handlers/llm/evaluation.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/effectful/handlers/llm/evaluation.py b/effectful/handlers/llm/evaluation.py
index afe9fbf..7c2db60 100644
--- a/effectful/handlers/llm/evaluation.py
+++ b/effectful/handlers/llm/evaluation.py
@@ -171,6 +171,12 @@ def _find_def_at_lineno(
     return None
 
 
+def _first_line(node: ast.stmt) -> int:
+    """The first line of a statement, that of its first decorator if it has any."""
+    decorators: list[ast.expr] = getattr(node, "decorator_list", [])
+    return min([node.lineno, *(d.lineno for d in decorators)])
+
+
 def _region_errors(stdout: str, lo: int | None, hi: int | None) -> list[dict[str, Any]]:
     """mypy ``--output=json`` diagnostics of severity ``error`` whose reported
     line falls within ``[lo, hi]`` -- the spliced region. An open bound (``None``)
@@ -253,7 +259,7 @@ def splice_into_source(
     def_index = _def_nodes(module_ast).index(template_def)
     checked_source = ast.unparse(ast.fix_missing_locations(module_ast))
     spliced = _def_nodes(ast.parse(checked_source))[def_index]
-    lo = spliced.body[0].lineno  # first generated statement (body is non-empty)
+    lo = _first_line(spliced.body[0])  # first generated statement (body is non-empty)
     hi = spliced.end_lineno or lo
     return checked_source, lo, hi
 
@@ -333,7 +339,7 @@ def _splice_repl(
     def_index = _def_nodes(module_ast).index(template_def)
     checked_source = ast.unparse(ast.fix_missing_locations(module_ast))
     spliced = _def_nodes(ast.parse(checked_source))[def_index]
-    lo = spliced.body[-n_current].lineno
+    lo = _first_line(spliced.body[-n_current])
     hi = spliced.body[-1].end_lineno or lo
     return checked_source, lo, hi
 
-- 
2.43.0


From b67cf45ae354a50010feb0469edc68f8f498d3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:01 +0000
Subject: [PATCH 77/77] fix: readers of lexical variables skip tools and agents

---
 effectful/handlers/llm/completions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/effectful/handlers/llm/completions.py b/effectful/handlers/llm/completions.py
index 791e98c..876399c 100644
--- a/effectful/handlers/llm/completions.py
+++ b/effectful/handlers/llm/completions.py
@@ -279,6 +279,9 @@ class LexicalReaders(ObjectInterpretation):
         for name, obj in env.items():
             if name in result or not name.isidentifier():
                 continue
+            # a tool under another of its names, or an agent
+            if isinstance(obj, Tool | Agent):
+                continue
             try:
                 result[name] = _LexicalVariableTool.define(obj, name=name)
             # `TypeError` joins the three Pydantic errors because the
-- 
2.43.0

