From 6d99502d88a1a27a8bc48b4d680ad9d39be8d23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:34 +0000
Subject: [PATCH 01/46] fix: clamp the clip bounds of a shifted index to the
 array it reads

a[max(i - 4, -2)] and a[min(i, -1)] read from the wrong end of the array (or
returned an array of the wrong size), as bounds given by the program were used as
slice positions as they are. The window is also kept non-negative when either array is empty.
---
 ein/codegen/array_indexing.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/ein/codegen/array_indexing.py b/ein/codegen/array_indexing.py
index 8eab888..53b965e 100644
--- a/ein/codegen/array_indexing.py
+++ b/ein/codegen/array_indexing.py
@@ -89,14 +89,19 @@ def transform_get(
                 zero = Builder.const(0).expr
                 size = index_sizes[index]
                 dim1 = (Builder(go(dim).normal) - Builder.const(1)).expr
+
+                def bound(expr_: phi.Expr) -> yarr.Expr:
+                    value = Builder(go(expr_).normal)
+                    return value.max(Builder(zero)).min(Builder(dim1)).expr
+
                 return Axial(
                     axes,
                     pad_slice_get(
                         target.expr,
                         target.positional_axis(0),
                         go(shift).normal if shift is not None else zero,
-                        go(low).normal if low is not None else zero,
-                        go(high).normal if high is not None else dim1,
+                        bound(low) if low is not None else zero,
+                        bound(high) if high is not None else dim1,
                         size,
                     ),
                 )
@@ -138,10 +143,11 @@ def pad_slice_get(
     #  b[i] = a[min(max(i + shift, low), high)]
     # using the operation
     #  b = pad(a[start:stop], (left, right))
-    # (where indexing is along the selected axis)
-    start = shift.max(low).min(high)
-    stop = (shift + size - one).max(low).min(high) + one
-    left = (low - shift).max(zero).min(size - one)
+    # (where indexing is along the selected axis), supposing low and high are in bounds of a.
+    # The slice is empty if a or b are.
+    start = shift.max(low).min(high).max(zero)
+    stop = ((shift + size - one).max(low).min(high) + one).min(start + size)
+    left = (low - shift).min(size - one).max(zero)
     right = size - (stop - start) - left
 
     return yarr.Pad(
-- 
2.43.0


From 4597fb2687e58179fbf0d2cf4ffb7d3882b40072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:51 +0000
Subject: [PATCH 02/46] fix: keep the element type and shape when padding on
 NumPy

Padding integer and boolean arrays returned float64 arrays, and padding an empty
array returned an array of another shape.
---
 ein/backend/numpy_backend.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ein/backend/numpy_backend.py b/ein/backend/numpy_backend.py
index 00ae828..5e49c7e 100644
--- a/ein/backend/numpy_backend.py
+++ b/ein/backend/numpy_backend.py
@@ -90,12 +90,13 @@ INSTANCE = NumpyBackend()
 def fast_edge_pad(
     target: numpy.ndarray, pads: tuple[tuple[int, int], ...]
 ) -> numpy.ndarray:
+    shape = tuple(d + lt + rt for d, (lt, rt) in zip(target.shape, pads))
     if not target.size:
-        return numpy.empty(tuple(lt + rt for lt, rt in pads))
+        return numpy.zeros(shape, dtype=target.dtype)
     if sum(lt + rt for lt, rt in pads) == 0:
         return target.copy()
     if all(not (lt and rt) for lt, rt in pads):
-        res = numpy.empty([d + lt + rt for d, (lt, rt) in zip(target.shape, pads)])
+        res = numpy.empty(shape, dtype=target.dtype)
         edge_index: list[int | numpy.ndarray | slice] = []
         edge_unsqueeze: list[None | slice] = []
         dest: list[slice] = []
-- 
2.43.0


From 48cc17223bf5e567aa6452bcef419b1817d42758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:22 +0000
Subject: [PATCH 03/46] fix: folds of min and max over an empty axis return
 their initial value

They raised, as reductions of an empty axis have no identity in NumPy, Torch and JAX.
---
 ein/backend/jax_backend.py   |  3 ++-
 ein/backend/numpy_backend.py |  3 ++-
 ein/backend/torch_backend.py | 10 +++++++++-
 ein/codegen/yarr.py          |  5 +++++
 4 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/ein/backend/jax_backend.py b/ein/backend/jax_backend.py
index 3e43e96..f3f2b9c 100644
--- a/ein/backend/jax_backend.py
+++ b/ein/backend/jax_backend.py
@@ -176,7 +176,8 @@ def stage_in_array(
             case yarr.ReduceAxis(kind, axis, target_):
                 target = go(target_)
                 call = REDUCE[kind]
-                return lambda env: call(target(env), axis=axis)
+                initial = yarr.REDUCE_IDENTITY[kind]
+                return lambda env: call(target(env), axis=axis, initial=initial)
             case yarr.Cast(dtype, target_):
                 target = go(target_)
                 return lambda env: target(env).astype(dtype)
diff --git a/ein/backend/numpy_backend.py b/ein/backend/numpy_backend.py
index 5e49c7e..5b7140a 100644
--- a/ein/backend/numpy_backend.py
+++ b/ein/backend/numpy_backend.py
@@ -138,7 +138,8 @@ def stage_in_array(
             case yarr.ReduceAxis(kind, axis, target_):
                 target = go(target_)
                 call = yarr.REDUCE_KINDS[kind].reduce
-                return lambda env: call(target(env), axis=axis)
+                initial = yarr.REDUCE_IDENTITY[kind]
+                return lambda env: call(target(env), axis=axis, initial=initial)
             case yarr.Cast(dtype, target_):
                 target = go(target_)
                 return lambda env: target(env).astype(dtype)
diff --git a/ein/backend/torch_backend.py b/ein/backend/torch_backend.py
index 7141a88..3b07216 100644
--- a/ein/backend/torch_backend.py
+++ b/ein/backend/torch_backend.py
@@ -133,7 +133,15 @@ def stage_in_array(
             case yarr.ReduceAxis(kind, axis, target_):
                 target = go(target_)
                 call = REDUCE[kind]
-                return lambda env: call(target(env), axis=axis)
+                initial = yarr.REDUCE_IDENTITY[kind]
+
+                def reduce_axis(env: Env) -> torch.Tensor:
+                    x = cast(torch.Tensor, target(env))
+                    if not x.shape[axis]:
+                        return x.new_full((*x.shape[:axis], *x.shape[axis + 1 :]), initial)
+                    return call(x, axis=axis)
+
+                return reduce_axis
             case yarr.Cast(dtype, target_):
                 target = go(target_)
                 return lambda env: target(env).to(dtype)
diff --git a/ein/codegen/yarr.py b/ein/codegen/yarr.py
index fd025ec..a202462 100644
--- a/ein/codegen/yarr.py
+++ b/ein/codegen/yarr.py
@@ -758,6 +758,11 @@ REDUCE_KINDS: dict[Any, Any] = {
     ReduceAxis.Kind.minimum: numpy.minimum,
     ReduceAxis.Kind.maximum: numpy.maximum,
 }
+REDUCE_IDENTITY: dict[Any, float] = {
+    ReduceAxis.Kind.add: 0.0,
+    ReduceAxis.Kind.minimum: float("+inf"),
+    ReduceAxis.Kind.maximum: float("-inf"),
+}
 REDUCE_UNDERLYING: dict[Any, Any] = {
     ReduceAxis.Kind.add: BinaryElementwise.Kind.add,
     ReduceAxis.Kind.minimum: BinaryElementwise.Kind.minimum,
-- 
2.43.0


From e2108575c9a8dc4d920558db869a977e3aea2c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:22 +0000
Subject: [PATCH 04/46] fix: pad the right axes on Torch, for any rank, and
 empty arrays

Torch takes padding from the last axis backwards, so any axis but the only one was
padded in place of another, and replication is only implemented up to rank 3.
Neither Torch nor JAX replicate the edge of an empty array.
---
 ein/backend/jax_backend.py   |  3 +++
 ein/backend/torch_backend.py | 18 +++++++++---------
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/ein/backend/jax_backend.py b/ein/backend/jax_backend.py
index f3f2b9c..463f091 100644
--- a/ein/backend/jax_backend.py
+++ b/ein/backend/jax_backend.py
@@ -87,6 +87,9 @@ class JaxBackend(AbstractArrayBackend[jnp.ndarray]):
         return target[*slices]
 
     def pad(self, target: jnp.ndarray, pads: Sequence[tuple[int, int]]) -> jnp.ndarray:
+        if not target.size:
+            shape = [d + int(lt) + int(rt) for d, (lt, rt) in zip(target.shape, pads)]
+            return jnp.zeros(shape, dtype=target.dtype)
         return jnp.pad(target, pads, mode="edge")  # type: ignore
 
     def repeat(self, target: jnp.ndarray, count: jnp.ndarray, axis: int) -> jnp.ndarray:
diff --git a/ein/backend/torch_backend.py b/ein/backend/torch_backend.py
index 3b07216..2a0e7e0 100644
--- a/ein/backend/torch_backend.py
+++ b/ein/backend/torch_backend.py
@@ -1,4 +1,3 @@
-import itertools
 from functools import cache
 from typing import Any, Callable, Optional, Sequence, TypeAlias, cast
 
@@ -84,15 +83,16 @@ class TorchBackend(AbstractArrayBackend[torch.Tensor]):
     def pad(
         self, target: torch.Tensor, pads: Sequence[tuple[int, int]]
     ) -> torch.Tensor:
-        return (
-            torch.nn.functional.pad(
-                target.unsqueeze(0).unsqueeze(0),
-                tuple(itertools.chain(*pads)),
-                mode="replicate",
+        if not target.numel():
+            return target.new_zeros(
+                [d + int(lt) + int(rt) for d, (lt, rt) in zip(target.shape, pads)]
             )
-            .squeeze(0)
-            .squeeze(0)
-        )
+        for axis, (lt, rt) in enumerate(pads):
+            if lt or rt:
+                d = target.shape[axis]
+                at = torch.arange(-int(lt), d + int(rt), device=target.device)
+                target = target.index_select(axis, torch.clip(at, 0, d - 1))
+        return target
 
     def repeat(
         self, target: torch.Tensor, count: torch.Tensor, axis: int
-- 
2.43.0


From 14506d924206962c6ec0f45f46e1a263d5b9162e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:41 +0000
Subject: [PATCH 05/46] fix: reading from an empty axis does not raise

Vec.or_empty and any selection guarded by a size raised IndexError, since the
array programs read the unselected branch too.
---
 ein/backend/array_backend.py | 7 ++++++-
 ein/backend/jax_backend.py   | 9 ++++++++-
 ein/backend/numpy_backend.py | 9 ++++++++-
 ein/backend/torch_backend.py | 9 ++++++++-
 4 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/ein/backend/array_backend.py b/ein/backend/array_backend.py
index 1a17c2c..8fe0e0e 100644
--- a/ein/backend/array_backend.py
+++ b/ein/backend/array_backend.py
@@ -1,5 +1,5 @@
 import abc
-from typing import Any, Callable, Generic, Sequence, TypeVar
+from typing import Any, Callable, Collection, Generic, Sequence, TypeVar
 
 import numpy
 
@@ -24,6 +24,11 @@ def maybe_call_or(f: Callable[[T], S] | None, x: T, y: S) -> S:
     return f(x) if f is not None else y
 
 
+def nonempty_shape(shape: Sequence[int], axes: Collection[int]) -> tuple[int, ...]:
+    # Shape of a stand-in target, so that axes can be indexed even when they are empty.
+    return tuple(d or 1 if axis in axes else d for axis, d in enumerate(shape))
+
+
 class AbstractArrayBackend(abc.ABC, Generic[T]):
     @abc.abstractmethod
     def constant(self, value: Value) -> T:
diff --git a/ein/backend/jax_backend.py b/ein/backend/jax_backend.py
index 463f091..94a5bc9 100644
--- a/ein/backend/jax_backend.py
+++ b/ein/backend/jax_backend.py
@@ -15,7 +15,7 @@ from ein.phi import phi
 from ein.symbols import Variable
 from ein.value import Value
 
-from .array_backend import AbstractArrayBackend
+from .array_backend import AbstractArrayBackend, nonempty_shape
 
 try:
     import jax
@@ -68,6 +68,9 @@ class JaxBackend(AbstractArrayBackend[jnp.ndarray]):
         return jnp.expand_dims(target, axes)
 
     def gather(self, target: jnp.ndarray, item: jnp.ndarray, axis: int) -> jnp.ndarray:
+        shape = nonempty_shape(target.shape, (axis,))
+        if shape != target.shape:
+            target = jnp.zeros(shape, dtype=target.dtype)
         return jnp.take_along_axis(
             target, jnp.clip(item, 0, target.shape[axis] - 1), axis
         )
@@ -76,6 +79,10 @@ class JaxBackend(AbstractArrayBackend[jnp.ndarray]):
         self, target: jnp.ndarray, items: Sequence[Optional[jnp.ndarray]]
     ) -> jnp.ndarray:
         SLICE_NONE = slice(None)
+        axes = [axis for axis, item in enumerate(items) if item is not None]
+        shape = nonempty_shape(target.shape, axes)
+        if shape != target.shape:
+            target = jnp.zeros(shape, dtype=target.dtype)
         it: Any = (
             jnp.clip(item, 0, dim - 1) if item is not None else SLICE_NONE
             for dim, item in zip(target.shape, items)
diff --git a/ein/backend/numpy_backend.py b/ein/backend/numpy_backend.py
index 5b7140a..b9df8f2 100644
--- a/ein/backend/numpy_backend.py
+++ b/ein/backend/numpy_backend.py
@@ -9,7 +9,7 @@ from ein.phi import phi
 from ein.symbols import Variable
 from ein.value import Value
 
-from .array_backend import AbstractArrayBackend
+from .array_backend import AbstractArrayBackend, nonempty_shape
 
 Env: TypeAlias = dict[Variable, numpy.ndarray | tuple[numpy.ndarray, ...]]
 
@@ -49,6 +49,9 @@ class NumpyBackend(AbstractArrayBackend[numpy.ndarray]):
     def gather(
         self, target: numpy.ndarray, item: numpy.ndarray, axis: int
     ) -> numpy.ndarray:
+        shape = nonempty_shape(target.shape, (axis,))
+        if shape != target.shape:
+            target = numpy.zeros(shape, dtype=target.dtype)
         return numpy.take_along_axis(
             target, numpy.clip(item, 0, target.shape[axis] - 1), axis
         )
@@ -57,6 +60,10 @@ class NumpyBackend(AbstractArrayBackend[numpy.ndarray]):
         self, target: numpy.ndarray, items: Sequence[numpy.ndarray | None]
     ) -> numpy.ndarray:
         SLICE_NONE = slice(None)
+        axes = [axis for axis, item in enumerate(items) if item is not None]
+        shape = nonempty_shape(target.shape, axes)
+        if shape != target.shape:
+            target = numpy.zeros(shape, dtype=target.dtype)
         it: Any = (
             numpy.clip(item, 0, dim - 1) if item is not None else SLICE_NONE
             for dim, item in zip(target.shape, items)
diff --git a/ein/backend/torch_backend.py b/ein/backend/torch_backend.py
index 2a0e7e0..2c1be73 100644
--- a/ein/backend/torch_backend.py
+++ b/ein/backend/torch_backend.py
@@ -15,7 +15,7 @@ from ein.phi import phi
 from ein.symbols import Variable
 from ein.value import Value
 
-from .array_backend import AbstractArrayBackend
+from .array_backend import AbstractArrayBackend, nonempty_shape
 
 try:
     import torch
@@ -65,12 +65,19 @@ class TorchBackend(AbstractArrayBackend[torch.Tensor]):
     def gather(
         self, target: torch.Tensor, item: torch.Tensor, axis: int
     ) -> torch.Tensor:
+        shape = nonempty_shape(target.shape, (axis,))
+        if shape != target.shape:
+            target = target.new_zeros(shape)
         return torch.gather(target, axis, torch.clip(item, 0, target.shape[axis] - 1))
 
     def take(
         self, target: torch.Tensor, items: Sequence[Optional[torch.Tensor]]
     ) -> torch.Tensor:
         SLICE_NONE = slice(None)
+        axes = [axis for axis, item in enumerate(items) if item is not None]
+        shape = nonempty_shape(target.shape, axes)
+        if shape != target.shape:
+            target = target.new_zeros(shape)
         it = (
             torch.clip(item, 0, dim - 1) if item is not None else SLICE_NONE
             for dim, item in zip(target.shape, items)
-- 
2.43.0


From 37f7c7d96e273b1a7e739886d3d934eac7e146bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:41 +0000
Subject: [PATCH 06/46] fix: broadcast the operands of gather on Torch

Reads at an index which shares only some of the indices of the array raised or
returned a part of the result.
---
 ein/backend/torch_backend.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/ein/backend/torch_backend.py b/ein/backend/torch_backend.py
index 2c1be73..5a83666 100644
--- a/ein/backend/torch_backend.py
+++ b/ein/backend/torch_backend.py
@@ -68,7 +68,16 @@ class TorchBackend(AbstractArrayBackend[torch.Tensor]):
         shape = nonempty_shape(target.shape, (axis,))
         if shape != target.shape:
             target = target.new_zeros(shape)
-        return torch.gather(target, axis, torch.clip(item, 0, target.shape[axis] - 1))
+        item = torch.clip(item, 0, target.shape[axis] - 1)
+        # Unlike in NumPy, the operands of gather are not broadcast together.
+        batch = torch.broadcast_shapes(
+            *((*x.shape[:axis], 1, *x.shape[axis + 1 :]) for x in (target, item))
+        )
+        target, item = (
+            x.expand(*batch[:axis], x.shape[axis], *batch[axis + 1 :])
+            for x in (target, item)
+        )
+        return torch.gather(target, axis, item)
 
     def take(
         self, target: torch.Tensor, items: Sequence[Optional[torch.Tensor]]
-- 
2.43.0


From 4e33989f57d46402cd6070042566521392ab2522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:41 +0000
Subject: [PATCH 07/46] fix: do not print slices when evaluating with JAX

---
 ein/backend/jax_backend.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/ein/backend/jax_backend.py b/ein/backend/jax_backend.py
index 94a5bc9..452e06e 100644
--- a/ein/backend/jax_backend.py
+++ b/ein/backend/jax_backend.py
@@ -90,7 +90,6 @@ class JaxBackend(AbstractArrayBackend[jnp.ndarray]):
         return target[*it]
 
     def slice(self, target: jnp.ndarray, slices: Sequence[slice]) -> jnp.ndarray:
-        print(slices)
         return target[*slices]
 
     def pad(self, target: jnp.ndarray, pads: Sequence[tuple[int, int]]) -> jnp.ndarray:
-- 
2.43.0


From 25eeac9d85ee33cdf174c64f3c96336d21fc20a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:41 +0000
Subject: [PATCH 08/46] fix: do not reduce folds whose step uses the
 accumulator twice

acc + acc * a[i] was compiled as a sum of acc * a[i], in which acc is unbound.
---
 ein/codegen/phi_to_yarr.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ein/codegen/phi_to_yarr.py b/ein/codegen/phi_to_yarr.py
index 63d372e..efbcd52 100644
--- a/ein/codegen/phi_to_yarr.py
+++ b/ein/codegen/phi_to_yarr.py
@@ -389,10 +389,10 @@ def match_reduction_by_body(
     for typ, kind in red.items():
         if isinstance(body, typ):
             first, second = body.operands
-            if isinstance(first, phi.Store) and first.symbol == acc:
-                return second, kind
-            elif isinstance(second, phi.Store) and second.symbol == acc:
-                return first, kind
+            for store, elem in ((first, second), (second, first)):
+                if isinstance(store, phi.Store) and store.symbol == acc:
+                    if acc not in elem.free_symbols:
+                        return elem, kind
     return None
 
 
-- 
2.43.0


From 7c7cc9c82cf262bb26f1a02d53e99ce4a3c6346d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:41 +0000
Subject: [PATCH 09/46] fix: do not contract over a counter that a summand does
 not mention

The summand was added once rather than once per iteration.
---
 ein/codegen/phi_to_yarr.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ein/codegen/phi_to_yarr.py b/ein/codegen/phi_to_yarr.py
index efbcd52..6b694bc 100644
--- a/ein/codegen/phi_to_yarr.py
+++ b/ein/codegen/phi_to_yarr.py
@@ -96,6 +96,8 @@ def transform(
 
                         def go_product(*args: phi.Expr) -> Axial | None:
                             for counter, size in dot.contract.items():
+                                if not any(counter in arg.free_symbols for arg in args):
+                                    return None
                                 for operand in args:
                                     if not would_be_memory_considerate_axis(
                                         operand, counter, size, size_class
-- 
2.43.0


From d978ee9d71a4db8cb6d1f83a9942179eeb5f3410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:24 +0000
Subject: [PATCH 10/46] fix: do not store comparisons in place of their numeric
 operands

array(lambda i: i + 1 < 3, size=4) returned an array of integers.
---
 ein/codegen/phi_to_yarr.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ein/codegen/phi_to_yarr.py b/ein/codegen/phi_to_yarr.py
index 6b694bc..d313917 100644
--- a/ein/codegen/phi_to_yarr.py
+++ b/ein/codegen/phi_to_yarr.py
@@ -548,12 +548,13 @@ def apply_inplace_on_temporaries(program: yarr.Expr) -> yarr.Expr:
             case yarr.BinaryElementwise(kind, first, second, None):
                 # This logic is really shaky and interacts with optimisations to the number of axis manipulation calls.
                 # Should have more in-depth analysis on what broadcasting might occur
-                rank = expr.type.single.rank
-                rank1, rank2 = first.type.single.rank, second.type.single.rank
-                if rank:
-                    if rank == rank1 and isinstance(first, TEMPORARIES):
+                # The operand's type is compared whole, as its buffer has to fit the kind of the result too
+                # (it does not for comparisons).
+                type_ = expr.type.single
+                if type_.rank:
+                    if type_ == first.type.single and isinstance(first, TEMPORARIES):
                         return yarr.BinaryElementwise(kind, first, second, 0)
-                    if rank == rank2 and isinstance(second, TEMPORARIES):
+                    if type_ == second.type.single and isinstance(second, TEMPORARIES):
                         return yarr.BinaryElementwise(kind, first, second, 1)
         return expr
 
-- 
2.43.0


From 60d5fce924a237aeeb4cab2ed4b8de996ea1abca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:24 +0000
Subject: [PATCH 11/46] fix: keep the axes of a fold's initial value when the
 step drops them

array(lambda i: fold(a[i], lambda j, acc: 2.0, count=n)) did not compile.
---
 ein/codegen/phi_to_yarr.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ein/codegen/phi_to_yarr.py b/ein/codegen/phi_to_yarr.py
index d313917..2acce86 100644
--- a/ein/codegen/phi_to_yarr.py
+++ b/ein/codegen/phi_to_yarr.py
@@ -169,11 +169,12 @@ def transform(
                 #  Doing this by constructing the body twice is a really bad idea.
                 #  But just using body.free_indices isn't deterministic enough.
                 pre_transformed = transformed.copy()
-                acc_axes = go(
+                body_axes = go(
                     body_,
                     index_sizes,
                     var_axes | {acc: init._axes},
                 )._axes
+                acc_axes = axial._alignment(body_axes, init._axes)
                 transformed.clear()
                 transformed.update(pre_transformed)
                 body = go(
@@ -188,7 +189,7 @@ def transform(
                         size.normal,
                         acc,
                         init.aligned(acc_axes, repeats=index_sizes),
-                        body.aligned(acc_axes),
+                        body.aligned(acc_axes, repeats=index_sizes),
                     ),
                 )
             case phi.Reduce(init_, x, y, xy_, vecs_):
-- 
2.43.0


From 0e683b6265dd2f187d48046c3a2ea10542c9b80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:04 +0000
Subject: [PATCH 12/46] fix: folds with a negative count return their initial
 value on the naive backend

---
 ein/backend/naive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ein/backend/naive.py b/ein/backend/naive.py
index ea5150f..ef49447 100644
--- a/ein/backend/naive.py
+++ b/ein/backend/naive.py
@@ -30,7 +30,7 @@ def _interpret(expr: Expr, env: dict[Symbol, Value]) -> Value:
             for i in range(n):
                 env[counter] = Value(numpy.array(i))
                 env[acc_v] = _interpret(body, env)
-            if n:
+            if n > 0:
                 del env[counter]
             return env.pop(acc_v)
         case phi.Reduce(init, x, y, xy, vecs_):
-- 
2.43.0


From 6e2d3bb8623fa7b88cc55315b5afbc42a81670f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:04 +0000
Subject: [PATCH 13/46] fix: accept constants that borrow memory from other
 objects

Using numpy.frombuffer(...) or tensor.numpy() twice in a program raised, as the
base of such an array has no strides.
---
 ein/backend/numpy_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ein/backend/numpy_backend.py b/ein/backend/numpy_backend.py
index b9df8f2..9be2b40 100644
--- a/ein/backend/numpy_backend.py
+++ b/ein/backend/numpy_backend.py
@@ -19,7 +19,7 @@ class NumpyBackend(AbstractArrayBackend[numpy.ndarray]):
         return value.array
 
     def preprocess_bound(self, target: numpy.ndarray) -> numpy.ndarray:
-        if target.base is not None:
+        if isinstance(target.base, numpy.ndarray):
             base = target.base.strides
             # Memory order non-monotonic
             if any(x < y for x, y in zip(base, base[1:])):
-- 
2.43.0


From b24acad6e10832b5a52b96755365cda2d928d7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:04 +0000
Subject: [PATCH 14/46] fix: reject indexing with a non-integer scalar

---
 ein/phi/phi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ein/phi/phi.py b/ein/phi/phi.py
index 378ae77..b25d292 100644
--- a/ein/phi/phi.py
+++ b/ein/phi/phi.py
@@ -242,7 +242,7 @@ class Get(AbstractExpr):
             raise TypeError(f"Cannot index a non-array type {self.operand.type}")
         if not isinstance(self.item.type, Scalar):
             raise TypeError(f"Cannot index with a non-scalar type {self.item.type}")
-        if not isinstance(self.item.type, Scalar):
+        if self.item.type.kind != int:
             raise TypeError(f"Cannot index with a non-integer type {self.item.type}")
         return self.operand.type.elem
 
-- 
2.43.0


From 4741b0c98ecc870070892b53f571cd093a8854dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:04 +0000
Subject: [PATCH 15/46] fix: accept NumPy arrays wherever a vector is part of a
 structure

fold(numpy.zeros(3), ...), array(lambda i: u, size=n) and where(c, u, v) raised for an array u.
---
 ein/frontend/ndarray.py | 2 +-
 ein/frontend/std.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ein/frontend/ndarray.py b/ein/frontend/ndarray.py
index 4766c08..c2a08c5 100644
--- a/ein/frontend/ndarray.py
+++ b/ein/frontend/ndarray.py
@@ -54,7 +54,7 @@ def _layout_struct_to_expr(layout: Layout, struct) -> Expr:
         layout,
         [struct],
         lambda a: wrap(a).expr,
-        lambda a: a.expr,
+        lambda a: wrap(a).expr,
         lambda a, b: phi.Cons(a, b),
     )
 
diff --git a/ein/frontend/std.py b/ein/frontend/std.py
index c1866fb..c99fd1e 100644
--- a/ein/frontend/std.py
+++ b/ein/frontend/std.py
@@ -18,7 +18,7 @@ def where(cond: bool | Scalar, true: T, false: T) -> T:
         layout,
         [true, false],
         lambda t, f: c.where(t, f),
-        lambda ts, fs: array(lambda i: where(cond, ts[i], fs[i])),
+        lambda ts, fs: array(lambda i: where(cond, wrap(ts)[i], wrap(fs)[i])),
     )
 
 
-- 
2.43.0


From 9af8426f021aae987b94114ecbc511b12b2da1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:43 +0000
Subject: [PATCH 16/46] fix: raising a scalar to the power of 0 gives 1

It recursed without end.
---
 ein/frontend/ndarray.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ein/frontend/ndarray.py b/ein/frontend/ndarray.py
index c2a08c5..6fdbbd4 100644
--- a/ein/frontend/ndarray.py
+++ b/ein/frontend/ndarray.py
@@ -304,7 +304,9 @@ class Scalar(_Array):
                 return (1.0 / self) ** (-power)
 
             def go(k: int) -> Scalar:
-                if k == 1:
+                if k == 0:
+                    return wrap(1 if self.expr.type == ScalarType(int) else 1.0)
+                elif k == 1:
                     return self
                 elif k % 2:
                     return go(k - 1) * self
-- 
2.43.0


From 553e6552413eb208a73f8963fd6ce5a38df9fda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:43 +0000
Subject: [PATCH 17/46] fix: tanh of large values is 1 rather than not-a-number

---
 ein/frontend/ndarray.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ein/frontend/ndarray.py b/ein/frontend/ndarray.py
index 6fdbbd4..dcbfb95 100644
--- a/ein/frontend/ndarray.py
+++ b/ein/frontend/ndarray.py
@@ -369,8 +369,8 @@ class Scalar(_Array):
         return Scalar(phi.Cos((self.expr,)))
 
     def tanh(self) -> "Scalar":
-        a, b = self.exp(), (-self).exp()
-        return (a - b) / (a + b)
+        # Avoids the ratio of exponentials, both of which may overflow.
+        return 1.0 - 2.0 / ((2.0 * self).exp() + 1.0)
 
 
 def ext(
-- 
2.43.0


From 5682851666f3bcb7dba3ce7571032333077ffd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:30 +0000
Subject: [PATCH 18/46] fix: sizes of arrays are arrays on JAX, so that they
 can be converted

---
 ein/backend/jax_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ein/backend/jax_backend.py b/ein/backend/jax_backend.py
index 452e06e..3bc9617 100644
--- a/ein/backend/jax_backend.py
+++ b/ein/backend/jax_backend.py
@@ -48,7 +48,7 @@ class JaxBackend(AbstractArrayBackend[jnp.ndarray]):
         return target
 
     def dim(self, target: jnp.ndarray, axis: int) -> jnp.ndarray:
-        return target.shape[axis]
+        return jnp.asarray(target.shape[axis])
 
     def range(self, size: jnp.ndarray) -> jnp.ndarray:
         return jnp.arange(size)
-- 
2.43.0


From 045e14506d6eb51af119f2bac1e206699d5e9259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:23 +0000
Subject: [PATCH 19/46] fix: gather over empty batches on JAX

---
 ein/backend/jax_backend.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ein/backend/jax_backend.py b/ein/backend/jax_backend.py
index 3bc9617..f823e52 100644
--- a/ein/backend/jax_backend.py
+++ b/ein/backend/jax_backend.py
@@ -71,6 +71,12 @@ class JaxBackend(AbstractArrayBackend[jnp.ndarray]):
         shape = nonempty_shape(target.shape, (axis,))
         if shape != target.shape:
             target = jnp.zeros(shape, dtype=target.dtype)
+        # JAX does not gather along an axis when another one is empty.
+        result_shape = jnp.broadcast_shapes(
+            (*target.shape[:axis], 1, *target.shape[axis + 1 :]), item.shape
+        )
+        if 0 in result_shape:
+            return jnp.zeros(result_shape, dtype=target.dtype)
         return jnp.take_along_axis(
             target, jnp.clip(item, 0, target.shape[axis] - 1), axis
         )
-- 
2.43.0


From 6f27e57d06e59a5102bfa8c6ec8ba488184277ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:07 +0000
Subject: [PATCH 20/46] fix: reductions of terms that do not mention the
 counter allow negative counts

---
 ein/codegen/phi_to_yarr.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ein/codegen/phi_to_yarr.py b/ein/codegen/phi_to_yarr.py
index 2acce86..e3f054a 100644
--- a/ein/codegen/phi_to_yarr.py
+++ b/ein/codegen/phi_to_yarr.py
@@ -418,6 +418,9 @@ def match_reduction(
         return None
     index = Index()
     with_counter_axis = cast(phi.Expr, substitute(elem, {counter: phi.at(index)}))
+    if counter not in elem.free_symbols:
+        # Nothing is indexed by the counter, so the count might be negative.
+        size = phi.Max((size, phi.Const(phi.Value(0))))
     vec_expr = phi.Vec(index, size, with_counter_axis)
     update_size_classes(
         vec_expr,
-- 
2.43.0


From 48913774fa048c217b93f67f3a0bc659ce8ae425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:39 +0000
Subject: [PATCH 21/46] fix: index shifts, clips and targets that carry axes
 through variables

---
 ein/codegen/array_indexing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ein/codegen/array_indexing.py b/ein/codegen/array_indexing.py
index 53b965e..67561f9 100644
--- a/ein/codegen/array_indexing.py
+++ b/ein/codegen/array_indexing.py
@@ -80,7 +80,9 @@ def transform_get(
     if use_slice_pads and ts is not None:
         index, (shift, low, high) = ts
         axes = target._axes + (index,)
-        if index not in target_.free_indices:
+        # Variables (for instance accumulators) may carry axes which are not seen in free indices.
+        is_uniform = not any(go(e)._axes for e in (shift, low, high) if e is not None)
+        if is_uniform and index not in target._axes:
             is_trivial = {shift, low, high} == {None}
             dim = _dim_of(target_, 0)
             if use_slice_elision and is_trivial and size_class.equiv(index, dim):
-- 
2.43.0


From 5f4d06bf4f591a780ece3daedc43b027a050435e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:39 +0000
Subject: [PATCH 22/46] fix: do not reduce folds whose initial value carries
 axes through a variable

---
 ein/codegen/phi_to_yarr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ein/codegen/phi_to_yarr.py b/ein/codegen/phi_to_yarr.py
index e3f054a..0e8c7e5 100644
--- a/ein/codegen/phi_to_yarr.py
+++ b/ein/codegen/phi_to_yarr.py
@@ -408,7 +408,7 @@ def match_reduction(
     size_class: SizeEquivalence,
     go: Callable[[phi.Expr], Axial],
 ) -> Axial | None:
-    if init.type != Scalar(float) or init.free_indices:
+    if init.type != Scalar(float) or go(init)._axes:
         return None
     red = match_reduction_by_body(body, acc)
     if red is None:
-- 
2.43.0


From 0c13e0a61fee3c669d51f89f39e9d94a6d1c3869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:35 +0000
Subject: [PATCH 23/46] fix: fields of a record that do not depend on an index
 span it like the others

---
 ein/codegen/axial.py       | 8 +++++---
 ein/codegen/phi_to_yarr.py | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/ein/codegen/axial.py b/ein/codegen/axial.py
index d416cb9..2776c56 100644
--- a/ein/codegen/axial.py
+++ b/ein/codegen/axial.py
@@ -82,12 +82,14 @@ class Axial:
         *rest, (var, bind) = args
         return Axial(self._axes, yarr.Let(var, bind, self.expr)).within(*rest)
 
-    def cons(self, other: "Axial") -> "Axial":
+    def cons(
+        self, other: "Axial", *, repeats: dict[Axis, yarr.Expr] | None = None
+    ) -> "Axial":
         n = len(self.expr.type.elems)
         m = len(other.expr.type.elems)
         axes = _alignment(self._axes, other._axes)
-        self_expr = self.aligned(axes)
-        other_expr = other.aligned(axes)
+        self_expr = self.aligned(axes, repeats=repeats)
+        other_expr = other.aligned(axes, repeats=repeats)
         return Axial(
             axes,
             tuple_maybe_singleton(
diff --git a/ein/codegen/phi_to_yarr.py b/ein/codegen/phi_to_yarr.py
index 0e8c7e5..99d3096 100644
--- a/ein/codegen/phi_to_yarr.py
+++ b/ein/codegen/phi_to_yarr.py
@@ -277,7 +277,7 @@ def transform(
             case phi.Cons(first_, second_):
                 first = go(first_, index_sizes, var_axes)
                 second = go(second_, index_sizes, var_axes)
-                return first.cons(second)
+                return first.cons(second, repeats=index_sizes)
             case phi.First(target_):
                 assert isinstance(target_.type, Pair)
                 k = len(target_.type.first.primitive_type.elems)
-- 
2.43.0


From 9a9340caece3e02fb08b49cf280139207c7fc17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:59 +0000
Subject: [PATCH 24/46] fix: contract empty operands on Torch

---
 ein/backend/torch_backend.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/ein/backend/torch_backend.py b/ein/backend/torch_backend.py
index 5a83666..abaf156 100644
--- a/ein/backend/torch_backend.py
+++ b/ein/backend/torch_backend.py
@@ -116,7 +116,22 @@ class TorchBackend(AbstractArrayBackend[torch.Tensor]):
         return torch.repeat_interleave(target, int(count), axis)
 
     def prepare_einsum(self, subs: str) -> Callable[..., torch.Tensor]:
-        return lambda *args: torch.einsum(subs, *args)
+        in_subs, out = subs.split("->")
+
+        def einsum(*args: torch.Tensor) -> torch.Tensor:
+            if all(arg.numel() for arg in args):
+                return torch.einsum(subs, *args)
+            # PyTorch fails to plan contractions of three or more operands when some are empty.
+            (dims, result), *rest = zip(in_subs.split(","), args)
+            while rest:
+                (other_dims, other), *rest = rest
+                needed = set(out).union(*(d for d, _ in rest))
+                kept = "".join(d for d in dict.fromkeys(dims + other_dims) if d in needed)
+                result = torch.einsum(f"{dims},{other_dims}->{kept}", result, other)
+                dims = kept
+            return torch.einsum(f"{dims}->{out}", result)
+
+        return einsum
 
 
 INSTANCE = TorchBackend()
-- 
2.43.0


From b3e502c12764b475906e5db5c576434e52a3f754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:13 +0000
Subject: [PATCH 25/46] fix: align the combination of a reduction with its
 batch axis

---
 ein/codegen/phi_to_yarr.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/ein/codegen/phi_to_yarr.py b/ein/codegen/phi_to_yarr.py
index 99d3096..039520b 100644
--- a/ein/codegen/phi_to_yarr.py
+++ b/ein/codegen/phi_to_yarr.py
@@ -199,17 +199,28 @@ def transform(
                 # FIXME: Like for Fold, we trace the body twice to get a deterministic choice of axes.
                 some_axes = axial._alignment(init._axes, *(vec._axes for vec in vecs))
                 pre_transformed = transformed.copy()
-                axes = go(
+                xy_some_axes = go(
                     xy_, index_sizes, var_axes | {x: some_axes, y: some_axes}
                 )._axes
+                axes = axial._alignment(xy_some_axes, some_axes)
                 transformed.clear()
                 transformed.update(pre_transformed)
 
                 # Insert the batch axis to be the first one before ones reduced
                 #   this is a convenient choice, as [vecs] also follow it
                 #   (their outermost axis is reduced, so this inserted axis corresponds to it)
-                xy_axes = (*axes, Index())
-                xy = go(xy_, index_sizes, var_axes | {x: xy_axes, y: xy_axes})
+                batch = Index()
+                xy_axes = (*axes, batch)
+                x_var = yarr.Var(
+                    x, init_.type.primitive_type.with_rank_delta(+len(xy_axes))
+                )
+                xy_sizes = index_sizes | {
+                    batch: yarr.Dim(
+                        len(axes), axial.untuple_maybe_singleton(x_var, 0)
+                    )
+                }
+                xy = go(xy_, xy_sizes, var_axes | {x: xy_axes, y: xy_axes})
+                xy_expr = xy.aligned(xy_axes, repeats=xy_sizes)
 
                 # FIXME: There's probably something wrong here.
                 init_expr = init.aligned(axes, repeats=index_sizes)
@@ -222,7 +233,7 @@ def transform(
                 )
                 return Axial(
                     axes,
-                    yarr.Reduce(init_expr, x, y, xy.expr, vecs_expr, len(axes)),
+                    yarr.Reduce(init_expr, x, y, xy_expr, vecs_expr, len(axes)),
                 )
 
             case phi.Get(target_, item_):
-- 
2.43.0


From 7f07949890f81b9f4f26dc158c24d24fcf39084f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:26 +0000
Subject: [PATCH 26/46] fix: fields of dictionaries may be named like their
 attributes

---
 ein/frontend/layout.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/ein/frontend/layout.py b/ein/frontend/layout.py
index bdf520b..f32e7a1 100644
--- a/ein/frontend/layout.py
+++ b/ein/frontend/layout.py
@@ -92,11 +92,7 @@ def build_layout(obj, f) -> Layout:
 def fold_layout(layout, args, atom, vec, merge):
     def get(name):
         def do(x):
-            return (
-                getattr(x, name)
-                if isinstance(name, str) and hasattr(x, name)
-                else x[name]
-            )
+            return x[name] if isinstance(x, dict) else getattr(x, name)
 
         return do
 
@@ -129,7 +125,7 @@ def fold_layout(layout, args, atom, vec, merge):
 def map_layout(layout, args, atom, vec):
     def get(name):
         def do(x):
-            return getattr(x, name) if hasattr(x, name) else x[name]
+            return x[name] if isinstance(x, dict) else getattr(x, name)
 
         return do
 
-- 
2.43.0


From e62b763717c83d1b1f4e310e0c8aa017dda91a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:39 +0000
Subject: [PATCH 27/46] fix: vectors of vectors of records are split into
 vectors of vectors of their fields

---
 ein/midend/structs.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/ein/midend/structs.py b/ein/midend/structs.py
index ee0052f..5d87efc 100644
--- a/ein/midend/structs.py
+++ b/ein/midend/structs.py
@@ -27,12 +27,15 @@ F = TypeVar("F")
 
 def _soa_transform_type(type_: Type) -> Type:
     match type_:
-        case Vector(Pair(first, second)):
-            return Pair(
-                _soa_transform_type(Vector(first)), _soa_transform_type(Vector(second))
-            )
         case Vector(elem):
-            return Vector(_soa_transform_type(elem))
+            match _soa_transform_type(elem):
+                case Pair(first, second):
+                    return Pair(
+                        _soa_transform_type(Vector(first)),
+                        _soa_transform_type(Vector(second)),
+                    )
+                case elem_:
+                    return Vector(elem_)
         case Pair(first, second):
             return Pair(_soa_transform_type(first), _soa_transform_type(second))
         case Scalar():
-- 
2.43.0


From 4111541a74d53abd34bece294e7250fdb25f0587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:24 +0000
Subject: [PATCH 28/46] fix: terms copied by substitution do not share bound
 symbols with the original

---
 ein/frontend/comprehension.py |  2 +-
 ein/midend/size_classes.py    |  6 ++++--
 ein/midend/structs.py         |  6 ++++--
 ein/midend/substitution.py    | 26 +++++++++++++++++++++++---
 4 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/ein/frontend/comprehension.py b/ein/frontend/comprehension.py
index ebce77c..0463008 100644
--- a/ein/frontend/comprehension.py
+++ b/ein/frontend/comprehension.py
@@ -78,7 +78,7 @@ def _infer_sizes(
         # FIXME: This probably ends up non-deterministic in some way,
         #  and some candidates picked are worse than others.
         candidates = [
-            _with_indices_at_zero(candidate)
+            _with_indices_at_zero(candidate, fresh_binders=True)
             for expr, captured in direct_indices.get(index, {}).items()
             for candidate in [_dim_of(expr)]
             if not candidate.free_symbols & captured
diff --git a/ein/midend/size_classes.py b/ein/midend/size_classes.py
index 5259e4b..a798c18 100644
--- a/ein/midend/size_classes.py
+++ b/ein/midend/size_classes.py
@@ -12,11 +12,13 @@ T = TypeVar("T")
 S = TypeVar("S")
 
 
-def _with_indices_at_zero(expr: phi.Expr) -> phi.Expr:
+def _with_indices_at_zero(
+    expr: phi.Expr, *, fresh_binders: bool = False
+) -> phi.Expr:
     subs: dict[Symbol, phi.Expr] = {
         index: phi.Const(phi.Value(0)) for index in expr.free_indices
     }
-    return cast(phi.Expr, substitute(expr, subs))
+    return cast(phi.Expr, substitute(expr, subs, fresh_binders=fresh_binders))
 
 
 def _dim_of(expr: phi.Expr, axis: int = 0) -> phi.Expr:
diff --git a/ein/midend/structs.py b/ein/midend/structs.py
index 5d87efc..948ac1a 100644
--- a/ein/midend/structs.py
+++ b/ein/midend/structs.py
@@ -106,8 +106,10 @@ def struct_of_arrays_transform(program: Expr):
                 size, body = go(size), go(body)
                 if isinstance(body.type, Pair):
                     i, j = Index(), Index()
-                    body1 = cast(Expr, substitute(First(body), {index: at(i)}))
-                    body2 = cast(Expr, substitute(Second(body), {index: at(j)}))
+                    body1, body2 = (
+                        cast(Expr, substitute(sub, {index: at(k)}, fresh_binders=True))
+                        for sub, k in ((First(body), i), (Second(body), j))
+                    )
                     return Cons(go(Vec(i, size, body1)), go(Vec(j, size, body2)))
 
             case Reduce(init, x, y, xy, vecs):
diff --git a/ein/midend/substitution.py b/ein/midend/substitution.py
index c2a19c0..077778a 100644
--- a/ein/midend/substitution.py
+++ b/ein/midend/substitution.py
@@ -1,12 +1,27 @@
+from dataclasses import fields, replace
 from functools import cache
-from typing import Mapping
+from typing import Any, Mapping
 
 from ein.symbols import Symbol
 from ein.term import Term
 
 
-def substitute(term: Term, subs: Mapping[Symbol, Term]) -> Term:
+def substitute(
+    term: Term, subs: Mapping[Symbol, Term], *, fresh_binders: bool = False
+) -> Term:
+    # With [fresh_binders], binders over changed terms are renamed, so that the result
+    # may be a part of the same program as the original without sharing bound symbols.
     relevant_symbols = set(subs)
+    renamed: dict[Symbol, Symbol] = {}
+
+    def rename(t: Term) -> Term:
+        updates: Any = {
+            field.name: renamed[value]
+            for field in fields(t)
+            for value in [getattr(t, field.name)]
+            if isinstance(value, Symbol) and value in renamed
+        }
+        return replace(t, **updates) if updates else t
 
     @cache
     def go(t: Term) -> Term:
@@ -15,6 +30,11 @@ def substitute(term: Term, subs: Mapping[Symbol, Term]) -> Term:
         symbol = t.unwrap_symbol()
         if symbol is not None and symbol in subs:
             return subs[symbol]
-        return t.map(go)
+        if fresh_binders:
+            for captured in t.captured_symbols:
+                if captured not in renamed:
+                    renamed[captured] = type(captured)()
+                    relevant_symbols.add(captured)
+        return rename(t.map(go))
 
     return go(term)
-- 
2.43.0


From 14d9f6e642c68d38d1d5e91649f19bf3b9c88285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:53 +0000
Subject: [PATCH 29/46] fix: reject sizes along axes that an array does not
 have

---
 ein/midend/size_classes.py | 2 +-
 ein/phi/phi.py             | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/ein/midend/size_classes.py b/ein/midend/size_classes.py
index a798c18..a10674f 100644
--- a/ein/midend/size_classes.py
+++ b/ein/midend/size_classes.py
@@ -92,7 +92,7 @@ def _update_size_classes(
                 sizes.unite(index, phi.Dim(expr, 0))
                 rank = expr.type.primitive_type.single.rank
                 for axis in range(1, rank):
-                    sizes.unite(phi.Dim(expr, rank), phi.Dim(body, rank - 1))
+                    sizes.unite(phi.Dim(expr, axis), phi.Dim(body, axis - 1))
             case phi.Get(target, _item):
                 rank = expr.type.primitive_type.single.rank
                 for axis in range(rank):
diff --git a/ein/phi/phi.py b/ein/phi/phi.py
index b25d292..aab0d99 100644
--- a/ein/phi/phi.py
+++ b/ein/phi/phi.py
@@ -217,6 +217,13 @@ class Dim(AbstractExpr):
         assert (
             self.axis >= 0
         ), "Phi does not allow introspecting types from the inside and hence negative-indexed axes"
+        type_ = self.target.type
+        for _ in range(self.axis + 1):
+            if not isinstance(type_, Vector):
+                raise TypeError(
+                    f"Cannot take size along axis {self.axis} of {self.target.type}"
+                )
+            type_ = type_.elem
         return scalar_type(int)
 
     @cached_property
-- 
2.43.0


From 4c46bb1ba35f3cffa1478722236c456c01b209cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:15 +0000
Subject: [PATCH 30/46] fix: compare the structure of a fold's initial value
 with that of its body

---
 ein/frontend/comprehension.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ein/frontend/comprehension.py b/ein/frontend/comprehension.py
index 0463008..8caa6fa 100644
--- a/ein/frontend/comprehension.py
+++ b/ein/frontend/comprehension.py
@@ -161,9 +161,9 @@ def fold(init: T, step: _WithIndex[T], count: Size | None = None) -> T:
     acc = phi.variable(Variable(), init_expr.type)
     arg_acc = _to_array(acc, layout)
     body = step(arg_index, arg_acc)
-    layout_ = build_layout(init, lambda a: wrap(a).layout)
+    layout_ = build_layout(body, lambda a: wrap(a).layout)
     if layout != layout_:
-        raise ValueError(
+        raise TypeError(
             f"Expected initialiser and fold body layouts to match, "
             f"got {layout} and {layout_}"
         )
-- 
2.43.0


From daa7963c0f03f44fbe74f842c7017a8780ae0b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:40 +0000
Subject: [PATCH 31/46] fix: selections and concatenations of different
 structures raise TypeError

---
 ein/frontend/ndarray.py | 6 +++++-
 ein/frontend/std.py     | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/ein/frontend/ndarray.py b/ein/frontend/ndarray.py
index dcbfb95..44beba3 100644
--- a/ein/frontend/ndarray.py
+++ b/ein/frontend/ndarray.py
@@ -216,7 +216,11 @@ class Vec(_Array, Generic[T]):
         return maybe_rest(sub)
 
     def concat(self, other: "Vec[T]") -> "Vec[T]":
-        assert self.layout == other.layout
+        if self.layout != other.layout:
+            raise TypeError(
+                f"Expected concatenated vectors to have the same structure, "
+                f"got {self.layout} and {other.layout}"
+            )
         return _to_array(phi.Concat(self.expr, other.expr), self.layout)
 
     def size(self, axis: int = 0) -> "Scalar":
diff --git a/ein/frontend/std.py b/ein/frontend/std.py
index c99fd1e..1dd4a49 100644
--- a/ein/frontend/std.py
+++ b/ein/frontend/std.py
@@ -12,7 +12,11 @@ T = TypeVar("T", Array, tuple[Array, Array], tuple[Array, Array, Array])
 def where(cond: bool | Scalar, true: T, false: T) -> T:
     layout_ = build_layout(true, lambda a: wrap(a).layout)
     layout = build_layout(false, lambda a: wrap(a).layout)
-    assert layout == layout_
+    if layout != layout_:
+        raise TypeError(
+            f"Expected both branches of a selection to have the same structure, "
+            f"got {layout_} and {layout}"
+        )
     c = wrap(cond)
     return map_layout(
         layout,
-- 
2.43.0


From 5be41d7f2f6a106d6d84dd952d64c1d67ebcf4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:02 +0000
Subject: [PATCH 32/46] fix: calls of external functions with a wrong number of
 arguments raise TypeError

---
 ein/frontend/ndarray.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ein/frontend/ndarray.py b/ein/frontend/ndarray.py
index 44beba3..3490ebc 100644
--- a/ein/frontend/ndarray.py
+++ b/ein/frontend/ndarray.py
@@ -391,7 +391,12 @@ def ext(
     def extrinsic(*args: ArrayLike) -> Array:
         operands = tuple(wrap(a).expr for a in args)
         if input_signature is not None:
-            for i, (op, exp) in enumerate(zip(operands, input_signature, strict=True)):
+            if len(operands) != len(input_signature):
+                raise TypeError(
+                    f"Expected {len(input_signature)} arguments of {extrinsic.__name__}, "
+                    f"got {len(operands)}"
+                )
+            for i, (op, exp) in enumerate(zip(operands, input_signature)):
                 assert unambiguous_layout(op.type)
                 if op.type != exp:
                     raise TypeError(
-- 
2.43.0


From f0a7e760e420458269c3f0c67dec403ec1826fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:31 +0000
Subject: [PATCH 33/46] fix: dividing a vector by a scalar raises TypeError
 rather than recursing

---
 ein/frontend/ndarray.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ein/frontend/ndarray.py b/ein/frontend/ndarray.py
index 3490ebc..e88ea15 100644
--- a/ein/frontend/ndarray.py
+++ b/ein/frontend/ndarray.py
@@ -295,7 +295,9 @@ class Scalar(_Array):
         return self * Scalar(phi.Reciprocal((wrap(other).expr,)))
 
     def __rtruediv__(self, other: ScalarLike) -> "Scalar":
-        return cast(Scalar, wrap(other) / self)
+        return Scalar(
+            phi.Multiply((wrap(other).expr, phi.Reciprocal((self.expr,))))
+        )
 
     def __mod__(self, other: ScalarLike) -> "Scalar":
         return Scalar(phi.Modulo((self.expr, wrap(other).expr)))
-- 
2.43.0


From 23770e38de9b1eefb97640481592e2be59ff562b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:11 +0000
Subject: [PATCH 34/46] fix: evaluating with NumPy leaves the caller's
 environment as it was when it fails

---
 ein/backend/numpy_backend.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ein/backend/numpy_backend.py b/ein/backend/numpy_backend.py
index 9be2b40..0f65de2 100644
--- a/ein/backend/numpy_backend.py
+++ b/ein/backend/numpy_backend.py
@@ -195,4 +195,5 @@ def stage(
 
 
 def interpret(program: phi.Expr, env: dict[Variable, numpy.ndarray]) -> numpy.ndarray:
-    return stage(program)(env)
+    # Evaluation binds variables in the environment, so the caller's is not used directly
+    return stage(program)(dict(env))
-- 
2.43.0


From 063ca6deafcc9ad64042779b9b5f95e9ac957a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:14 +0000
Subject: [PATCH 35/46] fix: transpose scalars on Torch, when shape operations
 are not cancelled

---
 ein/backend/torch_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ein/backend/torch_backend.py b/ein/backend/torch_backend.py
index abaf156..b12c79f 100644
--- a/ein/backend/torch_backend.py
+++ b/ein/backend/torch_backend.py
@@ -54,7 +54,7 @@ class TorchBackend(AbstractArrayBackend[torch.Tensor]):
     def transpose(
         self, target: torch.Tensor, permutation: tuple[int, ...]
     ) -> torch.Tensor:
-        return target.permute(*permutation)
+        return target.permute(permutation)
 
     def squeeze(self, target: torch.Tensor, axes: tuple[int, ...]) -> torch.Tensor:
         return squeeze_axes(target, axes)
-- 
2.43.0


From 88fcd688ee42b0ebf22c372969a111575737bd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:37 +0000
Subject: [PATCH 36/46] fix: comparing equal terms takes time linear in their
 size

---
 ein/term.py | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/ein/term.py b/ein/term.py
index 8bbe78e..d177771 100644
--- a/ein/term.py
+++ b/ein/term.py
@@ -26,13 +26,26 @@ class Term(abc.ABC):
         return hash((type(self), self._fields))
 
     def __eq__(self, other) -> bool:
-        if type(self) != type(other):
-            return False
-        if self.hash != other.hash:
-            return False
-        if self is other:
-            return True
-        return self._fields == other._fields
+        # Pairs of subterms are compared once, no matter how many paths lead to them.
+        compared: set[tuple[int, int]] = set()
+
+        def equal(first, second) -> bool:
+            if isinstance(first, tuple) and isinstance(second, tuple):
+                return len(first) == len(second) and all(map(equal, first, second))
+            if first is second:
+                return True
+            if not isinstance(first, Term):
+                return first == second
+            if type(first) != type(second):
+                return False
+            if first.hash != second.hash:
+                return False
+            if (id(first), id(second)) in compared:
+                return True
+            compared.add((id(first), id(second)))
+            return equal(first._fields, second._fields)
+
+        return equal(self, other)
 
     def __hash__(self) -> int:
         return self.hash
-- 
2.43.0


From eebededa1961a86d015f4539be1dd37b682f519d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:47 +0000
Subject: [PATCH 37/46] fix: infer sizes in time linear in the size of the body

---
 ein/frontend/comprehension.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ein/frontend/comprehension.py b/ein/frontend/comprehension.py
index 8caa6fa..12430e1 100644
--- a/ein/frontend/comprehension.py
+++ b/ein/frontend/comprehension.py
@@ -64,6 +64,7 @@ def _infer_sizes(
     def go(sub: Expr, captured: set[Symbol]) -> Expr:
         if sub in visited:
             return sub
+        visited.add(sub)
         match sub:
             case phi.Get(target, phi.Store(symbol)):
                 direct_indices.setdefault(symbol, {})[target] = captured
-- 
2.43.0


From dc3eff99d046372c098c9546c47fc8fe9586b02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:02 +0000
Subject: [PATCH 38/46] fix: bound the expansion of contractions into sums of
 products

---
 ein/codegen/phi_to_yarr.py | 48 ++++++++++++++++++++++++++------------
 1 file changed, 33 insertions(+), 15 deletions(-)

diff --git a/ein/codegen/phi_to_yarr.py b/ein/codegen/phi_to_yarr.py
index 039520b..e6a737e 100644
--- a/ein/codegen/phi_to_yarr.py
+++ b/ein/codegen/phi_to_yarr.py
@@ -459,6 +459,10 @@ def match_summation(expr: phi.Fold) -> tuple[Variable, phi.Expr] | None:
     return expr.counter, body
 
 
+# Expressions with more operands in their sum-of-products form are not contracted as a whole.
+MAX_DOT_OPERANDS: int = 64
+
+
 @dataclass(frozen=True)
 class Dot:
     contract: dict[Variable, phi.Expr]
@@ -506,21 +510,35 @@ class Dot:
 
     @classmethod
     def lift(cls, expr: phi.Expr) -> "Dot":
-        match expr:
-            case phi.Fold() if (summation := match_summation(expr)) is not None:
-                counter, body = summation
-                return cls.lift(body).sum(counter, expr.size)
-            case phi.Add((first, second)):
-                return cls.lift(first) + cls.lift(second)
-            case phi.Negate((target,)):
-                return -cls.lift(target)
-            case phi.Subtract((first, second)):
-                return cls.lift(first) - cls.lift(second)
-            case phi.Multiply((first, second)):
-                fst, snd = cls.lift(first), cls.lift(second)
-                if not (set(fst.contract) & set(snd.contract)):
-                    return fst * snd
-        return cls.pure(expr)
+        lifted: dict[phi.Expr, Dot] = {}
+
+        def _go(sub: phi.Expr) -> Dot:
+            match sub:
+                case phi.Fold() if (summation := match_summation(sub)) is not None:
+                    counter, body = summation
+                    return go(body).sum(counter, sub.size)
+                case phi.Add((first, second)):
+                    return go(first) + go(second)
+                case phi.Negate((target,)):
+                    return -go(target)
+                case phi.Subtract((first, second)):
+                    return go(first) - go(second)
+                case phi.Multiply((first, second)):
+                    fst, snd = go(first), go(second)
+                    if not (set(fst.contract) & set(snd.contract)):
+                        return fst * snd
+            return cls.pure(sub)
+
+        def go(sub: phi.Expr) -> Dot:
+            if sub not in lifted:
+                dot = _go(sub)
+                # Expanding products of shared sums might otherwise take exponential space.
+                if sum(map(len, dot.products)) > MAX_DOT_OPERANDS:
+                    dot = cls.pure(sub)
+                lifted[sub] = dot
+            return lifted[sub]
+
+        return go(expr)
 
 
 def to_einsum_subs(
-- 
2.43.0


From eaefdff93014355bd48e03fa7cd29c7612bce0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:31 +0000
Subject: [PATCH 39/46] fix: transform what does not depend on an accumulator
 once

---
 ein/codegen/phi_to_yarr.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/ein/codegen/phi_to_yarr.py b/ein/codegen/phi_to_yarr.py
index e6a737e..03e3e67 100644
--- a/ein/codegen/phi_to_yarr.py
+++ b/ein/codegen/phi_to_yarr.py
@@ -168,20 +168,19 @@ def transform(
                 # FIXME: We need to establish an alignment that includes free indices from both init and body.
                 #  Doing this by constructing the body twice is a really bad idea.
                 #  But just using body.free_indices isn't deterministic enough.
-                pre_transformed = transformed.copy()
-                body_axes = go(
-                    body_,
-                    index_sizes,
-                    var_axes | {acc: init._axes},
-                )._axes
-                acc_axes = axial._alignment(body_axes, init._axes)
-                transformed.clear()
-                transformed.update(pre_transformed)
                 body = go(
                     body_,
                     index_sizes,
-                    var_axes | {acc: acc_axes},
+                    var_axes | {acc: init._axes},
                 )
+                acc_axes = axial._alignment(body._axes, init._axes)
+                if acc_axes != init._axes:
+                    forget({acc})
+                    body = go(
+                        body_,
+                        index_sizes,
+                        var_axes | {acc: acc_axes},
+                    )
                 return Axial(
                     acc_axes,
                     yarr.Fold(
@@ -198,13 +197,11 @@ def transform(
 
                 # FIXME: Like for Fold, we trace the body twice to get a deterministic choice of axes.
                 some_axes = axial._alignment(init._axes, *(vec._axes for vec in vecs))
-                pre_transformed = transformed.copy()
                 xy_some_axes = go(
                     xy_, index_sizes, var_axes | {x: some_axes, y: some_axes}
                 )._axes
                 axes = axial._alignment(xy_some_axes, some_axes)
-                transformed.clear()
-                transformed.update(pre_transformed)
+                forget({x, y})
 
                 # Insert the batch axis to be the first one before ones reduced
                 #   this is a convenient choice, as [vecs] also follow it
@@ -317,6 +314,11 @@ def transform(
             transformed[expr] = _go(expr, index_sizes, var_axes)
         return transformed[expr]
 
+    def forget(symbols: set[Symbol]) -> None:
+        # What does not depend on [symbols] would be transformed in the same way again.
+        for expr in [expr for expr in transformed if expr.free_symbols & symbols]:
+            del transformed[expr]
+
     # FIXME: Let-bound variables get different treatment here than free variables.
     #  Free variables are always assumed to depend on no indices (empty free-index set).
     array_program = go(program, {}, {}).normal
-- 
2.43.0


From 2154bc7771f964783f5ecf983d582f9f8a38335f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:14 +0000
Subject: [PATCH 40/46] fix: powers of truth values raise TypeError

---
 ein/frontend/ndarray.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ein/frontend/ndarray.py b/ein/frontend/ndarray.py
index e88ea15..abe4914 100644
--- a/ein/frontend/ndarray.py
+++ b/ein/frontend/ndarray.py
@@ -306,6 +306,8 @@ class Scalar(_Array):
         if modulo is not None:
             raise NotImplementedError("Power modulo is not supported")
         if isinstance(power, int):
+            if self.expr.type not in (ScalarType(int), ScalarType(float)):
+                raise TypeError(f"Cannot raise {self.expr.type} to a power")
             if power < 0:
                 return (1.0 / self) ** (-power)
 
-- 
2.43.0


From 57f5fbcdd993f5dc66d3cfe10be9d411deecf731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:24 +0000
Subject: [PATCH 41/46] fix: NumPy views with negative strides can be passed to
 Torch

---
 ein/backend/torch_backend.py | 13 +++++++++----
 ein/frontend/functions.py    |  4 ++--
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/ein/backend/torch_backend.py b/ein/backend/torch_backend.py
index b12c79f..729c61d 100644
--- a/ein/backend/torch_backend.py
+++ b/ein/backend/torch_backend.py
@@ -31,13 +31,18 @@ except ImportError:
 Env: TypeAlias = dict[Variable, torch.Tensor | tuple[torch.Tensor, ...]]
 
 
+def from_numpy(array: numpy.ndarray) -> torch.Tensor:
+    # Tensors cannot have negative strides
+    if any(stride < 0 for stride in array.strides):
+        array = array.copy()
+    return torch.from_numpy(array)
+
+
 class TorchBackend(AbstractArrayBackend[torch.Tensor]):
     def constant(self, value: Value) -> torch.Tensor:
         if isinstance(value.value, torch.Tensor):
             return value.value
-        array = value.array
-        ret = torch.from_numpy(array)
-        return ret
+        return from_numpy(value.array)
 
     def preprocess_bound(self, target: torch.Tensor) -> torch.Tensor:
         return target
@@ -208,7 +213,7 @@ def interpret(
 ) -> torch.Tensor | tuple[torch.Tensor, ...]:
     return stage(program)(
         {
-            var: torch.from_numpy(numpy.asarray(arr))
+            var: from_numpy(numpy.asarray(arr))
             if not isinstance(arr, torch.Tensor)
             else arr
             for var, arr in env.items()
diff --git a/ein/frontend/functions.py b/ein/frontend/functions.py
index 1e3c5ee..4ec8072 100644
--- a/ein/frontend/functions.py
+++ b/ein/frontend/functions.py
@@ -56,10 +56,10 @@ class Function:
         return self._interpret(args, backend="numpy")
 
     def torch(self, *args: ndarray | _TorchTensor) -> _TorchTensor:
-        import torch
+        from ein.backend.torch_backend import from_numpy
 
         args = tuple(
-            arg if isinstance(arg, _TorchTensor) else torch.from_numpy(arg)
+            arg if isinstance(arg, _TorchTensor) else from_numpy(arg)
             for arg in args
         )
         return self._interpret(args, backend="torch")
-- 
2.43.0


From 47fa30e5c7c50fd0ee306cb29ee48c1545bcb718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:52 +0000
Subject: [PATCH 42/46] fix: tensors of 8-bit integers are integers

---
 ein/phi/type_system.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ein/phi/type_system.py b/ein/phi/type_system.py
index ab670dc..c34310d 100644
--- a/ein/phi/type_system.py
+++ b/ein/phi/type_system.py
@@ -9,6 +9,8 @@ try:
     import torch
 
     _TORCH_DTYPE_MAP = {
+        torch.uint8: numpy.uint8,
+        torch.int8: numpy.int8,
         torch.int16: numpy.int16,
         torch.int32: numpy.int32,
         torch.int64: numpy.int64,
-- 
2.43.0


From 8a7719928f56f3c307d87e73ce80d6dc8c57dd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:14 +0000
Subject: [PATCH 43/46] fix: transform again what depends on an accumulator
 through bound variables

---
 ein/codegen/phi_to_yarr.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ein/codegen/phi_to_yarr.py b/ein/codegen/phi_to_yarr.py
index 03e3e67..3bf7094 100644
--- a/ein/codegen/phi_to_yarr.py
+++ b/ein/codegen/phi_to_yarr.py
@@ -316,8 +316,12 @@ def transform(
 
     def forget(symbols: set[Symbol]) -> None:
         # What does not depend on [symbols] would be transformed in the same way again.
-        for expr in [expr for expr in transformed if expr.free_symbols & symbols]:
-            del transformed[expr]
+        # Others depend on them directly, or through a variable bound by one which does.
+        while symbols:
+            stale = [expr for expr in transformed if expr.free_symbols & symbols]
+            symbols = set().union(*(expr.captured_symbols for expr in stale))
+            for expr in stale:
+                del transformed[expr]
 
     # FIXME: Let-bound variables get different treatment here than free variables.
     #  Free variables are always assumed to depend on no indices (empty free-index set).
-- 
2.43.0


From e59fc2d8f3a965d25ad12e1a478062390a49ec82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:08 +0000
Subject: [PATCH 44/46] fix: indices of any integer width on Torch

---
 ein/backend/torch_backend.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ein/backend/torch_backend.py b/ein/backend/torch_backend.py
index 729c61d..6471f06 100644
--- a/ein/backend/torch_backend.py
+++ b/ein/backend/torch_backend.py
@@ -73,7 +73,7 @@ class TorchBackend(AbstractArrayBackend[torch.Tensor]):
         shape = nonempty_shape(target.shape, (axis,))
         if shape != target.shape:
             target = target.new_zeros(shape)
-        item = torch.clip(item, 0, target.shape[axis] - 1)
+        item = torch.clip(item.to(torch.int64), 0, target.shape[axis] - 1)
         # Unlike in NumPy, the operands of gather are not broadcast together.
         batch = torch.broadcast_shapes(
             *((*x.shape[:axis], 1, *x.shape[axis + 1 :]) for x in (target, item))
@@ -93,7 +93,9 @@ class TorchBackend(AbstractArrayBackend[torch.Tensor]):
         if shape != target.shape:
             target = target.new_zeros(shape)
         it = (
-            torch.clip(item, 0, dim - 1) if item is not None else SLICE_NONE
+            torch.clip(item.to(torch.int64), 0, dim - 1)
+            if item is not None
+            else SLICE_NONE
             for dim, item in zip(target.shape, items)
         )
         return target[*it]
-- 
2.43.0


From dcce29044552e45234fbb6896965e31d3fe7bfc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:52 +0000
Subject: [PATCH 45/46] fix: results of scalar programs, which are NumPy
 scalars, can be wrapped

---
 ein/frontend/ndarray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ein/frontend/ndarray.py b/ein/frontend/ndarray.py
index abe4914..182798c 100644
--- a/ein/frontend/ndarray.py
+++ b/ein/frontend/ndarray.py
@@ -416,7 +416,7 @@ def ext(
 def wrap(array_like: ArrayLike) -> Array:
     if isinstance(array_like, (Scalar, Vec)):
         return cast(Array, array_like)
-    if not isinstance(array_like, (int, float, bool, *_ARRAY_TYPES)):
+    if not isinstance(array_like, (int, float, bool, numpy.generic, *_ARRAY_TYPES)):
         raise TypeError(f"Invalid type for an ein Array: {type(array_like).__name__}")
     expr = phi.Const(Value(array_like))
     return _to_array(expr)
-- 
2.43.0


From f629bf573ea95a1c98a4d32e57804a3285c2b5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:56 +0000
Subject: [PATCH 46/46] fix: do not turn a loop into a reduction when sizes
 inside of it depend on its counter

---
 ein/codegen/phi_to_yarr.py | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/ein/codegen/phi_to_yarr.py b/ein/codegen/phi_to_yarr.py
index 3bf7094..90d06d2 100644
--- a/ein/codegen/phi_to_yarr.py
+++ b/ein/codegen/phi_to_yarr.py
@@ -364,6 +364,29 @@ def cancel_tuple_ops(program: yarr.Expr) -> yarr.Expr:
     return go(program)
 
 
+def sizes_depend_on(body: phi.Expr, symbol: Symbol) -> bool:
+    exprs: dict[phi.Expr, None] = {}
+    stack = [body]
+    while stack:
+        expr = stack.pop()
+        if expr not in exprs:
+            exprs[expr] = None
+            stack.extend(expr.subterms)
+    # A size depends on [symbol] directly, or through a variable bound by an expression which does.
+    symbols, new = set(), {symbol}
+    while new:
+        symbols |= new
+        new = set().union(
+            *(expr.captured_symbols for expr in exprs if expr.free_symbols & symbols)
+        )
+        new -= symbols
+    return any(
+        expr.size.free_symbols & symbols
+        for expr in exprs
+        if isinstance(expr, (phi.Vec, phi.Fold))
+    )
+
+
 def would_be_memory_considerate_axis(
     body: phi.Expr,
     counter: Variable,
@@ -395,7 +418,8 @@ def would_be_memory_considerate_axis(
         return expr.map(go)
 
     go(body)
-    return ok
+    # Sizes cannot depend on the index that would take the place of the counter.
+    return ok and not sizes_depend_on(body, counter)
 
 
 def match_reduction_by_body(
-- 
2.43.0

