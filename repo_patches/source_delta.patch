From e35cbc364ed4f6392e8a99c3ebc7c70c59dd0909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:25 +0000
Subject: [PATCH 01/15] fix: sparse_to_dense_indices keeps all nodes and edges
 when inferring padding

---
 e3x/ops/indexed.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/e3x/ops/indexed.py b/e3x/ops/indexed.py
index 1611aa6..3fa5024 100644
--- a/e3x/ops/indexed.py
+++ b/e3x/ops/indexed.py
@@ -230,9 +230,11 @@ def sparse_to_dense_indices(
     )
   # Handle size 0.
   if dst_idx.size == 0:
-    return jnp.empty_like(dst_idx, shape=(*dst_idx.shape[:-1], 0, 0))
-  # Determine padding index.
-  pad_idx = jnp.max(dst_idx) + 1 if pad_idx is None else pad_idx
+    num = 0 if pad_idx is None else pad_idx
+    return jnp.empty_like(dst_idx, shape=(*dst_idx.shape[:-1], num, 0))
+  # Determine padding index (must be distinct from all valid indices).
+  if pad_idx is None:
+    pad_idx = jnp.maximum(jnp.max(dst_idx), jnp.max(src_idx)) + 1
   # Remember original batch dimensions (might also be empty).
   batch_dims = dst_idx.shape[:-1]
   # Reshape so looping over batch dimension is possible.
-- 
2.43.0


From 11eebb3fce291ad048cbf1eb5c67bd9ff1b89bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:09 +0000
Subject: [PATCH 02/15] fix: dense indexed min/max use the same identity as
 sparse ones

---
 e3x/ops/indexed.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/e3x/ops/indexed.py b/e3x/ops/indexed.py
index 3fa5024..faf990a 100644
--- a/e3x/ops/indexed.py
+++ b/e3x/ops/indexed.py
@@ -469,11 +469,12 @@ def _indexed_reduce(
 
   index_type = _determine_index_type(adj_idx=adj_idx, dst_idx=dst_idx)
 
-  # Check input dtype.
+  # Check input dtype and determine initial values for the min/max reduction.
   if jnp.issubdtype(inputs.dtype, jnp.integer):
-    dtype_info = jnp.iinfo
+    largest = jnp.iinfo(inputs.dtype).max
+    smallest = jnp.iinfo(inputs.dtype).min
   elif jnp.issubdtype(inputs.dtype, jnp.floating):
-    dtype_info = jnp.finfo
+    largest, smallest = jnp.inf, -jnp.inf
   else:
     raise TypeError(
         'inputs must be floating point or integer dtype, received '
@@ -509,7 +510,7 @@ def _indexed_reduce(
           axis=axis,
           where=where,
           keepdims=keepdims,
-          initial=dtype_info(inputs.dtype).max,
+          initial=largest,
       )
     elif reduction_mode == 'max':
       outputs = jnp.max(
@@ -517,7 +518,7 @@ def _indexed_reduce(
           axis=axis,
           where=where,
           keepdims=keepdims,
-          initial=dtype_info(inputs.dtype).min,
+          initial=smallest,
       )
     else:  # Protection from potential bugs if other valid values are added.
       assert (
-- 
2.43.0


From e87b5038fab73b67c9c286839ad3ff4018ddd63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:36 +0000
Subject: [PATCH 03/15] fix: indexed_softmax is well-defined for empty or fully
 masked neighborhoods

---
 e3x/ops/indexed.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/e3x/ops/indexed.py b/e3x/ops/indexed.py
index faf990a..4024bc5 100644
--- a/e3x/ops/indexed.py
+++ b/e3x/ops/indexed.py
@@ -803,7 +803,13 @@ def indexed_softmax(
       num_segments=num_segments,
       indices_are_sorted=indices_are_sorted,
   )
-  numerator = jnp.exp(inputs - lax.stop_gradient(maximum))
+  # Destinations without any entries have no maximum.
+  maximum = jnp.where(jnp.isfinite(maximum), maximum, 0)
+  shifted = inputs - lax.stop_gradient(maximum)
+  # Padding entries do not contribute.
+  valid = where if dst_idx is None else dst_idx < num_segments
+  shifted = jnp.where(valid, shifted, -jnp.inf)
+  numerator = jnp.exp(shifted)
   if multiplicative_mask is not None:
     numerator *= multiplicative_mask
   denominator = indexed_sum(
@@ -815,4 +821,6 @@ def indexed_softmax(
       num_segments=num_segments,
       indices_are_sorted=indices_are_sorted,
   )
+  # Prevent division by zero if there are no entries (or all are masked out).
+  denominator = jnp.where(denominator == 0, 1, denominator)
   return numerator / denominator
-- 
2.43.0


From b187752497f62837d34a143a49ce783eb7d03c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:49 +0000
Subject: [PATCH 04/15] fix: configured defaults take effect when they are
 changed after import

Defaults for cartesian_order, normalization and use_fused_tensor were captured
when the modules were imported, so the Config setters had no effect on them.
Resolve them when a function is called or a module is constructed.
---
 e3x/nn/modules.py    | 24 ++++++++++++++++++------
 e3x/nn/wrappers.py   |  4 +++-
 e3x/so3/irreps.py    | 37 ++++++++++++++++++++++++++++---------
 e3x/so3/rotations.py |  6 ++++--
 4 files changed, 53 insertions(+), 18 deletions(-)

diff --git a/e3x/nn/modules.py b/e3x/nn/modules.py
index 937a089..9e01938 100644
--- a/e3x/nn/modules.py
+++ b/e3x/nn/modules.py
@@ -409,7 +409,9 @@ class Tensor(nn.Module):
 
   max_degree: Optional[int] = None
   include_pseudotensors: bool = True
-  cartesian_order: bool = Config.cartesian_order
+  cartesian_order: bool = dataclasses.field(
+      default_factory=lambda: Config.cartesian_order
+  )
   dtype: Optional[Dtype] = None
   param_dtype: Dtype = jnp.float32
   precision: PrecisionLike = None
@@ -740,7 +742,9 @@ class FusedTensor(nn.Module):
 
   max_degree: Optional[int] = None
   include_pseudotensors: bool = True
-  cartesian_order: bool = Config.cartesian_order
+  cartesian_order: bool = dataclasses.field(
+      default_factory=lambda: Config.cartesian_order
+  )
   dtype: Optional[Dtype] = None
   param_dtype: Dtype = jnp.float32
   precision: PrecisionLike = None
@@ -1142,8 +1146,12 @@ class TensorDense(nn.Module):
   max_degree: Optional[int] = None
   use_bias: bool = True
   include_pseudotensors: bool = True
-  cartesian_order: bool = Config.cartesian_order
-  use_fused_tensor: bool = Config.use_fused_tensor
+  cartesian_order: bool = dataclasses.field(
+      default_factory=lambda: Config.cartesian_order
+  )
+  use_fused_tensor: bool = dataclasses.field(
+      default_factory=lambda: Config.use_fused_tensor
+  )
   dtype: Optional[Dtype] = None
   param_dtype: Dtype = jnp.float32
   precision: PrecisionLike = None
@@ -1239,8 +1247,12 @@ class _Conv(nn.Module):
   max_degree: Optional[int] = None
   use_basis_bias: bool = False
   include_pseudotensors: bool = True
-  cartesian_order: bool = Config.cartesian_order
-  use_fused_tensor: bool = Config.use_fused_tensor
+  cartesian_order: bool = dataclasses.field(
+      default_factory=lambda: Config.cartesian_order
+  )
+  use_fused_tensor: bool = dataclasses.field(
+      default_factory=lambda: Config.use_fused_tensor
+  )
   dtype: Optional[Dtype] = None
   param_dtype: Dtype = jnp.float32
   precision: PrecisionLike = None
diff --git a/e3x/nn/wrappers.py b/e3x/nn/wrappers.py
index af7c204..a04a0aa 100644
--- a/e3x/nn/wrappers.py
+++ b/e3x/nn/wrappers.py
@@ -58,7 +58,7 @@ def basis(
     damping_fn: Optional[
         Callable[[Float[Array, '...']], Float[Array, '...']]
     ] = None,
-    cartesian_order: bool = config.Config.cartesian_order,
+    cartesian_order: Optional[bool] = None,
 ) -> Union[
     Float[Array, '... 1 (max_degree+1)**2 num'],
     Tuple[Float[Array, '... 1 (max_degree+1)**2 num'], Float[Array, '...']],
@@ -170,6 +170,8 @@ def basis(
     (a tuple of basis function values and cutoff values and/or norms is
     returned).
   """
+  if cartesian_order is None:
+    cartesian_order = config.Config.cartesian_order
   # Check that r is a collection of 3-vectors.
   if r.shape[-1] != 3:
     raise ValueError(f'r must have shape (..., 3), received shape {r.shape}')
diff --git a/e3x/so3/irreps.py b/e3x/so3/irreps.py
index a7079b7..7d25cba 100755
--- a/e3x/so3/irreps.py
+++ b/e3x/so3/irreps.py
@@ -15,6 +15,7 @@
 r"""Functions related to irreducible representations of rotations."""
 
 import itertools
+from typing import Optional
 from e3x import ops
 from e3x.config import Config
 import jax
@@ -42,8 +43,8 @@ def spherical_harmonics(
     r: Float[Array, '... 3'],
     max_degree: int,
     r_is_normalized: bool = False,
-    cartesian_order: bool = Config.cartesian_order,
-    normalization: Normalization = Config.normalization,
+    cartesian_order: Optional[bool] = None,
+    normalization: Optional[Normalization] = None,
 ) -> Float[Array, '... (max_degree+1)**2']:
   r"""Real Cartesian spherical harmonics :math:`Y_\ell^m(\vec{r})`.
 
@@ -132,6 +133,10 @@ def spherical_harmonics(
     ValueError: If ``r`` has an invalid shape (not a 3-vector), ``max_degree``
     is not positive or zero, or ``normalization`` has an invalid value.
   """
+  if cartesian_order is None:
+    cartesian_order = Config.cartesian_order
+  if normalization is None:
+    normalization = Config.normalization
   # Perform checks.
   if r.shape[-1] != 3:
     raise ValueError(f'r must have shape (..., 3), received shape {r.shape}')
@@ -173,7 +178,7 @@ def spherical_harmonics(
 def solid_harmonics(
     r: Float[Array, '... 3'],
     max_degree: int,
-    cartesian_order: bool = Config.cartesian_order,
+    cartesian_order: Optional[bool] = None,
 ) -> Float[Array, '... (max_degree+1)**2']:
   r"""Real Cartesian (regular) solid harmonics :math:`R_\ell^m(\vec{r})`.
 
@@ -208,6 +213,8 @@ def solid_harmonics(
     ValueError: If ``r`` has an invalid shape (not a 3-vector), or
     ``max_degree`` is not positive or zero.
   """
+  if cartesian_order is None:
+    cartesian_order = Config.cartesian_order
   return spherical_harmonics(
       r=r,
       max_degree=max_degree,
@@ -221,7 +228,7 @@ def clebsch_gordan(
     max_degree1: int,
     max_degree2: int,
     max_degree3: int,
-    cartesian_order: bool = Config.cartesian_order,
+    cartesian_order: Optional[bool] = None,
 ) -> Float[Array, '(max_degree1+1)**2 (max_degree2+1)**2 (max_degree3+1)**2']:
   r"""Clebsch-Gordan coefficients for coupling all degrees at once.
 
@@ -243,6 +250,8 @@ def clebsch_gordan(
     ValueError: If ``max_degree1``, ``max_degree2``, or ``max_degree3`` are not
       positive or zero.
   """
+  if cartesian_order is None:
+    cartesian_order = Config.cartesian_order
   # Perform checks.
   _check_degree_is_positive_or_zero(max_degree1)
   _check_degree_is_positive_or_zero(max_degree2)
@@ -274,7 +283,7 @@ def clebsch_gordan_for_degrees(
     degree1: int,
     degree2: int,
     degree3: int,
-    cartesian_order: bool = Config.cartesian_order,
+    cartesian_order: Optional[bool] = None,
 ) -> Float[Array, '2*degree1+1 2*degree2+1 2*degree3+1']:
   r"""Clebsch-Gordan coefficients for coupling only specific degrees.
 
@@ -295,6 +304,8 @@ def clebsch_gordan_for_degrees(
     ValueError: If ``degree1``, ``degree2``, or ``degree3`` are not positive or
       zero.
   """
+  if cartesian_order is None:
+    cartesian_order = Config.cartesian_order
   # Perform checks.
   _check_degree_is_positive_or_zero(degree1)
   _check_degree_is_positive_or_zero(degree2)
@@ -423,8 +434,8 @@ def _tensor_compression_indices(
 def tensor_to_irreps(
     x: Float[Array, '...'],  # Last degree dimensions must all have size 3.
     degree: int,
-    cartesian_order: bool = Config.cartesian_order,
-    normalization: Normalization = Config.normalization,
+    cartesian_order: Optional[bool] = None,
+    normalization: Optional[Normalization] = None,
 ):
   """Converts a traceless symmetric tensor to irreducible representations.
 
@@ -449,6 +460,10 @@ def tensor_to_irreps(
     ValueError: If ``degree`` is not positive or zero, the shape of ``x`` is
     inconsistent with ``degree`` or ``normalization`` has an invalid value.
   """
+  if cartesian_order is None:
+    cartesian_order = Config.cartesian_order
+  if normalization is None:
+    normalization = Config.normalization
   # Perform checks.
   _check_degree_is_positive_or_zero(degree)
   _check_tensor_shape(x, degree)
@@ -509,8 +524,8 @@ def _tensor_expansion_indices(degree) -> Integer[Array, '...']:
 def irreps_to_tensor(
     x: Float[Array, '... 2*degree+1'],
     degree: int,
-    cartesian_order: bool = Config.cartesian_order,
-    normalization: Normalization = Config.normalization,
+    cartesian_order: Optional[bool] = None,
+    normalization: Optional[Normalization] = None,
 ):
   """Converts irreducible representations to a traceless symmetric tensor.
 
@@ -529,6 +544,10 @@ def irreps_to_tensor(
     ValueError: If ``degree`` is not positive or zero, the shape of ``x`` is
       inconsistent with ``degree`` or ``normalization`` has an invalid value.
   """
+  if cartesian_order is None:
+    cartesian_order = Config.cartesian_order
+  if normalization is None:
+    normalization = Config.normalization
   # Perform checks.
   _check_degree_is_positive_or_zero(degree)
   if x.shape[-1] != 2 * degree + 1:
diff --git a/e3x/so3/rotations.py b/e3x/so3/rotations.py
index 267bfd2..1d7032b 100755
--- a/e3x/so3/rotations.py
+++ b/e3x/so3/rotations.py
@@ -15,7 +15,7 @@
 """Functions for generating rotation matrices."""
 
 import functools
-from typing import Tuple, Union
+from typing import Optional, Tuple, Union
 from e3x import ops
 from e3x.config import Config
 import jax
@@ -373,7 +373,7 @@ def _wigner_d_euler(
 def wigner_d(
     rot: Float[Array, '... 3 3'],
     max_degree: int,
-    cartesian_order: bool = Config.cartesian_order,
+    cartesian_order: Optional[bool] = None,
 ) -> Float[Array, '... (max_degree+1)**2 (max_degree+1)**2']:
   r"""Wigner-D matrix corresponding to a given :math:`3\times3` rotation matrix.
 
@@ -409,6 +409,8 @@ def wigner_d(
   Raises:
     ValueError: If ``rot`` does not have shape `(..., 3, 3)`.
   """
+  if cartesian_order is None:
+    cartesian_order = Config.cartesian_order
   _check_rotation_matrix_shape(rot)  # Raise if shape is not (..., 3, 3).
 
   with jax.ensure_compile_time_eval():
-- 
2.43.0


From 4574d0b2320f0948f8b9019216e80036ea6a8541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:03 +0000
Subject: [PATCH 05/15] fix: norm scales every vector separately

A batch that contained one large vector made the norms of much smaller vectors
in the same array underflow to zero.
---
 e3x/ops/safe.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/e3x/ops/safe.py b/e3x/ops/safe.py
index 61ab0f7..5b06458 100644
--- a/e3x/ops/safe.py
+++ b/e3x/ops/safe.py
@@ -57,9 +57,13 @@ def norm(
     specified axis removed. If x is a 0-d array, or if axis is None, a scalar is
     returned.
   """
-  a = jnp.maximum(jnp.max(jnp.abs(x)), jnp.finfo(x.dtype).tiny)
+  # Scale separately for each norm, else small vectors underflow to zero if they
+  # are stored in the same array as large vectors.
+  a = jnp.max(jnp.abs(x), axis=axis, keepdims=True)
+  a = jnp.maximum(a, jnp.finfo(x.dtype).tiny)
   b = x / a
-  return a * jnp.sqrt(jnp.sum(b * b, axis=axis, keepdims=keepdims))
+  n = a * jnp.sqrt(jnp.sum(b * b, axis=axis, keepdims=True))
+  return n if keepdims else jnp.squeeze(n, axis=axis)
 
 
 @norm.defjvp
@@ -76,11 +80,15 @@ def _norm_jvp_impl(
   masked_primal_out = jnp.where(primal_out > 0, primal_out, 1)
   if not keepdims and axis is not None:
     masked_primal_out = jnp.expand_dims(masked_primal_out, axis=axis)
-  tangent_out = jnp.sum(
-      x_dot * x / masked_primal_out,
-      axis=axis,
-      keepdims=keepdims,
+  # If the squared norm is smaller than finfo.tiny, derivatives of the direction
+  # are not representable and must be masked.
+  is_small = masked_primal_out * masked_primal_out < jnp.finfo(x.dtype).tiny
+  direction = jnp.where(
+      is_small,
+      jax.lax.stop_gradient(x / masked_primal_out),
+      x / jnp.where(is_small, 1, masked_primal_out),
   )
+  tangent_out = jnp.sum(x_dot * direction, axis=axis, keepdims=keepdims)
   return primal_out, tangent_out
 
 
-- 
2.43.0


From f9a7cc34c7d1bb94c3ec7a79d4bc6fe229727a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:33 +0000
Subject: [PATCH 06/15] fix: alignment_rotation aligns (almost) antiparallel
 vectors

Due to rounding, the antiparallel case was usually not detected and the identity
was returned, almost antiparallel vectors lead to matrices that are not
orthogonal, and the fallback axis was ill-defined for vectors along (1, 1, 1)
and depended on other batch elements.
---
 e3x/so3/rotations.py | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/e3x/so3/rotations.py b/e3x/so3/rotations.py
index 1d7032b..a1dfd6d 100755
--- a/e3x/so3/rotations.py
+++ b/e3x/so3/rotations.py
@@ -121,26 +121,36 @@ def alignment_rotation(
   u = ops.normalize(u, axis=-1)
   v = ops.normalize(v, axis=-1)
 
+  # If the angle between u and v is larger than 90°, u is first aligned with -v
+  # and then turned by 180° (see below). Aligning u directly with v is numerically
+  # unstable for (almost) antiparallel vectors.
+  cos = jnp.sum(u * v, axis=-1)
+  flip = (cos < 0)[..., None]
+  t = jnp.where(flip, -v, v)
+
   # Create the skew-symmetric cross product matrix.
-  x = jnp.cross(u, v)  # Cross product vector.
+  x = jnp.cross(u, t)  # Cross product vector.
   zeros = jnp.zeros_like(x[..., 0:1])
   col1 = jnp.concatenate((zeros, -x[..., 2:3], x[..., 1:2]), axis=-1)
   col2 = jnp.concatenate((x[..., 2:3], zeros, -x[..., 0:1]), axis=-1)
   col3 = jnp.concatenate((-x[..., 1:2], x[..., 0:1], zeros), axis=-1)
   skew = jnp.stack((col1, col2, col3), axis=-1)
 
-  # Calculate rotation matrix (does not handle antiparallel case correctly).
-  div = 1 + jnp.sum(u * v, axis=-1)
-  mask = div > 0
-  safe_div = jnp.where(mask, div, 1)
-  rot = skew + skew @ skew * (1 / safe_div)[..., None, None] + jnp.eye(3)
-
-  # Handle antiparallel case.
-  w = ops.normalize(u + jnp.roll(u, shift=1, axis=-1))
-  axis = jnp.cross(u, w)
-  rot = jnp.where(mask[..., None, None], rot, rotation(axis, jnp.pi))
-
-  return rot
+  # Calculate rotation matrix that aligns u with t.
+  eye = jnp.eye(3, dtype=x.dtype)
+  rot = skew + skew @ skew * (1 / (1 + jnp.abs(cos)))[..., None, None] + eye
+
+  # Rotate by 180° about the axis orthogonal to u and v. If u and v are
+  # antiparallel, any axis orthogonal to v can be used.
+  is_antiparallel = ops.norm(x, axis=-1, keepdims=True) < 10 * jnp.finfo(
+      x.dtype
+  ).eps
+  w = jnp.where(is_antiparallel, eye[jnp.argmin(jnp.abs(v), axis=-1)], x)
+  w = ops.normalize(w, axis=-1)
+  w = ops.normalize(w - jnp.sum(w * v, axis=-1, keepdims=True) * v, axis=-1)
+  half_turn = 2 * w[..., :, None] * w[..., None, :] - eye
+
+  return jnp.where(flip[..., None], rot @ half_turn, rot)
 
 
 def rotation_euler(
-- 
2.43.0


From 2d1443e16a6487cc028d057dbcf314b538fee8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:00 +0000
Subject: [PATCH 07/15] fix: fast mish and its derivatives are finite for large
 negative inputs

exp(-x) overflows for large negative x, which lead to NaNs.
---
 e3x/nn/activations.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/e3x/nn/activations.py b/e3x/nn/activations.py
index 4ff81e5..c1b91b2 100644
--- a/e3x/nn/activations.py
+++ b/e3x/nn/activations.py
@@ -551,9 +551,10 @@ def mish(
       x: Float[Array, '... 1 1 num_features']
   ) -> Float[Array, '... 1 1 num_features']:
     if fast:  # Faster, but requires extra memory.
-      y = jnp.exp(-x)
-      z = 2 * y + 1
-      return z / (z + 2 * y * y)
+      is_negative = x < 0
+      y = jnp.exp(jnp.where(is_negative, x, -x))  # Argument is never positive.
+      z = jnp.where(is_negative, y * (y + 2), 2 * y + 1)
+      return z / (z + jnp.where(is_negative, 2, 2 * y * y))
     else:
       return jnp.tanh(jax.nn.softplus(x))
 
-- 
2.43.0


From 5ade8a0ed24957a622d4e51bd04a73d99ec8cfe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:04 +0000
Subject: [PATCH 08/15] fix: bent_identity is accurate for small and finite for
 large inputs

The gate lost up to four digits to cancellation for small inputs and overflowed
for large ones.
---
 e3x/nn/activations.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/e3x/nn/activations.py b/e3x/nn/activations.py
index c1b91b2..6b0fb15 100644
--- a/e3x/nn/activations.py
+++ b/e3x/nn/activations.py
@@ -902,12 +902,15 @@ def bent_identity(
   def g(
       x: Float[Array, '... 1 1 num_features']
   ) -> Float[Array, '... 1 1 num_features']:
-    not_tiny = jnp.abs(x) > jnp.finfo(x.dtype).eps
-    safe_x = jnp.where(not_tiny, x, 1)
-    return jnp.where(
-        not_tiny,
-        (jnp.sqrt(x * x + 1) - 1) / (2 * safe_x) + 1,
-        x / 4 + 1,  # + O(x^3) (Taylor series around x=0).
+    # Uses the identity (sqrt(x^2 + 1) - 1) / x = x / (sqrt(x^2 + 1) + 1) to avoid
+    # cancellation for small x (and the limit for large x to avoid overflow).
+    is_large = jnp.abs(x) > 1 / math.sqrt(jnp.finfo(x.dtype).eps)
+    small_x = jnp.where(is_large, 1, x)
+    large_x = jnp.where(is_large, x, 1)
+    return 1 + 0.5 * jnp.where(
+        is_large,
+        jnp.sign(x) - 1 / large_x,  # + O(1/x^2).
+        small_x / (jnp.sqrt(small_x * small_x + 1) + 1),
     )
 
   return _gated_linear(g, x)
-- 
2.43.0


From aa288e77d1dcaae689f137e8f86d2fb64176e339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:23 +0000
Subject: [PATCH 09/15] fix: lookup table caches survive interrupted writes and
 concurrent use

A cache file that was cut short (for example because the program was stopped
while writing it) made every later lookup fail. Write caches atomically and
ignore cache files that cannot be loaded.
---
 e3x/so3/_lookup_table_generation_utility.py | 61 ++++++++++++++++-----
 1 file changed, 46 insertions(+), 15 deletions(-)

diff --git a/e3x/so3/_lookup_table_generation_utility.py b/e3x/so3/_lookup_table_generation_utility.py
index 44dd3f9..49ac802 100644
--- a/e3x/so3/_lookup_table_generation_utility.py
+++ b/e3x/so3/_lookup_table_generation_utility.py
@@ -17,11 +17,24 @@
 import io
 import pkgutil
 from typing import Any, Callable, Dict, IO, Optional, Tuple
+import uuid
 import zipfile
+import zlib
 from absl import logging
 from etils import epath
 import numpy as np
 
+# Errors that can occur when loading a file that is not a valid lookup table.
+_LOAD_ERRORS = (
+    zipfile.BadZipFile,
+    zlib.error,
+    EOFError,
+    IndexError,
+    KeyError,
+    OSError,
+    ValueError,
+)
+
 
 def _load_lookup_table_from_disk(
     max_degree: int,
@@ -56,23 +69,31 @@ def _load_lookup_table_from_disk(
   """
   # Load cached lookup table from path specified in Config.
   if config_cache_path is not None and config_cache_path.exists():
-    with config_cache_path.open('rb') as f:
-      return load_from_cache(f)
-  else:  # Load pre-computed lookup table included with package.
     try:
-      f = io.BytesIO(pkgutil.get_data(__name__, package_cache_path))
-      return load_from_cache(f)
-    except (zipfile.BadZipFile, OSError, IOError, KeyError, ValueError):
+      with config_cache_path.open('rb') as f:
+        return load_from_cache(f)
+    except _LOAD_ERRORS:
       logging.exception(
-          (
-              'Failed to load pre-computed %s lookup table included with the %s'
-              ' package (data may be corrupted). Consider re-installing the'
-              ' package to fix this problem.'
-          ),
+          "Failed to load %s lookup table from '%s' (data may be corrupted)."
+          ' Continuing without the cached values...',
           lookup_table_name,
-          __name__,
+          config_cache_path,
       )
-      return -1, init_empty_lookup_table(max_degree)
+  # Load pre-computed lookup table included with package.
+  try:
+    f = io.BytesIO(pkgutil.get_data(__name__, package_cache_path))
+    return load_from_cache(f)
+  except _LOAD_ERRORS:
+    logging.exception(
+        (
+            'Failed to load pre-computed %s lookup table included with the %s'
+            ' package (data may be corrupted). Consider re-installing the'
+            ' package to fix this problem.'
+        ),
+        lookup_table_name,
+        __name__,
+    )
+    return -1, init_empty_lookup_table(max_degree)
 
 
 def _print_cache_usage_information(
@@ -152,9 +173,19 @@ def _save_lookup_table_to_disk(
   """
   logging.info('Saving %s lookup table to disk.', lookup_table_name)
   if config_cache_path is not None:
+    # Write to a temporary file first, so that the cache is never incomplete (even
+    # if the program is stopped or another process uses the same cache).
+    tmp_path = config_cache_path.with_name(
+        f'{config_cache_path.name}.{uuid.uuid4().hex}.tmp'
+    )
     try:
-      with config_cache_path.open('wb') as f:
-        np.savez_compressed(f, **lookup_table)
+      try:
+        with tmp_path.open('wb') as f:
+          np.savez_compressed(f, **lookup_table)
+        tmp_path.replace(config_cache_path)
+      except BaseException:
+        tmp_path.unlink(missing_ok=True)
+        raise
     except (OSError, IOError):
       logging.exception(
           "Failed to save %s lookup table to '%s'. Continuing anyway...",
-- 
2.43.0


From 072951b855c7f9a54739d98e09cb8c53db693461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:48 +0000
Subject: [PATCH 10/15] fix: shifted_softplus gate is accurate for small inputs

The gate (which also rescales all non-scalar features) and its derivative were
dominated by cancellation errors for inputs up to about 1e-4.
---
 e3x/nn/activations.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/e3x/nn/activations.py b/e3x/nn/activations.py
index 6b0fb15..f40922d 100644
--- a/e3x/nn/activations.py
+++ b/e3x/nn/activations.py
@@ -653,12 +653,17 @@ def shifted_softplus(
   def g(
       x: Float[Array, '... 1 1 num_features']
   ) -> Float[Array, '... 1 1 num_features']:
-    not_tiny = jnp.abs(x) > jnp.finfo(x.dtype).eps
-    safe_x = jnp.where(not_tiny, x, 1)  # division safe x
+    # The difference below suffers from cancellation already for moderately small
+    # x, so the Taylor series around x=0 is used there instead.
+    not_small = jnp.abs(x) > 0.1
+    safe_x = jnp.where(not_small, x, 1)  # division safe x
+    small_x = jnp.where(not_small, 0, x)
+    z = small_x * small_x
     return jnp.where(
-        not_tiny,
+        not_small,
         (jnp.logaddexp(x, 0) - math.log(2)) / safe_x,
-        x / 8 + 1 / 2,  # + O(x^3) Taylor series around x=0
+        1 / 2
+        + small_x * (1 / 8 - z * (1 / 192 - z * (1 / 2880 - z * 17 / 645120))),
     )
 
   return _gated_linear(g, x)
-- 
2.43.0


From 5841e81c050b2f6bd0e0f11f03af5df10301ea16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:24 +0000
Subject: [PATCH 11/15] fix: approximate gelu has finite derivatives for large
 inputs

The cube of the input overflowed, which lead to NaNs in the derivative.
---
 e3x/nn/activations.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/e3x/nn/activations.py b/e3x/nn/activations.py
index f40922d..4bec90a 100644
--- a/e3x/nn/activations.py
+++ b/e3x/nn/activations.py
@@ -493,6 +493,7 @@ def gelu(
   ) -> Float[Array, '... 1 1 num_features']:
     if approximate:
       sqrt_2_over_pi = math.sqrt(2 / math.pi)
+      x = jnp.clip(x, -10, 10)  # Saturated outside, prevents overflow of x**3.
       cdf = 0.5 * (1.0 + jnp.tanh(sqrt_2_over_pi * (x + 0.044715 * (x**3))))
       return cdf
     else:
-- 
2.43.0


From 95ae6660944148b63fa5374f2eece0f917a3171b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:52 +0000
Subject: [PATCH 12/15] fix: basis has finite derivatives for tiny
 displacements

---
 e3x/nn/wrappers.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/e3x/nn/wrappers.py b/e3x/nn/wrappers.py
index a04a0aa..29c56b7 100644
--- a/e3x/nn/wrappers.py
+++ b/e3x/nn/wrappers.py
@@ -181,9 +181,7 @@ def basis(
     raise ValueError('return_cutoff is True, but no cutoff_fn was specified')
 
   # Normalize input vectors.
-  norm = ops.norm(r, axis=-1, keepdims=True)  # (..., 1)
-  u = r / jnp.where(norm > 0, norm, 1)
-  norm = norm.squeeze(-1)  # (...)
+  u, norm = ops.normalize_and_return_norm(r, axis=-1)  # (..., 3), (...)
 
   # Evaluate radial basis functions.
   rbf = radial_fn(norm, num)  # (..., N)
-- 
2.43.0


From c976cebf35ff113d82412800d01b3f418114c861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:20 +0000
Subject: [PATCH 13/15] fix: indexed_softmax treats padding entries correctly
 for inputs with trailing dimensions

---
 e3x/ops/indexed.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/e3x/ops/indexed.py b/e3x/ops/indexed.py
index 4024bc5..1fc1c83 100644
--- a/e3x/ops/indexed.py
+++ b/e3x/ops/indexed.py
@@ -808,6 +808,8 @@ def indexed_softmax(
   shifted = inputs - lax.stop_gradient(maximum)
   # Padding entries do not contribute.
   valid = where if dst_idx is None else dst_idx < num_segments
+  idx = adj_idx if dst_idx is None else dst_idx
+  valid = jnp.reshape(valid, (*idx.shape, *(1,) * (inputs.ndim - idx.ndim)))
   shifted = jnp.where(valid, shifted, -jnp.inf)
   numerator = jnp.exp(shifted)
   if multiplicative_mask is not None:
-- 
2.43.0


From d7f1f714d0181c1d9ee038ab86fd43ad3d7a4064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:47 +0000
Subject: [PATCH 14/15] fix: fused tensor initializers return weights of the
 requested dtype

If the scale was an array (as in FusedTensor for inputs without
pseudotensors), its dtype leaked into the weights, so that half precision
weights were silently created in single precision.
---
 e3x/nn/initializers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/e3x/nn/initializers.py b/e3x/nn/initializers.py
index 8151f4c..00259be 100644
--- a/e3x/nn/initializers.py
+++ b/e3x/nn/initializers.py
@@ -405,7 +405,7 @@ def _fused_tensor_init(
         key=key,
         shape=shape,
         distribution=distribution,
-        variance=scale,
+        variance=jnp.asarray(scale, dtype=dtype),
         dtype=dtype,
     )
     return jnp.where(mask, params, 0)
-- 
2.43.0


From 8f6eaf41491ac5c4d9e9dc9870d8a005ca11e882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:22 +0000
Subject: [PATCH 15/15] fix: tensor layers compute in the requested dtype

The argument dtype ("the dtype of the computation") of Tensor and FusedTensor
only affected the parameters. Inputs, Clebsch-Gordan coefficients and the
parity mask kept their own dtype, so the result was never narrower than theirs.
---
 e3x/nn/modules.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/e3x/nn/modules.py b/e3x/nn/modules.py
index 9e01938..1bce818 100644
--- a/e3x/nn/modules.py
+++ b/e3x/nn/modules.py
@@ -500,7 +500,6 @@ class Tensor(nn.Module):
     kernel = self.param(
         'kernel', self.kernel_init, kernel_shape, self.param_dtype
     )
-    (kernel,) = promote_dtype(kernel, dtype=self.dtype)
 
     # If any of the two inputs or the output do not contain pseudotensors, the
     # forbidded coupling paths correspond to "mixed entries within array
@@ -532,9 +531,14 @@ class Tensor(nn.Module):
       idx2 = _duplication_indices_for_max_degree(max_degree2)
       idx3 = _duplication_indices_for_max_degree(max_degree3)
 
+    # Promote inputs, parameters, and constants to desired dtype.
+    inputs1, inputs2, kernel, cg = promote_dtype(
+        inputs1, inputs2, kernel, cg, dtype=self.dtype
+    )
+
     # Mask kernel (only necessary for mixed coupling paths)
     if mixed_coupling_paths:
-      kernel *= mask
+      kernel *= mask.astype(kernel.dtype)
 
     # Expand shape (necessary for correct broadcasting).
     kernel = jnp.take(kernel, idx1, axis=1, indices_are_sorted=True)
@@ -921,8 +925,11 @@ class FusedTensor(nn.Module):
         self.param_dtype,
     )
 
-    # Promote parameters to desired dtype.
+    # Promote inputs, parameters, and constants to desired dtype.
     (
+        inputs1,
+        inputs2,
+        cg,
         kernel_e1,
         kernel_o1,
         kernel_e2,
@@ -932,6 +939,9 @@ class FusedTensor(nn.Module):
         kernel_eoo,
         kernel_oeo,
     ) = promote_dtype(
+        inputs1,
+        inputs2,
+        cg,
         kernel_e1,
         kernel_o1,
         kernel_e2,
-- 
2.43.0

