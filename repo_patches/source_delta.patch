From e9d16ff81a99309ccc78fea644cd872519ff04ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:55 +0000
Subject: [PATCH 01/27] fix: maximum_value/minimum_value ignore end points
 beyond a contained local extremum

get_range() returned the value at a local extremum contained in the interval
even when an end point of the interval has a larger (smaller) value, so
enclosures based on it (e.g. sigmoid of degree 4, swish of degree 3) were
unsound.  The sort by value also failed when called under jax.jit.
---
 autobound/elementwise_functions.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/autobound/elementwise_functions.py b/autobound/elementwise_functions.py
index 07efe06..cde76c6 100644
--- a/autobound/elementwise_functions.py
+++ b/autobound/elementwise_functions.py
@@ -208,12 +208,15 @@ def maximum_value(f,
   """Returns maximum value of `f` over `[x_min, x_max]`."""
   if not local_maxima:
     return np_like.maximum(f(x_min), f(x_max))
-  sorted_maxima = list(sorted(local_maxima, key=f, reverse=True))
-  x = sorted_maxima[0]
+  # A local maximum inside the interval need not be the global maximum over
+  # the interval, so the value at `x` must be combined with the values at the
+  # other local maxima and at the end points.
+  x = local_maxima[0]
+  rest = maximum_value(f, x_min, x_max, local_maxima[1:], np_like)
   return np_like.where(
       np_like.logical_and(x_min <= x, x <= x_max),
-      f(x),
-      maximum_value(f, x_min, x_max, sorted_maxima[1:], np_like))
+      np_like.maximum(f(x), rest),
+      rest)
 
 
 def minimum_value(f,
@@ -224,12 +227,15 @@ def minimum_value(f,
   """Returns minimum value of `f` over `[x_min, x_max]`."""
   if not local_minima:
     return np_like.minimum(f(x_min), f(x_max))
-  sorted_minima = list(sorted(local_minima, key=f))
-  x = sorted_minima[0]
+  # A local minimum inside the interval need not be the global minimum over
+  # the interval, so the value at `x` must be combined with the values at the
+  # other local minima and at the end points.
+  x = local_minima[0]
+  rest = minimum_value(f, x_min, x_max, local_minima[1:], np_like)
   return np_like.where(
       np_like.logical_and(x_min <= x, x <= x_max),
-      f(x),
-      minimum_value(f, x_min, x_max, sorted_minima[1:], np_like))
+      np_like.minimum(f(x), rest),
+      rest)
 
 
 def _get_range(f,
-- 
2.43.0


From 87dccd6a32477dc57f9bc4bd7ac2db28bf14b4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:26 +0000
Subject: [PATCH 02/27] fix: pow_enclosure unsound for positive integer powers
 over regions containing zero

When exponent - degree is even and positive, the (degree)th derivative is not
monotone over a trust region that contains zero in its interior, and the
minimum of the two monotone enclosures is not a valid lower end point.
---
 autobound/primitive_enclosures.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/autobound/primitive_enclosures.py b/autobound/primitive_enclosures.py
index b58a2b5..40e17ce 100644
--- a/autobound/primitive_enclosures.py
+++ b/autobound/primitive_enclosures.py
@@ -166,10 +166,13 @@ def pow_enclosure(exponent: float,
       endpoint_if_possibly_zero = -np_like.inf if i == 0 else np_like.inf
     else:
       endpoint_if_always_negative = enc_neg[-1][i]
+      endpoints = [endpoint_if_always_positive, endpoint_if_always_negative]
+      if i == 0 and exponent > degree and (exponent - degree) % 2 == 0:
+        # The (degree)th derivative is an even power of x, so it attains its
+        # minimum value of zero in the interior of the interval.
+        endpoints.append(0.)
       endpoint_if_possibly_zero = functools.reduce(
-          np_like.minimum if i == 0 else np_like.maximum,
-          [endpoint_if_always_positive, endpoint_if_always_negative]
-      )
+          np_like.minimum if i == 0 else np_like.maximum, endpoints)
     return np_like.where(
         a >= 0,
         endpoint_if_always_positive,
-- 
2.43.0


From f1627facb64347f94b9a4f67c94083e917a71b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:03 +0000
Subject: [PATCH 03/27] fix: TaylorEnclosureArithmetic.power fails for integral
 float exponents

x**2.0 raised TypeError because the float exponent was passed to range().
---
 autobound/enclosure_arithmetic.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/autobound/enclosure_arithmetic.py b/autobound/enclosure_arithmetic.py
index ba2891e..2879fd6 100644
--- a/autobound/enclosure_arithmetic.py
+++ b/autobound/enclosure_arithmetic.py
@@ -321,6 +321,7 @@ class TaylorEnclosureArithmetic:
     """Returns a TaylorEnclosure for a**p, of degree <= self.max_degree."""
     self._validate_taylor_enclosure(a)
     if p >= 0 and p == int(p):
+      p = int(p)
       x_ndim = self.np_like.ndim(self.trust_region[0])
       term_product_coefficient = functools.partial(
           _elementwise_term_product_coefficient, x_ndim=x_ndim,
-- 
2.43.0


From 553aaafa22550c25318ded4eb5ab2e0ca7a5ed01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:28 +0000
Subject: [PATCH 04/27] fix: TaylorEnclosureArithmetic.add does not broadcast
 the longer operand

The coefficients present in only one operand kept their own batch shape, so
e.g. the sum of a constant vector and a scalar variable was a polynomial with
inconsistently-shaped coefficients.
---
 autobound/enclosure_arithmetic.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/autobound/enclosure_arithmetic.py b/autobound/enclosure_arithmetic.py
index 2879fd6..bb875cc 100644
--- a/autobound/enclosure_arithmetic.py
+++ b/autobound/enclosure_arithmetic.py
@@ -83,13 +83,23 @@ class TaylorEnclosureArithmetic:
     a = as_taylor_enclosure(a, self.np_like)
     b = as_taylor_enclosure(b, self.np_like)
 
+    x_ndim = self.np_like.ndim(self.trust_region[0])
+
+    def broadcast(c, other, i):
+      """Broadcasts ith coefficient `c` against the value of `other`."""
+      other0 = other[0][0] if isinstance(other[0], tuple) else other[0]
+      if self.np_like.ndim(other0) == 0:
+        return c
+      zeros = expand_multiple_dims(self.np_like.zeros_like(other0), i*x_ndim)
+      return self.set_arithmetic.add(c, zeros)
+
     def get_coefficient(i):
       if i < len(a) and i < len(b):
         return self.set_arithmetic.add(a[i], b[i])
       elif i < len(a):
-        return a[i]
+        return broadcast(a[i], b, i)
       else:
-        return b[i]
+        return broadcast(b[i], a, i)
 
     sum_ab = tuple(get_coefficient(i) for i in range(max(len(a), len(b))))
     return self._truncate_if_necessary(sum_ab)
-- 
2.43.0


From 4988eafda42a676091ef84a3f84821bae28a37bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:16 +0000
Subject: [PATCH 05/27] fix: dot_general batch dimensions counted as
 contracting dimensions

The output axes of a dot_general with batch dimensions were permuted
incorrectly when the independent variable is a vector.
---
 autobound/jax/jax_bound.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/autobound/jax/jax_bound.py b/autobound/jax/jax_bound.py
index 0eb54a0..753480b 100644
--- a/autobound/jax/jax_bound.py
+++ b/autobound/jax/jax_bound.py
@@ -397,9 +397,7 @@ def _dot_general_pushforward_fun(arithmetic):
   def fun(lhs_intermediate: _IntermediateEnclosure,
           rhs_intermediate: _IntermediateEnclosure,
           **params):
-    a_contracting_dims = set(a  # pylint: disable=g-complex-comprehension
-                             for t in params['dimension_numbers']
-                             for a in t[0])
+    a_contracting_dims = params['dimension_numbers'][0][0]
     def pairwise_batched_bilinear(
         a: jnp.ndarray, b: jnp.ndarray, p: int, q: int
     ) -> jnp.ndarray:
-- 
2.43.0


From 48a9b2c39a53e7fa4c367aef2bf0268c56fc4bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:49 +0000
Subject: [PATCH 06/27] fix: propagate_trust_regions fails for pow and for
 constant results

A constant operand was passed to the degree 0 rule as an interval, so that
x**.5 raised NotImplementedError, and x**0 raised TypeError because its
degree 0 enclosure is an array rather than an interval.
---
 autobound/jax/jax_bound.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/autobound/jax/jax_bound.py b/autobound/jax/jax_bound.py
index 753480b..9e26f9c 100644
--- a/autobound/jax/jax_bound.py
+++ b/autobound/jax/jax_bound.py
@@ -148,6 +148,7 @@ def taylor_bounds(
           assert fun0 is not None
           assert all(i.trust_region is not None for i in invar_intermediates)
           invar_degree_0_intermediates = [
+              intermediate if intermediate.is_constant() else
               _IntermediateEnclosure(
                   enclosure=types.TaylorEnclosure((intermediate.trust_region,)))
               for intermediate in invar_intermediates
@@ -434,6 +435,9 @@ def _elementwise_pushforward_fun(arithmetic, get_enclosure):
 
 def _intersect_intervals(
     a: types.Interval, b: types.Interval) -> types.Interval:
+  # A function whose value does not depend on x has a degenerate range.
+  a = a if isinstance(a, tuple) else (a, a)
+  b = b if isinstance(b, tuple) else (b, b)
   if not len(a) == len(b) == 2:
     raise ValueError()
   return (jnp.maximum(a[0], b[0]), jnp.minimum(a[1], b[1]))  # pytype: disable=wrong-arg-types
-- 
2.43.0


From 1265d92e2933a7d7e54f9bc705a083ccdd5ec4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:21 +0000
Subject: [PATCH 07/27] fix: taylor_bounds fails for trust regions with integer
 end points

E.g. bounding 1/x over (1, 3) raised TypeError for degree 0, or when
propagating trust regions.
---
 autobound/jax/jax_bound.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/autobound/jax/jax_bound.py b/autobound/jax/jax_bound.py
index 9e26f9c..ed7a1f7 100644
--- a/autobound/jax/jax_bound.py
+++ b/autobound/jax/jax_bound.py
@@ -90,6 +90,8 @@ def taylor_bounds(
   def bound_fun(
       x0: jnp.ndarray, x_trust_region: types.Interval
   ) -> TaylorBounds:
+    # Operations such as division are not defined for integer end points.
+    x_trust_region = tuple(jnp.multiply(t, 1.) for t in x_trust_region)
     trust_region = interval_arithmetic.IntervalArithmetic(jnp).subtract(
         x_trust_region, x0)
 
-- 
2.43.0


From bf7f3adc817a04276e1432e72cb16bd5f2f0a404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:01 +0000
Subject: [PATCH 08/27] fix: taylor_bounds mishandles functions applied to
 constants

Constant sub-expressions were evaluated incorrectly when they used a primitive
with multiple results (e.g. a jitted function, whose value became a list), a
custom derivative rule (e.g. relu), or one of the functions that autobound
rewrites (e.g. softplus).
---
 autobound/jax/jax_bound.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/autobound/jax/jax_bound.py b/autobound/jax/jax_bound.py
index ed7a1f7..e914958 100644
--- a/autobound/jax/jax_bound.py
+++ b/autobound/jax/jax_bound.py
@@ -26,6 +26,7 @@ from autobound import types
 from autobound.jax import jaxpr_editor
 import jax
 import jax.extend as jex
+from jax.interpreters import mlir
 import jax.numpy as jnp
 
 
@@ -190,8 +191,9 @@ def taylor_bounds(
       else:
         invar_values = tuple(intermediate.constant_value()
                              for intermediate in invar_intermediates)
-        vals = eqn.primitive.bind(*invar_values, **eqn.params)
-        if len(eqn.outvars) == 1:
+        subfuns, bind_params = eqn.primitive.get_bind_params(eqn.params)
+        vals = eqn.primitive.bind(*subfuns, *invar_values, **bind_params)
+        if not eqn.primitive.multiple_results:
           vals = (vals,)
         outvar_intermediates = [_constant_intermediate_enclosure(v)
                                 for v in vals]
@@ -266,6 +268,9 @@ def _register_elementwise_function(
   p = jex.core.Primitive(name)
   p.def_abstract_eval(
       lambda x: jax.core.ShapedArray(x.shape, x.dtype))
+  # The primitive may be applied to constants, which are not enclosed.
+  p.def_impl(f)
+  mlir.register_lowering(p, mlir.lower_fun(f, multiple_results=False))
   rule = lambda: (jax.make_jaxpr(f)(0.).jaxpr, jax.make_jaxpr(p.bind)(0.).jaxpr)
   _JAXPR_REWRITE_RULES.append(rule)
   register_elementwise_primitive(p, get_enclosure)
-- 
2.43.0


From 57a1403b0567a86bc679ce0b39c217763abf5eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:10 +0000
Subject: [PATCH 09/27] fix: taylor_bounds unsound for nested jitted functions

A call to a jitted function was applied separately to each coefficient of the
argument's enclosure, which is only correct if the function is linear and has
a single argument.  Calls are now replaced by the equations of the function.
---
 autobound/jax/jax_bound.py | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/autobound/jax/jax_bound.py b/autobound/jax/jax_bound.py
index e914958..25b4315 100644
--- a/autobound/jax/jax_bound.py
+++ b/autobound/jax/jax_bound.py
@@ -307,7 +307,6 @@ _PASS_THRU_PRIMITIVES = frozenset([
     jax.lax.reduce_window_sum_p,
     jax.lax.squeeze_p,
     jax.lax.transpose_p,
-    jex.core.primitives.jit_p,
     # TODO(mstreeter): add more of these
 ])
 
@@ -317,7 +316,37 @@ def _rewrite_jaxpr(jaxpr: jex.core.Jaxpr) -> jex.core.Jaxpr:
   for rule_generator in _JAXPR_REWRITE_RULES:
     pattern, replacement = rule_generator()
     jaxpr = jaxpr_editor.replace(pattern, replacement, jaxpr)
-  return jaxpr
+  return _inline_jitted_calls(jaxpr)
+
+
+def _inline_jitted_calls(jaxpr: jex.core.Jaxpr) -> jex.core.Jaxpr:
+  """Replaces each call to a jitted function by the function's equations."""
+  var_map = {}
+  def subs(mapping, v):
+    return mapping.get(v, v) if isinstance(v, jex.core.Var) else v
+
+  eqns = []
+  for eqn in jaxpr.eqns:
+    invars = [subs(var_map, v) for v in eqn.invars]
+    if eqn.primitive != jex.core.primitives.jit_p:
+      eqns.append(eqn.replace(invars=invars))
+      continue
+    closed_jaxpr = eqn.params['jaxpr']
+    inner = _rewrite_jaxpr(closed_jaxpr.jaxpr)
+    # The same Jaxpr may be called more than once, so rename its variables.
+    inner_map = dict(zip(inner.invars, invars))
+    for v, val in zip(inner.constvars, closed_jaxpr.consts):
+      inner_map[v] = jex.core.Literal(val, v.aval)
+    for inner_eqn in inner.eqns:
+      inner_invars = [subs(inner_map, v) for v in inner_eqn.invars]
+      outvars = [jex.core.Var(v.aval) for v in inner_eqn.outvars]
+      inner_map.update(zip(inner_eqn.outvars, outvars))
+      eqns.append(inner_eqn.replace(invars=inner_invars, outvars=outvars))
+    var_map.update(
+        zip(eqn.outvars, [subs(inner_map, v) for v in inner.outvars]))
+
+  outvars = [subs(var_map, v) for v in jaxpr.outvars]
+  return jex.core.Jaxpr(jaxpr.constvars, jaxpr.invars, outvars, eqns)
 
 
 @dataclasses.dataclass
-- 
2.43.0


From b20109bfd465fd61b8248f98d3ffd0221ba5765d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:17 +0000
Subject: [PATCH 10/27] fix: broadcast, reshape, transpose and windowed sums
 fail for vector inputs

The primitives were applied to coefficient arrays including their trailing
(monomial) dimensions, and broadcast_in_dim could not handle an enclosure
consisting of a single interval coefficient.
---
 autobound/jax/jax_bound.py | 64 ++++++++++++++++++++++++--------------
 1 file changed, 40 insertions(+), 24 deletions(-)

diff --git a/autobound/jax/jax_bound.py b/autobound/jax/jax_bound.py
index 25b4315..8e9e20d 100644
--- a/autobound/jax/jax_bound.py
+++ b/autobound/jax/jax_bound.py
@@ -366,26 +366,14 @@ class _IntermediateEnclosure:
       return self.enclosure[0]  # pytype: disable=bad-return-type
 
 
-def _broadcast_in_dim_pushforward_fun(intermediate, shape,
-                                      broadcast_dimensions,
-                                      **unused_kwargs):
-  """Enclosure-generating function for jax.lax.broadcast_in_dim."""
-  enclosure = intermediate.enclosure
-  x0 = enclosure[0]
-  if isinstance(x0, tuple):
-    x0 = enclosure[0][0]
-  x_shape = (() if len(enclosure) == 1 else enclosure[1].shape[x0.ndim:])
-  def broadcast_ndarray(a, i):
-    return jax.lax.broadcast_in_dim(a, shape + i*x_shape, broadcast_dimensions)
-  def broadcast_ndarray_or_interval(a, i):
-    if isinstance(a, tuple):
-      return tuple(broadcast_ndarray(x, i) for x in a)
-    else:
-      return broadcast_ndarray(a, i)
-  return tuple(
-      broadcast_ndarray_or_interval(coeff, i)
-      for i, coeff in enumerate(enclosure)
-  )
+def _broadcast_in_dim_pushforward_fun(arithmetic):
+  """Returns function that implements broadcast_in_dim on enclosures."""
+  def fun(intermediate, shape, broadcast_dimensions, **unused_kwargs):
+    return _map_over_batch_dims(
+        arithmetic,
+        intermediate.enclosure,
+        lambda a: jax.lax.broadcast_in_dim(a, shape, broadcast_dimensions))
+  return fun
 
 
 def _constant_intermediate_enclosure(val: types.NDArray):
@@ -479,9 +467,36 @@ def _intersect_intervals(
   return (jnp.maximum(a[0], b[0]), jnp.minimum(a[1], b[1]))  # pytype: disable=wrong-arg-types
 
 
-def _pass_thru_pushforward_fun(primitive):
+def _map_over_batch_dims(arithmetic, enclosure, fun):
+  """Applies a linear function to an enclosure of the function's argument.
+
+  The trailing dimensions of the ith coefficient (i for each dimension of the
+  independent variable) index monomials, and are not seen by the function.
+
+  Args:
+    arithmetic: a TaylorEnclosureArithmetic
+    enclosure: a TaylorEnclosure
+    fun: a function of a single NDArray whose value is a vector of sums of
+      elements of its argument.
+
+  Returns:
+    a TaylorEnclosure
+  """
+  x_ndim = jnp.ndim(arithmetic.trust_region[0])
+  coefficients = []
+  for i, coeff in enumerate(enclosure):
+    batched_fun = fun
+    for _ in range(i * x_ndim):
+      batched_fun = jax.vmap(batched_fun, in_axes=-1, out_axes=-1)
+    coefficients.append(tuple(map(batched_fun, coeff))
+                        if isinstance(coeff, tuple) else batched_fun(coeff))
+  return types.TaylorEnclosure(tuple(coefficients))
+
+
+def _pass_thru_pushforward_fun(arithmetic, primitive):
   def fun(intermediate, **params):
-    return enclosure_arithmetic.map_over_enclosure(
+    return _map_over_batch_dims(
+        arithmetic,
         intermediate.enclosure,
         functools.partial(primitive.bind, **params)
     )
@@ -528,14 +543,15 @@ def _pushforward_funs(
       jax.lax.dot_general_p: _dot_general_pushforward_fun(arithmetic),
       jax.lax.conv_general_dilated_p: _conv_general_dilated_pushforward_fun(
           arithmetic),
-      jax.lax.broadcast_in_dim_p: _broadcast_in_dim_pushforward_fun,
+      jax.lax.broadcast_in_dim_p: _broadcast_in_dim_pushforward_fun(
+          arithmetic),
   }
   primitive_to_enclosure_fun.update({
       primitive: _elementwise_pushforward_fun(arithmetic, get_enclosure)
       for primitive, get_enclosure in _ELEMENTWISE_PRIMITIVE_ENCLOSURES.items()
   })
   primitive_to_enclosure_fun.update({
-      primitive: _pass_thru_pushforward_fun(primitive)
+      primitive: _pass_thru_pushforward_fun(arithmetic, primitive)
       for primitive in _PASS_THRU_PRIMITIVES
   })
   return primitive_to_enclosure_fun
-- 
2.43.0


From 7c6f1aead9020507212f69de866e4e033af5c2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:49 +0000
Subject: [PATCH 11/27] fix: convolution fails for vector inputs

The coefficients' trailing (monomial) dimensions were folded into the batch
and feature dimensions, which raised ValueError or NotImplementedError.
---
 autobound/jax/jax_bound.py | 25 ++++++-------------------
 1 file changed, 6 insertions(+), 19 deletions(-)

diff --git a/autobound/jax/jax_bound.py b/autobound/jax/jax_bound.py
index 8e9e20d..a79b843 100644
--- a/autobound/jax/jax_bound.py
+++ b/autobound/jax/jax_bound.py
@@ -390,25 +390,12 @@ def _conv_general_dilated_pushforward_fun(arithmetic):
     def pairwise_batched_bilinear(
         a: jnp.ndarray, b: jnp.ndarray, p: int, q: int
     ) -> jnp.ndarray:
-      def move_last_n_dims_to_front(x: jnp.ndarray, n: int):
-        if n == 0:
-          return x
-        perm = tuple(range(x.ndim - n, x.ndim)) + tuple(range(x.ndim - n))
-        transposed = jnp.transpose(x, axes=perm)
-        return jnp.reshape(transposed, (-1,) + x.shape[:x.ndim-n])
-
-      a_reshaped = move_last_n_dims_to_front(a, p)
-      b_reshaped = move_last_n_dims_to_front(b, q)
-
-      c = jax.lax.conv_general_dilated_p.bind(a_reshaped, b_reshaped, **params)
-      if p == 0 and q == 0:
-        return c
-      elif p == 0 or q == 0:
-        raise NotImplementedError((p, q))
-      c_perm = tuple(range(2, c.ndim)) + (0, 1)
-      c_transposed = jnp.transpose(c, axes=c_perm)
-      return jnp.reshape(c_transposed,
-                         c.shape[2:] + a.shape[a.ndim-p:] + b.shape[b.ndim-q:])
+      conv = functools.partial(jax.lax.conv_general_dilated_p.bind, **params)
+      for _ in range(q):
+        conv = jax.vmap(conv, in_axes=(None, -1), out_axes=-1)
+      for _ in range(p):
+        conv = jax.vmap(conv, in_axes=(-1, None), out_axes=-1-q)
+      return conv(a, b)
 
     return arithmetic.arbitrary_bilinear(
         lhs_intermediate.enclosure,
-- 
2.43.0


From 9c0e12e7bfeacb179cc04da4bea27204fde7a1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:17 +0000
Subject: [PATCH 12/27] fix: cbrt of negative values is bounded by nan

The enclosure was computed using x**(1/3), which is nan for negative x.
---
 autobound/jax/jax_bound.py | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/autobound/jax/jax_bound.py b/autobound/jax/jax_bound.py
index a79b843..bc0bec9 100644
--- a/autobound/jax/jax_bound.py
+++ b/autobound/jax/jax_bound.py
@@ -276,12 +276,35 @@ def _register_elementwise_function(
   register_elementwise_primitive(p, get_enclosure)
 
 
+def _cbrt_enclosure(x0, trust_region, degree, np_like):
+  """Returns an ElementwiseTaylorEnclosure for the (odd) function cbrt."""
+  negative = x0 < 0
+  a, b = trust_region
+  enclosure = primitive_enclosures.pow_enclosure(
+      1/3,
+      np_like.where(negative, -x0, x0),
+      (np_like.where(negative, -b, a), np_like.where(negative, -a, b)),
+      degree,
+      np_like)
+  # If cbrt(-x) is in sum_i c_i*(-x+x0)**i, then cbrt(x) is in
+  # sum_i -c_i*(-1)**i * (x-x0)**i.
+  coefficients = tuple(
+      np_like.where(negative, (-1)**(i+1) * c, c)
+      for i, c in enumerate(enclosure[:-1]))
+  c_min, c_max = enclosure[-1]
+  if degree % 2 == 0:
+    final_interval = (np_like.where(negative, -c_max, c_min),
+                      np_like.where(negative, -c_min, c_max))
+  else:
+    final_interval = (c_min, c_max)
+  return types.ElementwiseTaylorEnclosure(coefficients + (final_interval,))
+
+
 # Dict from Jax Primitive to ElementwiseEnclosureGeneratingFunction.
 # TODO(mstreeter): support more elementwise functions.
 _ELEMENTWISE_PRIMITIVE_ENCLOSURES = {
     jax.lax.abs_p: primitive_enclosures.abs_enclosure,
-    jax.lax.cbrt_p: (
-        functools.partial(primitive_enclosures.pow_enclosure, 1/3)),
+    jax.lax.cbrt_p: _cbrt_enclosure,
     jax.lax.exp_p: primitive_enclosures.exp_enclosure,
     jax.lax.log_p: primitive_enclosures.log_enclosure,
     jax.lax.logistic_p: primitive_enclosures.sigmoid_enclosure,
-- 
2.43.0


From 89ec2c19ed8b0419d3ad3fd970f16059f1a6e335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 13/27] fix: conversion to an integer type treated as a linear
 operation

Bounds on functions that truncate (e.g. x.astype(int)) were unsound.
---
 autobound/jax/jax_bound.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/autobound/jax/jax_bound.py b/autobound/jax/jax_bound.py
index bc0bec9..1107d4e 100644
--- a/autobound/jax/jax_bound.py
+++ b/autobound/jax/jax_bound.py
@@ -324,7 +324,6 @@ _register_elementwise_function(jax.nn.swish,
 # Set of primitives that can be applied separately to each coefficient of a
 # TaylorEnclosure.
 _PASS_THRU_PRIMITIVES = frozenset([
-    jax.lax.convert_element_type_p,
     jax.lax.reshape_p,
     jax.lax.reduce_sum_p,
     jax.lax.reduce_window_sum_p,
@@ -427,6 +426,20 @@ def _conv_general_dilated_pushforward_fun(arithmetic):
   return fun
 
 
+def _convert_element_type_pushforward_fun(arithmetic):
+  """Returns function that implements convert_element_type on enclosures."""
+  pass_thru = _pass_thru_pushforward_fun(arithmetic,
+                                         jax.lax.convert_element_type_p)
+  def fun(intermediate, new_dtype, **params):
+    dtype = jnp.result_type(*jax.tree_util.tree_leaves(intermediate.enclosure))
+    if (jnp.issubdtype(dtype, jnp.inexact) and
+        not jnp.issubdtype(new_dtype, jnp.inexact)):
+      # Truncation is not a linear operation.
+      raise NotImplementedError(new_dtype)
+    return pass_thru(intermediate, new_dtype=new_dtype, **params)
+  return fun
+
+
 def _dot_general_pushforward_fun(arithmetic):
   """Returns function that implements dot_general on enclosures."""
   def fun(lhs_intermediate: _IntermediateEnclosure,
@@ -553,6 +566,8 @@ def _pushforward_funs(
       jax.lax.dot_general_p: _dot_general_pushforward_fun(arithmetic),
       jax.lax.conv_general_dilated_p: _conv_general_dilated_pushforward_fun(
           arithmetic),
+      jax.lax.convert_element_type_p: _convert_element_type_pushforward_fun(
+          arithmetic),
       jax.lax.broadcast_in_dim_p: _broadcast_in_dim_pushforward_fun(
           arithmetic),
   }
-- 
2.43.0


From cfb93859a8b9c6e1ab0db1882a31daca1819b9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:15 +0000
Subject: [PATCH 14/27] fix: jaxpr_editor.replace fails for patterns with
 unhashable literals

E.g. the pattern lambda x: 2*x raised TypeError.
---
 autobound/jax/jaxpr_editor.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/autobound/jax/jaxpr_editor.py b/autobound/jax/jaxpr_editor.py
index 3cffbd4..b6e310c 100644
--- a/autobound/jax/jaxpr_editor.py
+++ b/autobound/jax/jaxpr_editor.py
@@ -21,6 +21,7 @@ from typing import Any, Union
 from autobound import graph_editor
 import jax
 import jax.extend as jex
+import numpy as np
 
 
 def replace(pattern: jex.core.Jaxpr,
@@ -116,11 +117,28 @@ _IntermediateVariable = Union[
     # a jex.core.Var, and is of the form (True, count, aval).
     tuple[bool, int, jax.core.AbstractValue],
     # If the first element of the tuple is False, then the tuple represents
-    # a jex.core.Literal, and is of the form (False, val, aval).
+    # a jex.core.Literal, and is of the form (False, _LiteralValue(val), aval).
     tuple[bool, Any, jax.core.AbstractValue]
 ]
 
 
+class _LiteralValue:
+  """A hashable wrapper for the value of a jex.core.Literal."""
+
+  def __init__(self, val):
+    self.val = val
+
+  def __eq__(self, other):
+    return (isinstance(other, _LiteralValue) and
+            np.array_equal(self.val, other.val))
+
+  def __hash__(self):
+    return hash(np.shape(self.val))
+
+  def __repr__(self):
+    return f'_LiteralValue({self.val})'
+
+
 def _jaxpr_to_graph(jaxpr: jex.core.Jaxpr,
                     offset: int = 0) -> graph_editor.ComputationGraph:
   """Returns a ComputationGraph that represents a Jaxpr.
@@ -142,7 +160,7 @@ def _jaxpr_to_graph(jaxpr: jex.core.Jaxpr,
       return (True, var.count + offset, var.aval)
     elif isinstance(var_or_literal, jex.core.Literal):
       literal = var_or_literal
-      return (False, literal.val, literal.aval)
+      return (False, _LiteralValue(literal.val), literal.aval)
     else:
       raise NotImplementedError()
 
@@ -180,7 +198,7 @@ def _graph_to_jaxpr(h: graph_editor.ComputationGraph) -> jex.core.Jaxpr:
       return count_to_var[count]
     else:
       _, val, aval = vertex
-      return jex.core.Literal(val, aval)
+      return jex.core.Literal(val.val, aval)
 
   eqns = []
   for edge in h.operations:
-- 
2.43.0


From 9b55e53f8034b603763a1404a08d78c0dfb9d262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:04 +0000
Subject: [PATCH 15/27] fix: graph_editor.replace removes the definition of
 variables in use

If a variable internal to an occurrence of the pattern was also used by the
rest of the graph, replacing the occurrence left it undefined.  An empty
pattern caused an infinite loop.
---
 autobound/graph_editor.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/autobound/graph_editor.py b/autobound/graph_editor.py
index 6a87fae..97f5c88 100644
--- a/autobound/graph_editor.py
+++ b/autobound/graph_editor.py
@@ -114,7 +114,9 @@ def replace(
   """Perform a search/replace on a ComputationGraph.
 
   This method greedily replaces occurences of a given operation sequence
-  `pattern` with an operation sequence `replacement`.
+  `pattern` with an operation sequence `replacement`.  An occurrence is left
+  as is if the rest of the graph uses a variable that the occurrence defines
+  but `replacement` does not.
 
   Args:
     pattern: a sequence of `Operations`
@@ -131,13 +133,24 @@ def replace(
   # Note: this could be made more efficient using the Knuth-Morris-Pratt
   # algorithm.
   k = len(pattern)
+  if k == 0:
+    raise ValueError('pattern is empty')
   output_operations = []
   i = 0
   while i < len(subject.operations):
     subgraph = subject.operations[i:i+k]
     m = match(pattern, subgraph, can_bind)
     if m is not None:
-      output_operations.extend([e.subs(m) for e in replacement])
+      new_operations = [e.subs(m) for e in replacement]
+      removed_variables = (
+          set(v for op in subgraph for v in op.outputs) -
+          set(v for op in new_operations for v in op.outputs))
+      used_variables = itertools.chain(
+          subject.outputs, *(op.inputs for op in subject.operations[i+k:]))
+      if not removed_variables.isdisjoint(used_variables):
+        m = None
+    if m is not None:
+      output_operations.extend(new_operations)
       i += k
     else:
       output_operations.append(subject.operations[i])
-- 
2.43.0


From 220b306e966774532591ae6bb5121a5843702984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:36 +0000
Subject: [PATCH 16/27] fix: jaxpr_editor.replace returns ill-formed Jaxprs

The internal variables of the replacement were defined once per occurrence of
the pattern, and could coincide with variables of the subject.  An output of
the replacement that is an input, a literal, or a repeated output was not
defined at all.
---
 autobound/graph_editor.py     |  8 +++++++-
 autobound/jax/jaxpr_editor.py | 34 +++++++++++++++++++++++++++-------
 2 files changed, 34 insertions(+), 8 deletions(-)

diff --git a/autobound/graph_editor.py b/autobound/graph_editor.py
index 97f5c88..3bc10ec 100644
--- a/autobound/graph_editor.py
+++ b/autobound/graph_editor.py
@@ -109,7 +109,8 @@ def replace(
     pattern: Sequence[Operation],
     replacement: Sequence[Operation],
     subject: ComputationGraph,
-    can_bind: Callable[[IntermediateVariable, IntermediateVariable], bool]
+    can_bind: Callable[[IntermediateVariable, IntermediateVariable], bool],
+    rename: Callable[[IntermediateVariable], IntermediateVariable] = lambda v: v
 ) -> ComputationGraph:
   """Perform a search/replace on a ComputationGraph.
 
@@ -125,6 +126,8 @@ def replace(
     subject: a `ComputationGraph`
     can_bind: a `Callable` with the same meaning as the corresponding argument
       to `match()`.
+    rename: a `Callable` that is applied, once per occurrence of the pattern, to
+      each variable that is defined by `replacement` but is not in `pattern`.
 
   Returns:
     a `ComputationGraph` with occurrences of `pattern` replaced by
@@ -141,6 +144,9 @@ def replace(
     subgraph = subject.operations[i:i+k]
     m = match(pattern, subgraph, can_bind)
     if m is not None:
+      for v in itertools.chain(*(op.outputs for op in replacement)):
+        if v not in m:
+          m[v] = rename(v)
       new_operations = [e.subs(m) for e in replacement]
       removed_variables = (
           set(v for op in subgraph for v in op.outputs) -
diff --git a/autobound/jax/jaxpr_editor.py b/autobound/jax/jaxpr_editor.py
index b6e310c..e681d50 100644
--- a/autobound/jax/jaxpr_editor.py
+++ b/autobound/jax/jaxpr_editor.py
@@ -74,20 +74,40 @@ def replace(pattern: jex.core.Jaxpr,
   replacement_graph = _jaxpr_to_graph(replacement, offset=max_count + 1)
   # In the replacement graph, replace inputs/outputs with those in the pattern
   # graph.
-  intermediate_variable_map = {}
-  for u, v in itertools.chain(
-      zip(replacement_graph.inputs, pattern_graph.inputs),
-      zip(replacement_graph.outputs, pattern_graph.outputs),
-  ):
-    intermediate_variable_map[u] = v
+  intermediate_variable_map = dict(
+      zip(replacement_graph.inputs, pattern_graph.inputs))
+  replacement_outputs = set(
+      v for e in replacement_graph.operations for v in e.outputs)
+  copies = []
+  for u, v in zip(replacement_graph.outputs, pattern_graph.outputs):
+    if u in replacement_outputs and u not in intermediate_variable_map:
+      intermediate_variable_map[u] = v
+    else:
+      # This output is not computed by an equation of its own.
+      copies.append(
+          graph_editor.Operation(_EqnData(jax.lax.copy_p, {}), [u], [v]))
   replacement_operations = [
       e.subs(intermediate_variable_map) for e in replacement_graph.operations
+  ] + [
+      graph_editor.Operation(
+          e.data, [intermediate_variable_map.get(u, u) for u in e.inputs],
+          e.outputs)
+      for e in copies
   ]
+  subject_graph = _jaxpr_to_graph(subject)
+  # Each occurrence of the pattern needs its own copy of the variables that are
+  # internal to the replacement.
+  next_count = itertools.count(1 + max(
+      [max_count] +
+      [v[1] for v in itertools.chain(subject_graph.intermediate_variables(),
+                                     subject_graph.data) if v[0]]))
+  rename = lambda v: (True, next(next_count), v[2])
   hypergraph = graph_editor.replace(
       pattern_graph.operations,
       replacement_operations,
-      _jaxpr_to_graph(subject),
+      subject_graph,
       _can_bind,
+      rename,
   )
   return _graph_to_jaxpr(hypergraph)
 
-- 
2.43.0


From a9cab7badf7f69747ec2788e955a29f80b4b130e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:11 +0000
Subject: [PATCH 17/27] fix: jitted functions with different constants treated
 as equivalent

Resolves a TODO: the constants of ClosedJaxprs were not compared when matching
a pattern Jaxpr.
---
 autobound/jax/jaxpr_editor.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/autobound/jax/jaxpr_editor.py b/autobound/jax/jaxpr_editor.py
index e681d50..1d45a6e 100644
--- a/autobound/jax/jaxpr_editor.py
+++ b/autobound/jax/jaxpr_editor.py
@@ -258,8 +258,9 @@ def _jaxpr_eqn_params_equiv(p0, p1) -> bool:
       continue
     v1 = p1[k0]
     if isinstance(v0, jex.core.ClosedJaxpr):
-      # TODO(mstreeter): this could incorrectly return True if v0.consts and
-      # v1.consts are different.
+      if not isinstance(v1, jex.core.ClosedJaxpr) or not _equiv_consts(
+          v0.consts, v1.consts):
+        return False
       if not _same_jaxpr_up_to_variable_renaming(v0.jaxpr, v1.jaxpr,
                                                  ignore_shape=True):
         return False
@@ -274,6 +275,11 @@ def _jaxpr_eqn_params_equiv(p0, p1) -> bool:
   return True
 
 
+def _equiv_consts(c0, c1) -> bool:
+  return len(c0) == len(c1) and all(
+      u is v or np.array_equal(u, v) for u, v in zip(c0, c1))
+
+
 def _match_avals(a0, a1, ignore_shape):
   return a0.dtype == a1.dtype and (ignore_shape or (a0.shape == a1.shape))
 
-- 
2.43.0


From f0e5ad744223f5239dd8390897e798c9c4599c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:32 +0000
Subject: [PATCH 18/27] fix: graph_editor.replace defines internal variables
 more than once

Variables internal to the replacement were repeated for each occurrence of the
pattern, and could coincide with variables of the subject.
---
 autobound/graph_editor.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/autobound/graph_editor.py b/autobound/graph_editor.py
index 3bc10ec..9e6c639 100644
--- a/autobound/graph_editor.py
+++ b/autobound/graph_editor.py
@@ -110,7 +110,8 @@ def replace(
     replacement: Sequence[Operation],
     subject: ComputationGraph,
     can_bind: Callable[[IntermediateVariable, IntermediateVariable], bool],
-    rename: Callable[[IntermediateVariable], IntermediateVariable] = lambda v: v
+    rename: Optional[
+        Callable[[IntermediateVariable], IntermediateVariable]] = None
 ) -> ComputationGraph:
   """Perform a search/replace on a ComputationGraph.
 
@@ -126,8 +127,10 @@ def replace(
     subject: a `ComputationGraph`
     can_bind: a `Callable` with the same meaning as the corresponding argument
       to `match()`.
-    rename: a `Callable` that is applied, once per occurrence of the pattern, to
-      each variable that is defined by `replacement` but is not in `pattern`.
+    rename: an optional `Callable` that, given a variable that is defined by
+      `replacement` but is not in `pattern`, returns a variable that is not yet
+      in use.  It is called once per occurrence of the pattern.  By default, a
+      variable keeps its name unless that name is in use.
 
   Returns:
     a `ComputationGraph` with occurrences of `pattern` replaced by
@@ -139,6 +142,15 @@ def replace(
   if k == 0:
     raise ValueError('pattern is empty')
   output_operations = []
+  used_names = subject.intermediate_variables()
+  def default_rename(v):
+    name = v
+    for n in itertools.count(1):
+      if name not in used_names:
+        used_names.add(name)
+        return name
+      name = (v, n)
+  rename = rename or default_rename
   i = 0
   while i < len(subject.operations):
     subgraph = subject.operations[i:i+k]
-- 
2.43.0


From 704e45831e4533427cfd95bc7d745e3ed07a2b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:23 +0000
Subject: [PATCH 19/27] fix: graph_editor.replace may use a variable before its
 definition

An input of the pattern can be bound to a variable that is defined by an
earlier operation of the same occurrence, in which case a replacement that
reads it before defining it is ill-formed.  Such occurrences are left as is.
---
 autobound/graph_editor.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/autobound/graph_editor.py b/autobound/graph_editor.py
index 9e6c639..6264ce1 100644
--- a/autobound/graph_editor.py
+++ b/autobound/graph_editor.py
@@ -160,12 +160,15 @@ def replace(
         if v not in m:
           m[v] = rename(v)
       new_operations = [e.subs(m) for e in replacement]
-      removed_variables = (
-          set(v for op in subgraph for v in op.outputs) -
-          set(v for op in new_operations for v in op.outputs))
+      undefined_variables = set(v for op in subgraph for v in op.outputs)
+      used_before_definition = False
+      for op in new_operations:
+        used_before_definition |= not undefined_variables.isdisjoint(op.inputs)
+        undefined_variables.difference_update(op.outputs)
       used_variables = itertools.chain(
           subject.outputs, *(op.inputs for op in subject.operations[i+k:]))
-      if not removed_variables.isdisjoint(used_variables):
+      if (used_before_definition or
+          not undefined_variables.isdisjoint(used_variables)):
         m = None
     if m is not None:
       output_operations.extend(new_operations)
-- 
2.43.0


From 3d3acebb672683ea7d542afa146118a9c6487766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:20 +0000
Subject: [PATCH 20/27] fix: pow_enclosure returned NaN at x0 == 0 when the
 degree exceeds an integer exponent

---
 autobound/primitive_enclosures.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/autobound/primitive_enclosures.py b/autobound/primitive_enclosures.py
index 40e17ce..47063da 100644
--- a/autobound/primitive_enclosures.py
+++ b/autobound/primitive_enclosures.py
@@ -120,7 +120,11 @@ def pow_enclosure(exponent: float,
     # Note: the next line can sometimes generate bogus RuntimeWarnings when
     # using Numpy.  This seems to be a bug in Numpy, as even doing
     # np.array(2.)**-1 generates the same RuntimeWarning.
-    taylor_coefficients_at_x0.append(c * x0**(exponent - i) / math.factorial(i))
+    #
+    # When c == 0 the ith derivative is zero everywhere, even at x0 == 0 where
+    # x0**(exponent - i) is infinite.
+    power_of_x0 = x0**(exponent - i) if c else np_like.ones_like(x0)
+    taylor_coefficients_at_x0.append(c * power_of_x0 / math.factorial(i))
     c *= exponent - i
 
   # Compute sharp enclosures of x**exponent for the case x > 0 (enc_pos below),
-- 
2.43.0


From 914ecdae4a2d7f98becf9ad49fc9f4365b354ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:01 +0000
Subject: [PATCH 21/27] fix: compose_enclosures dropped terms of degree greater
 than max_degree

---
 autobound/enclosure_arithmetic.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/autobound/enclosure_arithmetic.py b/autobound/enclosure_arithmetic.py
index bb875cc..abf5e09 100644
--- a/autobound/enclosure_arithmetic.py
+++ b/autobound/enclosure_arithmetic.py
@@ -251,15 +251,19 @@ class TaylorEnclosureArithmetic:
         term = (coefficient,)
       else:
         poly = self.power(arg_diff_enclosure, p)
+        truncated = p > self.max_degree and len(arg_diff_enclosure) > 1
+        num_zeros = self.max_degree if truncated else p
         term = tuple(
-            # The special-casing when i < p ensures that the TaylorEnclosure
+            # The special-casing when i < num_zeros ensures that the TaylorEnclosure
             # returned by this function will not contain trivial intervals
-            # the form (x, x).
+            # the form (x, x).  (If p > max_degree, the last coefficient of
+            # 'poly' is not zero in general, because of truncation.)
             #
             # The issue is that the first p elements of 'poly' are guaranteed
             # to be 0, but the expression below can express this as the interval
             # (0, 0).
-            0 if i < p else interval_left_broadcasting_multiply(coefficient, t)
+            0 if i < num_zeros
+            else interval_left_broadcasting_multiply(coefficient, t)
             for i, t in enumerate(poly)
         )
       output = self.add(output, term)
-- 
2.43.0


From ffb89cf901221dfd475bfdb193feeb1ad9caa7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:31 +0000
Subject: [PATCH 22/27] fix: local extrema of the fourth and fifth derivatives
 of swish were missing

---
 autobound/elementwise_functions.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/autobound/elementwise_functions.py b/autobound/elementwise_functions.py
index cde76c6..f3408cf 100644
--- a/autobound/elementwise_functions.py
+++ b/autobound/elementwise_functions.py
@@ -355,8 +355,10 @@ _FUNCTION_DATA = {
         FunctionData((-4.429235100557346, 1.0319582417807385),
                      (-1.0319582417807402, 4.429235100557342)),
     SWISH.derivative_id(4):
-        FunctionData((0.,), (-1.8197756117249821, 1.8197756117249804)),
+        FunctionData((-5.400818739495216, 0., 5.400818739495216),
+                     (-1.8197756117249821, 1.8197756117249804)),
     SWISH.derivative_id(5):
-        FunctionData((-0.7177419231466055, 2.5062894864026024),
-                     (-2.506289486402605, 0.7177419231466035)),
+        FunctionData(
+            (-6.36199228368169, -0.7177419231466055, 2.5062894864026024),
+            (-2.506289486402605, 0.7177419231466035, 6.36199228368169)),
 }
-- 
2.43.0


From b15b5383d1ca65dab016804e91423a530d65b4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:46 +0000
Subject: [PATCH 23/27] fix: taylor_bounds accepts trust regions whose shape is
 not that of x0

---
 autobound/jax/jax_bound.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/autobound/jax/jax_bound.py b/autobound/jax/jax_bound.py
index 1107d4e..29ab78d 100644
--- a/autobound/jax/jax_bound.py
+++ b/autobound/jax/jax_bound.py
@@ -91,8 +91,12 @@ def taylor_bounds(
   def bound_fun(
       x0: jnp.ndarray, x_trust_region: types.Interval
   ) -> TaylorBounds:
+    if len(x_trust_region) != 2:
+      raise ValueError(x_trust_region)
     # Operations such as division are not defined for integer end points.
-    x_trust_region = tuple(jnp.multiply(t, 1.) for t in x_trust_region)
+    x_trust_region = tuple(
+        jnp.broadcast_to(jnp.multiply(t, 1.), jnp.shape(x0))
+        for t in x_trust_region)
     trust_region = interval_arithmetic.IntervalArithmetic(jnp).subtract(
         x_trust_region, x0)
 
-- 
2.43.0


From b0ad13a931f8facb632a0c5d2de8736f0bf16b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:19 +0000
Subject: [PATCH 24/27] fix: enclosure arithmetic accepts negative degrees

---
 autobound/enclosure_arithmetic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/autobound/enclosure_arithmetic.py b/autobound/enclosure_arithmetic.py
index abf5e09..a632d25 100644
--- a/autobound/enclosure_arithmetic.py
+++ b/autobound/enclosure_arithmetic.py
@@ -68,7 +68,7 @@ class TaylorEnclosureArithmetic:
     """
     if np_like.shape(trust_region[0]) != np_like.shape(trust_region[1]):
       raise ValueError(trust_region)
-    if not isinstance(max_degree, int):
+    if not isinstance(max_degree, int) or max_degree < 0:
       raise ValueError(max_degree)
 
     self.max_degree = max_degree
@@ -392,6 +392,8 @@ def enclose_enclosure(
     np_like: NumpyLike,
 ) -> TaylorEnclosure:
   """Returns a (possibly) lower-degree enclosure of a given TaylorEnclosure."""
+  if max_degree < 0:
+    raise ValueError(max_degree)
   set_arithmetic = interval_arithmetic.IntervalArithmetic(np_like)
   trust_region = set_arithmetic.as_interval(trust_region)
   enclosure = as_taylor_enclosure(enclosure, np_like)
-- 
2.43.0


From c6421a47a61c45fd5b0504353c1ba89113c4e8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:21 +0000
Subject: [PATCH 25/27] fix: dot_general with a Python scalar as its first
 operand raised AttributeError

---
 autobound/jax/jax_bound.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/autobound/jax/jax_bound.py b/autobound/jax/jax_bound.py
index 29ab78d..6218468 100644
--- a/autobound/jax/jax_bound.py
+++ b/autobound/jax/jax_bound.py
@@ -454,7 +454,7 @@ def _dot_general_pushforward_fun(arithmetic):
         a: jnp.ndarray, b: jnp.ndarray, p: int, q: int
     ) -> jnp.ndarray:
       transposed_output = jax.lax.dot_general_p.bind(a, b, **params)
-      p_start = a.ndim - p - len(a_contracting_dims)
+      p_start = jnp.ndim(a) - p - len(a_contracting_dims)
       assert p_start >= 0
       n = transposed_output.ndim
       # Shift axes p_start through p_start+p to the right, so that they start
-- 
2.43.0


From f711f3211415fab307f343fa901173ba1c388163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:48 +0000
Subject: [PATCH 26/27] fix: activation functions were recognized only in the
 default precision

---
 autobound/jax/jax_bound.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/autobound/jax/jax_bound.py b/autobound/jax/jax_bound.py
index 6218468..2969aa8 100644
--- a/autobound/jax/jax_bound.py
+++ b/autobound/jax/jax_bound.py
@@ -251,13 +251,13 @@ def register_elementwise_primitive(
 
 
 _PRIMITIVE_NAMES = set()  # type: set[str]
-# Rewrite rules are callables that return (pattern Jaxpr, replacement Jaxpr)
-# pairs.  We make them callables because the Jaxpr returned by jax.make_jaxpr
-# depends on how Jax is configured (in particular whether float64 is enabled),
-# and we need to use the Jaxprs that match whatever configuration is being
-# used when the rule is applied.
+# Rewrite rules are callables that, given a dtype, return a (pattern Jaxpr,
+# replacement Jaxpr) pair.  We make them callables because the Jaxpr returned by
+# jax.make_jaxpr depends on the dtype of the argument, and on how Jax is
+# configured (in particular whether float64 is enabled), and we need to use the
+# Jaxprs that match the Jaxpr to which the rule is applied.
 _JAXPR_REWRITE_RULES = [
-]  # type: list[Callable[[], tuple[jex.core.Jaxpr, jex.core.Jaxpr]]]
+]  # type: list[Callable[..., tuple[jex.core.Jaxpr, jex.core.Jaxpr]]]
 
 
 def _register_elementwise_function(
@@ -275,7 +275,9 @@ def _register_elementwise_function(
   # The primitive may be applied to constants, which are not enclosed.
   p.def_impl(f)
   mlir.register_lowering(p, mlir.lower_fun(f, multiple_results=False))
-  rule = lambda: (jax.make_jaxpr(f)(0.).jaxpr, jax.make_jaxpr(p.bind)(0.).jaxpr)
+  def rule(dtype):
+    x = jnp.zeros((), dtype)
+    return jax.make_jaxpr(f)(x).jaxpr, jax.make_jaxpr(p.bind)(x).jaxpr
   _JAXPR_REWRITE_RULES.append(rule)
   register_elementwise_primitive(p, get_enclosure)
 
@@ -339,9 +341,14 @@ _PASS_THRU_PRIMITIVES = frozenset([
 
 def _rewrite_jaxpr(jaxpr: jex.core.Jaxpr) -> jex.core.Jaxpr:
   """Rewrite a Jaxpr to make is suitable for use by taylor_bounds()."""
+  dtypes = set(getattr(v.aval, 'dtype', None)
+               for eqn in jaxpr.eqns for v in eqn.invars)
+  dtypes = [t for t in (jnp.float16, jnp.bfloat16, jnp.float32, jnp.float64)
+            if jnp.dtype(t) in dtypes]
   for rule_generator in _JAXPR_REWRITE_RULES:
-    pattern, replacement = rule_generator()
-    jaxpr = jaxpr_editor.replace(pattern, replacement, jaxpr)
+    for dtype in dtypes:
+      pattern, replacement = rule_generator(dtype)
+      jaxpr = jaxpr_editor.replace(pattern, replacement, jaxpr)
   return _inline_jitted_calls(jaxpr)
 
 
-- 
2.43.0


From dea241554c02725561401347bda75b153b367b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:36 +0000
Subject: [PATCH 27/27] fix: coefficients of float32 functions had mixed
 precision when float64 is enabled

---
 autobound/jax/jax_bound.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/autobound/jax/jax_bound.py b/autobound/jax/jax_bound.py
index 2969aa8..7037723 100644
--- a/autobound/jax/jax_bound.py
+++ b/autobound/jax/jax_bound.py
@@ -113,9 +113,9 @@ def taylor_bounds(
 
     x0 = jnp.asarray(x0)
     if x0.ndim == 0:
-      identity = jnp.asarray(1.)
+      identity = jnp.asarray(1., dtype=jnp.result_type(x0, 1.))
     elif x0.ndim == 1:
-      identity = jnp.eye(x0.shape[0])
+      identity = jnp.eye(x0.shape[0], dtype=jnp.result_type(x0, 1.))
     else:
       raise NotImplementedError(x0.ndim)
     x0_enclosure = types.TaylorEnclosure(
-- 
2.43.0

