From e13c304598553af9e0117de6e5a356e90da580e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:42 +0000
Subject: [PATCH 01/34] fix: change_chart returns the coordinates unchanged
 when both patches agree

The index arithmetic assumed two different patches. Going through the
homogeneous coordinates is also right for equal (possibly batched) patches.
---
 cyjax/projective.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cyjax/projective.py b/cyjax/projective.py
index f14e5fd..18a9dbb 100644
--- a/cyjax/projective.py
+++ b/cyjax/projective.py
@@ -65,8 +65,7 @@ def change_chart(affine: Array, old_patch: int, new_patch: int) -> Array:
          Array like ``affine`` corresponding to the points but expressed
          in terms of affine coordinates of the new patch.
     """
-    z0, z = pop(affine, new_patch - (old_patch < new_patch))
-    return insert_1d(z / z0, 1 / z0, old_patch - (new_patch < old_patch))
+    return hom_to_affine(affine_to_hom(affine, old_patch), new_patch)
 
 
 @jax.jit
-- 
2.43.0


From ea06020576d6066cb06d66fd494d1a23efc247a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:37 +0000
Subject: [PATCH 02/34] fix: evaluate polynomials with complex coefficients
 numerically

The imaginary unit is not a sympy.Number, so evaluation raised an error.
---
 cyjax/polynomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyjax/polynomial.py b/cyjax/polynomial.py
index 01cdba6..dbeec49 100644
--- a/cyjax/polynomial.py
+++ b/cyjax/polynomial.py
@@ -193,7 +193,7 @@ def _eval_sympy_poly(p, var_names, index_reorder, par_index):
             index = par_index[p]
             return lambda var, par: par[index]
 
-    elif issubclass(p.func, sympy.Number):
+    elif issubclass(p.func, (sympy.Number, sympy.core.numbers.ImaginaryUnit)):
         num = _sympy_eval_num(p)
         return lambda var, par: num
 
-- 
2.43.0


From 0d929446e27d5c5fdb601d4acd085faf882a4407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:37 +0000
Subject: [PATCH 03/34] fix: detect vector variables when no variable names are
 given

Each component was registered as a new variable of the same name. Also make
the order of automatically detected variables predictable.
---
 cyjax/polynomial.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cyjax/polynomial.py b/cyjax/polynomial.py
index dbeec49..4885208 100644
--- a/cyjax/polynomial.py
+++ b/cyjax/polynomial.py
@@ -552,7 +552,8 @@ class Poly:
             poly_expr = poly.expr
             if not have_variables:
                 have_variables = True
-                variable_names = list({split_subscript(g)[0] for g in poly.gens})
+                variable_names = list(dict.fromkeys(
+                    split_subscript(g)[0] for g in poly.gens))
             if parameters is None and hasattr(poly.domain, 'symbols'):
                 have_parameters = True
                 parameters = parameters or poly.domain.symbols
@@ -574,7 +575,8 @@ class Poly:
         # index of variable name in list of variables
         var_name_index = {n: i for i, n in enumerate(variable_names)}
 
-        for v in poly_expr.free_symbols:
+        # sort, since the order of free_symbols is unpredictable
+        for v in sorted(poly_expr.free_symbols, key=str):
             assert isinstance(v, sympy.Symbol), \
                 f'Encountered free symbol {v} that is not of type Symbol.'
             if v in parameters:
@@ -600,6 +602,7 @@ class Poly:
                         f'but does not appear in list of variable names.')
                 else:
                     # found a new variable
+                    var_name_index[name] = len(variable_names)
                     variable_names.append(name)
                     variable_indices.append(None if index is None else [index])
                     var_appeared.append(True)
-- 
2.43.0


From fe4e4fb2e7359ce7ba5f7c293f60748308b9e593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:37 +0000
Subject: [PATCH 04/34] fix: keep all numeric factors and parameter powers when
 extracting coefficients

Only the last numeric factor of a coefficient was kept, e.g. 2*I*a gave 1j,
and a squared parameter raised an error.
---
 cyjax/polynomial.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cyjax/polynomial.py b/cyjax/polynomial.py
index 4885208..bcc3666 100644
--- a/cyjax/polynomial.py
+++ b/cyjax/polynomial.py
@@ -175,7 +175,7 @@ def _sympy_eval_num(val):
     elif val.func == sympy.core.numbers.ImaginaryUnit:
         return 1j
     else:
-        return float(val)
+        return float(val) if val.is_real else complex(val)
 
 
 def _eval_sympy_poly(p, var_names, index_reorder, par_index):
@@ -800,9 +800,12 @@ class Poly:
                         f'Encountered parameter {p} which ' \
                         f'is not in list of parameters.'
                     coeffs_params[-1].append(p)
+                elif p.func == sympy.Pow and not p.is_number:
+                    for _ in range(int(p.exp)):
+                        _add_coeff(p.base)
                 else:
-                    # assume only one numeric value in coeff.args
-                    coeffs[-1] = _sympy_eval_num(p)
+                    # there may be several factors, e.g. 2 and I in 2*I*a
+                    coeffs[-1] = coeffs[-1] * _sympy_eval_num(p)
 
             if coeff.func == sympy.Mul:
                 for c in coeff.args:
-- 
2.43.0


From d186d92062a7a60deeb985cc464d0ea8a6a08d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:37 +0000
Subject: [PATCH 05/34] fix: interpret affine patches by position for shifted
 variable indices

As documented, the patch is an index into the input variable. It was used as
the subscript instead, which is wrong if subscripts do not start at zero.
---
 cyjax/polynomial.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cyjax/polynomial.py b/cyjax/polynomial.py
index bcc3666..a2909e1 100644
--- a/cyjax/polynomial.py
+++ b/cyjax/polynomial.py
@@ -1136,11 +1136,13 @@ class HomPoly(Poly):
         patch_index = self.unique_patch_index(patch)
         p = self._affine_poly[patch_index]
         if p is None:
-            subs = {merge_subscript(name, p): 1
-                    for name, p in zip(self.variable_names, patch)}
+            # symbolic indices of the coordinates scaled to 1
+            fixed = [ind[p] for ind, p in zip(self.variable_indices, patch)]
+            subs = {merge_subscript(name, i): 1
+                    for name, i in zip(self.variable_names, fixed)}
             sympy_poly = self.sympy_poly.subs(subs)
-            indices = [[i for i in ind if i != p]
-                       for ind, p in zip(self.variable_indices, patch)]
+            indices = [[i for i in ind if i != f]
+                       for ind, f in zip(self.variable_indices, fixed)]
             p = Poly(sympy_poly, self.variable_names, self.parameters, indices)
             self._affine_poly[patch_index] = p
             return p
-- 
2.43.0


From bc9b7b9cf8b06d3839d6ef47bada3f30f7cf893b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:37 +0000
Subject: [PATCH 06/34] fix: pass arguments of best_dependent in the right
 order

---
 cyjax/variety.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyjax/variety.py b/cyjax/variety.py
index 2dca0f2..dd4e798 100644
--- a/cyjax/variety.py
+++ b/cyjax/variety.py
@@ -147,7 +147,7 @@ class VarietySingle:
         and thus avoid large values.
         """
         dependent = jnp.argmax(
-            jnp.abs(self.grad_defining(zs, patch, params)), axis=1)
+            jnp.abs(self.grad_defining(zs, params, patch)), axis=-1)
         return dependent
 
     @auto_vmap(zs=1, params=1, patch=0, dependent=0)
-- 
2.43.0


From af7f8fadcec851b0916f4b3720488598d1bd03a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:37 +0000
Subject: [PATCH 07/34] fix: allow solving the defining equation for
 homogeneous coordinates

solve_defining raised an error for the default patch=None.
---
 cyjax/variety.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cyjax/variety.py b/cyjax/variety.py
index dd4e798..96a8f82 100644
--- a/cyjax/variety.py
+++ b/cyjax/variety.py
@@ -302,7 +302,8 @@ class VarietySingle:
         else:
             defining_poly = self.defining_poly.affine_poly(patch)
 
-        dep_hom = index_affine_to_hom(patch, dependent)
+        dep_hom = dependent if patch is None \
+            else index_affine_to_hom(patch, dependent)
         dep = self.defining_poly.all_symbols(True, False)[0][dep_hom]
         # get coefficient polynomials
         coeffs = univariate_coefficients(defining_poly, dep)
-- 
2.43.0


From b5242fa426db486860ad63c1e5e77b02e6c537b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:37 +0000
Subject: [PATCH 08/34] fix: include the integrand in Monte Carlo integrals

Only the weights were averaged, so any integrand gave the volume. In the batched
version, also average the variance per component and do not reuse the key that
is split for the next batch.
---
 cyjax/util.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cyjax/util.py b/cyjax/util.py
index 3f2bb5b..815c85b 100644
--- a/cyjax/util.py
+++ b/cyjax/util.py
@@ -196,7 +196,7 @@ def mc_integrate(
     zs, w = sample(key, count)
 
     vals = fn(zs) * w
-    val = jnp.mean(w, axis=0)
+    val = jnp.mean(vals, axis=0)
     if var:
         var = (jnp.mean(vals ** 2, axis=0) - val ** 2) / count
         return val, var
@@ -227,10 +227,10 @@ def mc_integrate_batched(key, batches, batch_size, fn, sample, var):
     def step(key, _):
         k1, k2 = jax.random.split(key)
 
-        zs, w = sample(key, batch_size)
+        zs, w = sample(k1, batch_size)
 
         vals = fn(zs) * w
-        val = jnp.mean(w, axis=0)
+        val = jnp.mean(vals, axis=0)
         val2 = None
         if var:
             val2 = jnp.mean(vals ** 2, axis=0) / batch_size
@@ -240,7 +240,7 @@ def mc_integrate_batched(key, batches, batch_size, fn, sample, var):
     res, val2 = jax.lax.scan(step, key, None, batches)[1]
     mean = jnp.mean(res, axis=0)
     if var:
-        variance = jnp.mean(val2) / batches - mean**2 / (batches * batch_size)
+        variance = jnp.mean(val2, axis=0) / batches - mean**2 / (batches * batch_size)
         return mean, variance
     return mean
 
-- 
2.43.0


From 4e51052ab344bc69d89889ae7979b7b27f6b4d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:37 +0000
Subject: [PATCH 09/34] fix: return the second derivative of psi for diagonal H

---
 cyjax/donaldson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyjax/donaldson.py b/cyjax/donaldson.py
index 69de177..872db83 100644
--- a/cyjax/donaldson.py
+++ b/cyjax/donaldson.py
@@ -452,7 +452,7 @@ class GeometricObjects(ProgEval, transformer=_transform_if_static):
     def psi_hh(h, s_2, s_c):
         r"""@math \partial_{i} \partial_{j} \psi"""
         if h.ndim == 1:
-            jnp.einsum('iab,i,i->ab', s_2, h, s_c)
+            return jnp.einsum('iab,i,i->ab', s_2, h, s_c)
         return jnp.einsum('iab,ij,j->ab', s_2, h, s_c)
 
     @staticmethod
-- 
2.43.0


From a5f08d088ee0b9ce557605a5dc20d787fc2299c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:37 +0000
Subject: [PATCH 10/34] fix: sample the requested number of points for any
 polynomial degree

The number of lines assumed that the degree equals the number of homogeneous
coordinates, giving too few points for lower degrees.
---
 cyjax/variety.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cyjax/variety.py b/cyjax/variety.py
index 96a8f82..c0675d4 100644
--- a/cyjax/variety.py
+++ b/cyjax/variety.py
@@ -252,9 +252,11 @@ class VarietySingle:
         poly = self.defining_poly(z, np.array(self.parameters))
         poly = Poly.from_sympy(poly, [t, ps, qs], self.parameters)
 
-        sample_count = np.ceil(count / self.dim_complex).astype(int)
-        ps, qs = complex_sphere(key, (2, sample_count, self.dim_complex))
         coefficients = univariate_coefficients(poly, t)
+        # each line intersects the variety in as many points as its degree
+        degree = len(coefficients) - 1
+        sample_count = np.ceil(count / degree).astype(int)
+        ps, qs = complex_sphere(key, (2, sample_count, self.dim_complex))
         zs_hom = _solve_intersect(ps, qs, params, coefficients)
         zs_hom = zs_hom.reshape(-1, self.dim_complex)[:count]
 
-- 
2.43.0


From d2c74306e8d79dbafe97132f66e70a60a6102f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:37 +0000
Subject: [PATCH 11/34] fix: account for the volume argument in the combined
 sample weights

---
 cyjax/variety.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyjax/variety.py b/cyjax/variety.py
index c0675d4..9f0bf10 100644
--- a/cyjax/variety.py
+++ b/cyjax/variety.py
@@ -228,7 +228,7 @@ class VarietySingle:
             dvol *= vol
         if separate:
             return dvol, det
-        return 1 / (det * jnp.abs(grad_dep) ** 2)
+        return dvol / det
 
     def sample_intersect(self, key: chex.PRNGKey, params, count: int, affine=False, weights=False):
         """Sample points on the variety using the intersection method.
-- 
2.43.0


From 67c1c9ea09ae64b00f177e36a55b902807dfe1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:37 +0000
Subject: [PATCH 12/34] fix: draw the overlap radius independently of the other
 coordinates

The radius of the coordinate of the other patch was drawn from the variate of
coordinate 0, so the distribution was not invariant under a change of chart.
---
 cyjax/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyjax/random.py b/cyjax/random.py
index 4186ee0..77fcc92 100644
--- a/cyjax/random.py
+++ b/cyjax/random.py
@@ -198,7 +198,7 @@ def projective_overlap(
     # symmetric sampling, 1 / patch_size < rad_0 < patch_size
     log_rad_min = jnp.log(1 / patch_size)
     rad_0 = jnp.exp(
-        log_rad_min + (jnp.log(patch_size) - log_rad_min) * rand_r[:, 0])
+        log_rad_min + (jnp.log(patch_size) - log_rad_min) * rand_r[:, other])
 
     # remaining radii < min(patch_size, rad_max * patch_size)
     rad_max = jnp.minimum(patch_size * rad_0, patch_size)
-- 
2.43.0


From c1d01c293391930f54716ee628753bed625c6710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:37 +0000
Subject: [PATCH 13/34] fix: keep all variables of polynomials built from
 coefficients and powers

Variables that do not appear in any term were dropped from the symbolic
polynomial and constant polynomials raised an error. The order of automatically
extracted parameters is now predictable.
---
 cyjax/polynomial.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cyjax/polynomial.py b/cyjax/polynomial.py
index a2909e1..7d3f8d7 100644
--- a/cyjax/polynomial.py
+++ b/cyjax/polynomial.py
@@ -747,7 +747,8 @@ class Poly:
         if variable_indices is None:
             variable_indices = [range(len(pws[0])) for pws in powers]
         if parameters is None:
-            parameters = list(reduce(set.union, map(set, coeffs_params)))
+            parameters = sorted(
+                reduce(set.union, map(set, coeffs_params)), key=str)
         else:
             parameters = [sympy.Symbol(p) if isinstance(p, str) else p
                           for p in parameters]
@@ -763,7 +764,8 @@ class Poly:
         sympy_poly = np.sum(compute_monomials(
             poly.all_symbols(True, False), coeffs, powers, symbolic=True))
 
-        poly._sympy_poly = sympy.Poly(sympy_poly, domain=poly.domain)
+        poly._sympy_poly = sympy.Poly(
+            sympy_poly, *poly.all_symbols(False, False), domain=poly.domain)
         return cls.from_poly(poly)
 
     def to_coeffs_and_powers(self) \
-- 
2.43.0


From 51f24f1516345d3adfd2ffcb40ffea0484f917f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:37 +0000
Subject: [PATCH 14/34] fix: do not modify the first factor in prod

---
 cyjax/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyjax/util.py b/cyjax/util.py
index 815c85b..9a419d8 100644
--- a/cyjax/util.py
+++ b/cyjax/util.py
@@ -33,7 +33,7 @@ def prod(factors: Union[np.ndarray, Array, Generator]) \
         if pr is None:
             pr = factor
         else:
-            pr *= factor
+            pr = pr * factor
     return np.ones(()) if pr is None else pr
 
 
-- 
2.43.0


From af878f49670bcbc81fa69a83dcd10b2044f429c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:35:26 +0000
Subject: [PATCH 15/34] fix: induced metric with explicit conjugate coordinates

Conjugating the parameters failed for varieties without parameters and ignored
complex coefficients of the defining equation.
---
 cyjax/variety.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cyjax/variety.py b/cyjax/variety.py
index 9f0bf10..99af2ef 100644
--- a/cyjax/variety.py
+++ b/cyjax/variety.py
@@ -179,7 +179,9 @@ class VarietySingle:
         if zs_c is None:
             ind_met = induced_metric(metric, grad_def, dependent)
         else:
-            grad_def_c = self.grad_defining(zs_c, jnp.conj(params), patch)
+            # conjugate of the holomorphic gradient, as a function of zs_c
+            grad_def_c = jnp.conj(
+                self.grad_defining(jnp.conj(zs_c), params, patch))
             ind_met = induced_metric(metric, grad_def, dependent, grad_def_c)
 
         return (ind_met, dependent) if return_dep else ind_met
-- 
2.43.0


From 0bd0fee39838d942352ba6807487c7f1f6c707c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:44:33 +0000
Subject: [PATCH 16/34] fix: keep order of remaining values when popping at a
 negative index

---
 cyjax/util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cyjax/util.py b/cyjax/util.py
index 9a419d8..6791f7d 100644
--- a/cyjax/util.py
+++ b/cyjax/util.py
@@ -48,6 +48,8 @@ def pop(arr: Array, index: int) -> tuple[Array, Array]:
         A tuple of the removed value and the remaining array.
     """
     chex.assert_type(index, int)
+    # negative indices count from the end
+    index = jnp.where(index < 0, index + arr.shape[0], index)
     rolled = jnp.roll(arr, -index, axis=0)
     return rolled[0], jnp.roll(rolled[1:], index, axis=0)
 
-- 
2.43.0


From d4efc6293a4f3721aa81fecb5a43f63ae300605b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:08:50 +0000
Subject: [PATCH 17/34] fix: substitute all variables at once in symbolic
 polynomial evaluation

Replacing one symbol after the other gave wrong results when the new
values contain symbols of the polynomial, for example when swapping
two coordinates.
---
 cyjax/polynomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyjax/polynomial.py b/cyjax/polynomial.py
index 7d3f8d7..9817d04 100644
--- a/cyjax/polynomial.py
+++ b/cyjax/polynomial.py
@@ -990,7 +990,7 @@ class Poly:
             if params is not None:
                 var_list.extend(params)
             subs = {s: v for s, v in zip(self.all_symbols(False), var_list)}
-            return self.sympy_poly.expr.subs(subs)
+            return self.sympy_poly.expr.subs(subs, simultaneous=True)
 
         # Convert sympy to function which can be JIT compiled.
         fn = _eval_sympy_poly(self.sympy_poly.expr,
-- 
2.43.0


From 45bbf78b3f4a4f0af376dfec9890f77383d2d962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:10:27 +0000
Subject: [PATCH 18/34] fix: detect subscripted variables written with an
 underscore

The first occurrence of an automatically detected variable kept its
underscore, and a subscript written in both styles was listed twice,
so that building the polynomial failed.
---
 cyjax/polynomial.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cyjax/polynomial.py b/cyjax/polynomial.py
index 9817d04..abcedcb 100644
--- a/cyjax/polynomial.py
+++ b/cyjax/polynomial.py
@@ -606,6 +606,8 @@ class Poly:
                     variable_names.append(name)
                     variable_indices.append(None if index is None else [index])
                     var_appeared.append(True)
+                    if index is not None:
+                        rename[v] = merge_subscript(name, index)
                     continue
 
             if index is None:
@@ -626,7 +628,7 @@ class Poly:
                     f'Variable "{name}" appeared both with and ' \
                     f'without subscript.'
                 variable_indices[var_index] = [index]
-            else:
+            elif index not in variable_indices[var_index]:
                 # Add to collected indices.
                 variable_indices[var_index].append(index)
                 var_appeared[var_index] = True
-- 
2.43.0


From a6fc5d1e803a6440fc38e11f340679d625a58c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:35:51 +0000
Subject: [PATCH 19/34] fix: compiled affine evaluation of polynomials constant
 in some patch

The branches for the different patches had different result types if
the affine polynomial is a number in one of them.
---
 cyjax/polynomial.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cyjax/polynomial.py b/cyjax/polynomial.py
index abcedcb..f6e60f6 100644
--- a/cyjax/polynomial.py
+++ b/cyjax/polynomial.py
@@ -1185,7 +1185,14 @@ class HomPoly(Poly):
                 return self.__call__(*args, **kwargs, patch=None)
             else:
                 patch_index = self.unique_patch_index(patch)
-                return jax.lax.switch(patch_index, branches, args, kwargs)
+                # affine polynomials may be constant in some of the patches,
+                # but all branches must give the same type
+                dtype = jnp.result_type(*[
+                    jax.eval_shape(fn, args, kwargs) for fn in branches])
+                typed = [
+                    lambda *a, fn=fn: jnp.asarray(fn(*a), dtype)
+                    for fn in branches]
+                return jax.lax.switch(patch_index, typed, args, kwargs)
 
         eval_poly.__signature__ = sig
         names = [v for v, (s, _) in static.items()
-- 
2.43.0


From 5389718a3b72cb177e35656a5e96b904e054c268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:36:59 +0000
Subject: [PATCH 20/34] fix: accept a fixed tuple of patches in transform_eval

---
 cyjax/polynomial.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cyjax/polynomial.py b/cyjax/polynomial.py
index f6e60f6..0210648 100644
--- a/cyjax/polynomial.py
+++ b/cyjax/polynomial.py
@@ -1194,6 +1194,9 @@ class HomPoly(Poly):
                     for fn in branches]
                 return jax.lax.switch(patch_index, typed, args, kwargs)
 
+        # entries of a fixed tuple of patches must be arrays for auto_vmap
+        partial_kwargs = jax.tree_util.tree_map(jnp.asarray, partial_kwargs)
+
         eval_poly.__signature__ = sig
         names = [v for v, (s, _) in static.items()
                  if s and v not in partial_kwargs]
-- 
2.43.0


From 0f6885c6dad8b6c5ced1eeae44cc74838df63996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:42:31 +0000
Subject: [PATCH 21/34] fix: reduced monomial basis with absent variables or no
 parameters

The sympy polynomial inferred its generators from the expression, so
variables that drop out of the defining polynomial were lost from the
power matrix. Passing params=None also failed for polynomials without
parameters.
---
 cyjax/donaldson.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cyjax/donaldson.py b/cyjax/donaldson.py
index 872db83..d995617 100644
--- a/cyjax/donaldson.py
+++ b/cyjax/donaldson.py
@@ -286,9 +286,11 @@ class MonomialBasisReduced(_MonomialBasis):
                 polynomial and is thus in general dependent on moduli values.
         """
         zs = sympy.symarray('z', variety.dim_projective + 1)
-        poly = variety.defining_poly(zs, np.array(params))
+        params = None if params is None else np.array(params)
+        poly = variety.defining_poly(zs, params)
+        # specify generators, as some variables may not occur in poly
         pows_mod = np.array(
-            [t[0] for t in sympy.Poly(poly, domain='CC').terms()])
+            [t[0] for t in sympy.Poly(poly, *zs, domain='CC').terms()])
         power_matrix = reduced_monomial_basis(degree, pows_mod)
         super().__init__(degree, power_matrix)
 
-- 
2.43.0


From 2b280edb3797813a53ab88534e3ab4310fd586ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:19:02 +0000
Subject: [PATCH 22/34] fix: sampling with parameters named like the internal
 line symbols

sample_intersect introduces symbols t, p and q for the random lines.
Parameters of the same name were mixed up with them.
---
 cyjax/variety.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cyjax/variety.py b/cyjax/variety.py
index 99af2ef..29341d6 100644
--- a/cyjax/variety.py
+++ b/cyjax/variety.py
@@ -251,8 +251,10 @@ class VarietySingle:
         qs = sympy.symarray('q', self.dim_complex)
         t = np.array(sympy.Symbol('t'))
         z = ps + t * qs
-        poly = self.defining_poly(z, np.array(self.parameters))
-        poly = Poly.from_sympy(poly, [t, ps, qs], self.parameters)
+        # rename parameters so they cannot clash with the above symbols
+        pars = sympy.symarray('par', self.par_count)
+        poly = self.defining_poly(z, pars)
+        poly = Poly.from_sympy(poly, [t, ps, qs], list(pars))
 
         coefficients = univariate_coefficients(poly, t)
         # each line intersects the variety in as many points as its degree
-- 
2.43.0


From fb4b31ebaaaa2b5c411a56d965c16c16f4c4d886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:29:37 +0000
Subject: [PATCH 23/34] fix: allow real initial matrices in donaldson_step

The accumulator took the dtype of h, so passing e.g. jnp.eye(n) failed
because the accumulated section products are complex.
---
 cyjax/donaldson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyjax/donaldson.py b/cyjax/donaldson.py
index d995617..8419283 100644
--- a/cyjax/donaldson.py
+++ b/cyjax/donaldson.py
@@ -864,7 +864,7 @@ class AlgebraicMetric:
         Returns:
             New value of the H matrix.
         """
-        T = jnp.zeros_like(h)
+        T = jnp.zeros(h.shape, dtype=complex)
         h = (h + h.T.conj()) / 2
         keys = jax.random.split(key, batches)
 
-- 
2.43.0


From 289be91a6cf0749f13847b541411aa9e242af465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:43:02 +0000
Subject: [PATCH 24/34] fix: variance of Monte Carlo estimates of complex
 integrands

The squares of complex terms were averaged instead of their absolute
squares, giving a complex number.
---
 cyjax/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cyjax/util.py b/cyjax/util.py
index 6791f7d..da39599 100644
--- a/cyjax/util.py
+++ b/cyjax/util.py
@@ -200,7 +200,7 @@ def mc_integrate(
     vals = fn(zs) * w
     val = jnp.mean(vals, axis=0)
     if var:
-        var = (jnp.mean(vals ** 2, axis=0) - val ** 2) / count
+        var = (jnp.mean(jnp.abs(vals) ** 2, axis=0) - jnp.abs(val) ** 2) / count
         return val, var
     return val
 
@@ -235,14 +235,14 @@ def mc_integrate_batched(key, batches, batch_size, fn, sample, var):
         val = jnp.mean(vals, axis=0)
         val2 = None
         if var:
-            val2 = jnp.mean(vals ** 2, axis=0) / batch_size
+            val2 = jnp.mean(jnp.abs(vals) ** 2, axis=0) / batch_size
 
         return k2, (val, val2)
 
     res, val2 = jax.lax.scan(step, key, None, batches)[1]
     mean = jnp.mean(res, axis=0)
     if var:
-        variance = jnp.mean(val2, axis=0) / batches - mean**2 / (batches * batch_size)
+        variance = jnp.mean(val2, axis=0) / batches - jnp.abs(mean)**2 / (batches * batch_size)
         return mean, variance
     return mean
 
-- 
2.43.0


From aed9fec9b4e3f42c3a158183ae5ea1e92d180a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:43:44 +0000
Subject: [PATCH 25/34] fix: Monte Carlo integration of array-valued integrands

The weights were broadcast against the last dimension of the integrand
instead of the sample dimension.
---
 cyjax/util.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/cyjax/util.py b/cyjax/util.py
index da39599..16bb9ae 100644
--- a/cyjax/util.py
+++ b/cyjax/util.py
@@ -166,6 +166,15 @@ def unflatten_coord(arr: Union[Array, tuple[Array, ...]], old_shape: Shape) \
             lambda a: a.reshape((*old_shape, *a.shape[1:])), arr)
 
 
+def _weighted(vals: Array, w: Array) -> Array:
+    """Multiply values at sample points with the weights of the points.
+
+    Further dimensions of array-valued integrands follow the sample dimension.
+    """
+    extra = max(jnp.ndim(vals) - jnp.ndim(w), 0)
+    return vals * jnp.reshape(w, jnp.shape(w) + (1,) * extra)
+
+
 def mc_integrate(
         key: PRNGKey, count: int, fn: Callable[[Array], Array],
         sample: Callable[[PRNGKey, int], Array], var: bool = False) \
@@ -197,7 +206,7 @@ def mc_integrate(
     """
     zs, w = sample(key, count)
 
-    vals = fn(zs) * w
+    vals = _weighted(fn(zs), w)
     val = jnp.mean(vals, axis=0)
     if var:
         var = (jnp.mean(jnp.abs(vals) ** 2, axis=0) - jnp.abs(val) ** 2) / count
@@ -231,7 +240,7 @@ def mc_integrate_batched(key, batches, batch_size, fn, sample, var):
 
         zs, w = sample(k1, batch_size)
 
-        vals = fn(zs) * w
+        vals = _weighted(fn(zs), w)
         val = jnp.mean(vals, axis=0)
         val2 = None
         if var:
-- 
2.43.0


From 426f5e41f575bfe10b948a6245599385dd6ed848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:53:04 +0000
Subject: [PATCH 26/34] fix: save the final parameters and all losses after
 training

The file final.params held the parameters of the last logging step, not
those of the trained network that the final evaluation uses.
---
 scripts/train.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scripts/train.py b/scripts/train.py
index 4a55497..3e7fa5c 100644
--- a/scripts/train.py
+++ b/scripts/train.py
@@ -222,6 +222,11 @@ def main(cfg: DictConfig) -> None:
         time_now = time.time()
         step += 1
 
+    # include the steps since the accuracy was last logged
+    np.save('losses', losses)
+    with open(f'final.params', 'wb') as save_file:
+        save_file.write(flax.serialization.to_bytes(params))
+
     if cfg.evaluation.run:
         log.info('Evaluating accuracy after training.')
 
-- 
2.43.0


From b309427133c3e412727e887b4dea2de567a15d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:00:14 +0000
Subject: [PATCH 27/34] fix: print integer-valued coefficients as integers

Newer sympy versions do not consider a Float equal to the integer of the
same value, so every coefficient was printed with a decimal point.
---
 cyjax/polynomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyjax/polynomial.py b/cyjax/polynomial.py
index 0210648..d22be4d 100644
--- a/cyjax/polynomial.py
+++ b/cyjax/polynomial.py
@@ -218,7 +218,7 @@ def _replace_float_ints(expr: sympy.Expr) -> sympy.Expr:
     """Replace all integer-valued floats in Expr with integers."""
     reps = dict()
     e = expr.replace(
-        lambda x: x.is_Float and x == int(x),
+        lambda x: x.is_Float and float(x).is_integer(),
         lambda x: reps.setdefault(int(x), sympy.Dummy()))
     return e.xreplace({v: k for k, v in reps.items()})
 
-- 
2.43.0


From 0bde2d2dc791040ea4749197a8f88604c6ecf04d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 06:12:54 +0000
Subject: [PATCH 28/34] fix: label the outer axes of the accuracy images

The conditions referred to the upper triangle, which is never drawn, so
neither the parameters along x nor those along y were named.
---
 scripts/train.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/scripts/train.py b/scripts/train.py
index 3e7fa5c..0bb9373 100644
--- a/scripts/train.py
+++ b/scripts/train.py
@@ -99,12 +99,12 @@ def plot_accuracies(accuracies, ranges, params, fig=None, vmin=None, vmax=None,
                 cmap=cmap,
                 extent=(-r1 - delta1, r1 + delta1, -r2 - delta2, r2 + delta2),
                 aspect='auto')
-            if j == 0:
-                comp = 'Re' if part1 == 0 else 'Im'
-                plt.ylabel(fr'$\mathrm{{{comp}}}[{sympy.printing.latex(p1)}]$')
-            if i == count - 1:
+            if i == 0:
                 comp = 'Re' if part2 == 0 else 'Im'
-                plt.xlabel(fr'$\mathrm{{{comp}}}[{sympy.printing.latex(p2)}]$')
+                plt.ylabel(fr'$\mathrm{{{comp}}}[{sympy.printing.latex(p2)}]$')
+            if j == count - 1:
+                comp = 'Re' if part1 == 0 else 'Im'
+                plt.xlabel(fr'$\mathrm{{{comp}}}[{sympy.printing.latex(p1)}]$')
 
     plt.tight_layout()
 
-- 
2.43.0


From b5a707dd9bec20612aef20e7153a8878cd8fb4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 06:12:54 +0000
Subject: [PATCH 29/34] fix: center the pixels of accuracy images at the grid
 points

The margin around the outermost grid points was half of a pixel of a
grid with one point too many.
---
 scripts/train.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scripts/train.py b/scripts/train.py
index 0bb9373..38d62e2 100644
--- a/scripts/train.py
+++ b/scripts/train.py
@@ -88,8 +88,9 @@ def plot_accuracies(accuracies, ranges, params, fig=None, vmin=None, vmax=None,
             axes = tuple(a for a in range(count) if a != i and a != j)
 
             marg = marg2d(accuracies, axis=axes)
-            delta1 = (2 * r1) / marg.shape[0] / 2
-            delta2 = (2 * r2) / marg.shape[1] / 2
+            # pixels are centered at the grid points
+            delta1 = (2 * r1) / max(marg.shape[0] - 1, 1) / 2
+            delta2 = (2 * r2) / max(marg.shape[1] - 1, 1) / 2
 
             img = plt.imshow(
                 marg.T,
-- 
2.43.0


From 920bef5004212ebef4125325df19b1b2416f8000 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 06:30:27 +0000
Subject: [PATCH 30/34] fix: draw initial fluctuations uniformly from the
 documented range

The documentation promises values between 1 - fluctuate and 1 + fluctuate,
but normally distributed values were drawn, about a third of them outside.
---
 cyjax/ml.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cyjax/ml.py b/cyjax/ml.py
index 9d1a5b6..63064c5 100644
--- a/cyjax/ml.py
+++ b/cyjax/ml.py
@@ -94,7 +94,8 @@ def hermitian_param_init(key: chex.PRNGKey, basis_size: int,
     par = jnp.zeros((basis_size ** 2,), dtype=dtype)
 
     if fluctuate is not None:
-        diag = 1 + jax.random.normal(key, (basis_size,)) * fluctuate
+        diag = 1 + jax.random.uniform(
+            key, (basis_size,), minval=-1, maxval=1) * fluctuate
     else:
         diag = 1
 
-- 
2.43.0


From 332d9876bb11551701c8dcfc680e763fc11dc0cf Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 06:35:55 +0000
Subject: [PATCH 31/34] fix: let given names take precedence when parsing
 polynomials

Strings are parsed by sympy, which knows names such as E, S, N or beta.
A parameter E was silently replaced by Euler's number, others raised errors.
---
 cyjax/polynomial.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cyjax/polynomial.py b/cyjax/polynomial.py
index d22be4d..955c276 100644
--- a/cyjax/polynomial.py
+++ b/cyjax/polynomial.py
@@ -560,7 +560,10 @@ class Poly:
         elif isinstance(poly, sympy.Expr):
             poly_expr = poly
         else:
-            poly_expr = sympy.parse_expr(poly)
+            # given names take precedence over those defined by sympy (e.g. E)
+            names = {n: sympy.Symbol(n) for n in variable_names or ()}
+            names.update({str(p): p for p in parameters or ()})
+            poly_expr = sympy.parse_expr(poly, local_dict=names)
 
         # if parameters not known, will append them to a new list
         # -> replace None with empty list
-- 
2.43.0


From bd5866c3681be55d421de35b5ccbf0c856d90748 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 06:35:55 +0000
Subject: [PATCH 32/34] fix: treat z_1 like z1 in arithmetic, derivatives and
 coefficients

Products and sums with a symbol z_1, derivatives and coefficients by z_1
regarded it as different from the variable z1 of the polynomial.
---
 cyjax/polynomial.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/cyjax/polynomial.py b/cyjax/polynomial.py
index 955c276..14477c4 100644
--- a/cyjax/polynomial.py
+++ b/cyjax/polynomial.py
@@ -99,6 +99,12 @@ def merge_subscript(name: str, sub: int):
     return sympy.Symbol(f'{name}{sub}')
 
 
+def _variable_symbol(var: Union[sympy.Symbol, str]) -> sympy.Symbol:
+    """Symbol of a variable in the internal style (z1 also if given as z_1)."""
+    name, sub = split_subscript(var)
+    return sympy.Symbol(name) if sub is None else merge_subscript(name, sub)
+
+
 def _union_indices(left: Sequence[int], right: Sequence[int]) -> Sequence[int]:
     ind = []
     added = set()
@@ -865,7 +871,7 @@ class Poly:
                     var_indices[var_index] = _union_indices(indices, (index,))
                 # This will make 'other' a variable. Else it would be parsed
                 # as a parameter in the sympy.Poly.
-                other = sympy.Poly(other, domain='CC')
+                other = sympy.Poly(_variable_symbol(other), domain='CC')
             except ValueError:  # add to parameters
                 params.append(other)
 
@@ -890,7 +896,7 @@ class Poly:
 
     def diff(self, var: Union[sympy.Symbol, str]) -> sympy.Poly:
         """Differentiate with respect to a variable using sympy."""
-        sympy_poly = self.sympy_poly.diff(var)
+        sympy_poly = self.sympy_poly.diff(_variable_symbol(var))
         poly = Poly(sympy_poly, self.variable_names,
                     self.parameters, self.variable_indices)
         return self.from_poly(poly)
@@ -1047,6 +1053,7 @@ def univariate_coefficients(
         var = var.item()
     assert var not in poly.parameters, \
         'The variable by which to factor must not be a parameter.'
+    var = _variable_symbol(var)
 
     # remove the chosen variable by which we factor
     all_vars = poly.all_symbols(True, False)
-- 
2.43.0


From 89fccf823e5d8d8734cbfcabe7984a28e6e3ea8a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 06:41:20 +0000
Subject: [PATCH 33/34] fix: accept patches given as zero-dimensional arrays in
 affine_poly

Patch indices returned by hom_to_affine or sample_intersect are arrays, and
evaluating an affine polynomial or solving the defining equation in such a
patch raised an error.
---
 cyjax/polynomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyjax/polynomial.py b/cyjax/polynomial.py
index 14477c4..384bee7 100644
--- a/cyjax/polynomial.py
+++ b/cyjax/polynomial.py
@@ -1144,7 +1144,7 @@ class HomPoly(Poly):
         Returns:
             A :class:`Poly` object representing the affine polynomial.
         """
-        if jnp.isscalar(patch):
+        if np.ndim(patch) == 0:
             patch = (patch,)
 
         patch_index = self.unique_patch_index(patch)
-- 
2.43.0


From 30192249e85ce5dd6453f2f3bfcd566aad0bf86b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 06:56:47 +0000
Subject: [PATCH 34/34] fix: draw accuracy plots into the given figure

---
 scripts/train.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scripts/train.py b/scripts/train.py
index 38d62e2..0b37edb 100644
--- a/scripts/train.py
+++ b/scripts/train.py
@@ -45,6 +45,8 @@ def cube_param_sampler(key, batch_size, *, max_abs=1, params_count):
 def plot_accuracies(accuracies, ranges, params, fig=None, vmin=None, vmax=None, marg2d=np.mean, cmap='Spectral_r'):
     if fig is None:
         fig = plt.figure(figsize=(11, 9))
+    else:
+        plt.figure(fig.number)  # draw into the given figure
     if vmin is None:
         vmin = np.min(accuracies)
     if vmax is None:
-- 
2.43.0

