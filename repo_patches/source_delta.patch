From 0763148d99b87c408f0e4c1e907fa050066a6bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:45 +0000
Subject: [PATCH 01/20] fix: ignore_qs accepts current=False, so the
 mean-field-gradient scheme can be fit

---
 gpcm/approx.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gpcm/approx.py b/gpcm/approx.py
index c622902..20cbc14 100644
--- a/gpcm/approx.py
+++ b/gpcm/approx.py
@@ -89,15 +89,15 @@ class Approximation:
         self.model.ps.q_z[self._q_i].lam.assign(B.dense(dist.lam))
         self.model.ps.q_z[self._q_i].prec.assign(B.dense(dist.prec))
 
-    def ignore_qs(self, previous, current):
+    def ignore_qs(self, previous, current=False):
         """Get a list of regexes that ignore variables corresponding to approximate
         posteriors.
 
         Args:
             previous (bool): Ignore all previous approximate posteriors.
-            current (bool or str): Current approximate posteriors to ignore. Set to
-                `True` or `False` to ignore all or none or to `z` or `u` to ignore
-                a specific approximate posterior.
+            current (bool or str, optional): Current approximate posteriors to ignore.
+                Set to `True` or `False` to ignore all or none or to `z` or `u` to
+                ignore a specific approximate posterior. Defaults to `False`.
 
         Returns:
             list[str]: Appropriate list of regexes.
@@ -114,7 +114,7 @@ class Approximation:
             names.append("-" + self.model.ps.q_u[self._q_i].all())
         elif current == "z":
             names.append("-" + self.model.ps.q_z[self._q_i].all())
-        else:
+        elif current is not False:
             raise ValueError(f'Invalid value "{current}" for `current`.')
         return names
 
-- 
2.43.0


From e9361caf3150a7f18479f5fb5f1259215d524ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:45 +0000
Subject: [PATCH 02/20] fix: fit recognises ca-bfgs, so the
 mean-field-ca-gradient scheme can be fit

---
 gpcm/approx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpcm/approx.py b/gpcm/approx.py
index 20cbc14..6579e06 100644
--- a/gpcm/approx.py
+++ b/gpcm/approx.py
@@ -800,7 +800,7 @@ def fit(model, t, y, approximation: MeanField, iters: B.Int = 5000):
 
     if approximation.fit == "ca":
         _fit_mean_field_ca(model(), t, y, iters)
-    elif approximation.fit == "bfgs":
+    elif approximation.fit in {"ca-bfgs", "bfgs"}:
         # Pre-fit a CA solution, if applicable.
         if approximation.fit == "ca-bfgs":
             _fit_mean_field_ca(model(), t, y, iters)
-- 
2.43.0


From f11af51aa2c17ad5aab56f6cf28e37947e1d43f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:45 +0000
Subject: [PATCH 03/20] fix: predict_fourier works for the mean-field schemes

---
 gpcm/approx.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gpcm/approx.py b/gpcm/approx.py
index 6579e06..995caf3 100644
--- a/gpcm/approx.py
+++ b/gpcm/approx.py
@@ -675,9 +675,13 @@ class MeanField(Approximation):
         return B.stack(*[sample_kernel(t_k, u) for u in _columns(us)], axis=0)
 
     @_dispatch
-    def predict_z(self):
+    def predict_z(self, num_samples: B.Int = 1000):
         """Predict Fourier features under the mean-field approximation.
 
+        Args:
+            num_samples (int, optional): Not used: the marginals are available in
+                closed form. Provided to ensure a consistent interface.
+
         Returns:
             tuple[vector, vector]: Marginals of the predictions.
         """
-- 
2.43.0


From a60dd2fe36d68f8ba7f5ba30ba0a604591384739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:32 +0000
Subject: [PATCH 04/20] fix: integrate_box integrates from a finite lower limit
 to infinity

---
 gpcm/exppoly.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gpcm/exppoly.py b/gpcm/exppoly.py
index 1e67949..833ad21 100644
--- a/gpcm/exppoly.py
+++ b/gpcm/exppoly.py
@@ -593,7 +593,11 @@ class ExpPoly:
                     parts_new.append(part.translate_var(name, upper))
                 if not is_inf(lower):
                     lower = _as_poly(lower)  # Ensure that it is a polynomial.
-                    parts_new.append(-part.translate_var(name, lower))
+                    if is_inf(upper):
+                        # Reflect, so the integral again runs from `-inf` to `0`.
+                        parts_new.append(part.substitute(name, lower - var(name)))
+                    else:
+                        parts_new.append(-part.translate_var(name, lower))
             parts = parts_new
 
         # Perform integration.
-- 
2.43.0


From c86fed75dab747771feae6a0e9307562510407d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:32 +0000
Subject: [PATCH 05/20] fix: polynomials discard zero terms and operations on
 them return polynomials

---
 gpcm/exppoly.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/gpcm/exppoly.py b/gpcm/exppoly.py
index 833ad21..a065f00 100644
--- a/gpcm/exppoly.py
+++ b/gpcm/exppoly.py
@@ -316,10 +316,14 @@ class Poly:
 
     @_dispatch
     def __init__(self, *terms: Term):
-        # Merge common terms. Do _not_ store this as a set, even though we would like
-        # to, because in certain AD frameworks the hash of the constant of a term
-        # cannot be computed.
-        self.terms = _merge_common_terms(*terms)
+        # Merge common terms, and discard terms which are equal to zero. Do _not_ store
+        # this as a set, even though we would like to, because in certain AD frameworks
+        # the hash of the constant of a term cannot be computed.
+        self.terms = [
+            term
+            for term in _merge_common_terms(*terms)
+            if not (isinstance(term.const, B.Number) and term.const == 0)
+        ]
 
     @_dispatch
     def is_function_of(self, name: str):
@@ -392,7 +396,7 @@ class Poly:
             int: Highest power of variable `name`. Returns `0` if it does not depend
                 on `name`.
         """
-        return max([term.highest_power(name) for term in self.terms])
+        return max([term.highest_power(name) for term in self.terms], default=0)
 
     @_dispatch
     def substitute(self, name: str, poly: "Poly"):
@@ -405,7 +409,7 @@ class Poly:
         Returns:
             :class:`.exppoly.Poly`: Result of substitution.
         """
-        result = 0
+        result = Poly()
         for term in self.terms:
             result = result + term.substitute(name, poly)
         return result
@@ -465,6 +469,8 @@ class Poly:
         assert modulo is None, 'Keyword "modulo" is not supported.'
         if power < 0:
             raise RuntimeError("Can only raise polynomials to non-negative integers.")
+        if power == 0:
+            return const(1)
         return reduce(operator.mul, [self] * power, 1)
 
 
-- 
2.43.0


From 11de892e3ff1784e1203bd1711c45ec56647627d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:32 +0000
Subject: [PATCH 06/20] fix: RGPCM normalises the inter-domain transform for
 the gamma it uses

---
 gpcm/rgpcm.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gpcm/rgpcm.py b/gpcm/rgpcm.py
index 0bf9b38..ee03851 100644
--- a/gpcm/rgpcm.py
+++ b/gpcm/rgpcm.py
@@ -170,11 +170,13 @@ class RGPCM(AbstractGPCM):
         if gamma is None:
             gamma = 1 / (2 * (self.t_u[1] - self.t_u[0]))
 
+        # Must ensure that `gamma < alpha`.
+        gamma = min(gamma, self.alpha / 1.5)
+
         if gamma_t is None:
             gamma_t = B.sqrt(2 * gamma)
 
-        # Must ensure that `gamma < alpha`.
-        self.gamma = min(gamma, self.alpha / 1.5)
+        self.gamma = gamma
         self.gamma_t = gamma_t
 
     def k_h(self):
-- 
2.43.0


From eaf4b24771b6e022cea4156eecdfd9b4ec08e4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:32 +0000
Subject: [PATCH 07/20] fix: err_68 bounds of summarise_samples contain 68% of
 the samples

---
 gpcm/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpcm/util.py b/gpcm/util.py
index 02384d6..afe001e 100644
--- a/gpcm/util.py
+++ b/gpcm/util.py
@@ -67,8 +67,8 @@ def summarise_samples(x, samples, db=False):
         x=B.to_numpy(x),
         mean=transform(B.mean(samples, axis=0)),
         var=transform(B.std(samples, axis=0)) ** 2,
-        err_68_lower=transform(B.quantile(samples, 0.32, axis=0)),
-        err_68_upper=transform(B.quantile(samples, 1 - 0.32, axis=0)),
+        err_68_lower=transform(B.quantile(samples, 0.16, axis=0)),
+        err_68_upper=transform(B.quantile(samples, 1 - 0.16, axis=0)),
         err_95_lower=transform(B.quantile(samples, 0.025, axis=0)),
         err_95_upper=transform(B.quantile(samples, 1 - 0.025, axis=0)),
         err_99_lower=transform(B.quantile(samples, 0.0015, axis=0)),
-- 
2.43.0


From 8992cc33a0baa3cea5331fe4bc30bab1c3d40462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:32 +0000
Subject: [PATCH 08/20] fix: estimate_psd integrates the power over sorted
 frequencies

---
 gpcm/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gpcm/util.py b/gpcm/util.py
index afe001e..8dc5b2b 100644
--- a/gpcm/util.py
+++ b/gpcm/util.py
@@ -109,7 +109,8 @@ def estimate_psd(t, k, n_zero=2_000, db=False):
     psd = np.abs(np.real(psd))
 
     # Now scale appropriately: the total power should equal `k[0]`.
-    total_power = np.trapz(y=psd, x=freqs)
+    # The integral requires the frequencies to be sorted.
+    total_power = np.trapz(y=np.fft.fftshift(psd), x=np.fft.fftshift(freqs))
     psd /= total_power / k[0]
 
     # Convert to dB.
-- 
2.43.0


From 1e0dda3989ed2033042c26ce0eeb2ccfac8eca18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:06 +0000
Subject: [PATCH 09/20] fix: predict_filter uses the posterior samples of the
 structured scheme

---
 gpcm/approx.py | 3 +++
 gpcm/model.py  | 8 ++++----
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/gpcm/approx.py b/gpcm/approx.py
index 995caf3..c50f359 100644
--- a/gpcm/approx.py
+++ b/gpcm/approx.py
@@ -659,6 +659,9 @@ class MeanField(Approximation):
         # Don't forget to add in the observation noise!
         return m1, m2 - m1**2 + self.model.noise
 
+    def _sample_p_u(self, num_samples):
+        return _columns(self.p_u.sample(num_samples))
+
     @_dispatch
     def sample_kernel(self, t_k, num_samples: B.Int = 1000):
         """Sample kernel under the mean-field approximation.
diff --git a/gpcm/model.py b/gpcm/model.py
index f04a130..e6eec94 100644
--- a/gpcm/model.py
+++ b/gpcm/model.py
@@ -172,8 +172,7 @@ class AbstractGPCM(Model):
             t_h = B.linspace(self.dtype, -self.extent, self.extent, 601)
 
         @B.jit
-        def sample_h(state):
-            state, u = self.approximation.p_u.sample(state)
+        def sample_h(state, u):
             u = B.mm(self.K_u, u)  # Transform :math:`\hat u` into :math:`u`.
             h = GP(self.k_h())
             h = h | (h(self.t_u), u)  # Condition on sample.
@@ -181,10 +180,11 @@ class AbstractGPCM(Model):
             return state, B.flatten(h)
 
         # Perform sampling.
+        us = self.approximation._sample_p_u(num_samples)
         state = B.global_random_state(self.dtype)
         samples = []
-        for _ in range(num_samples):
-            state, h = sample_h(state)
+        for u in us:
+            state, h = sample_h(state, u)
 
             # Transform sample according to specification.
             if min_phase:
-- 
2.43.0


From fdceb61fc29e3f59a63579160bd46d4d94dd599b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:50 +0000
Subject: [PATCH 10/20] fix: mean-field updates account for the current prior
 after conditioning

---
 gpcm/approx.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/gpcm/approx.py b/gpcm/approx.py
index c50f359..1ba5a07 100644
--- a/gpcm/approx.py
+++ b/gpcm/approx.py
@@ -186,7 +186,7 @@ class Approximation:
             ts.A_sum,
             ts.I_uz,
             ts.I_uz_sum,
-            self.model.K_u,
+            NaturalNormal(0, self.model.K_u),
             z,
         )
 
@@ -205,7 +205,7 @@ class Approximation:
             ts.A_sum,
             ts.I_uz,
             ts.I_uz_sum,
-            self.model.K_u,
+            self.p_u,
             q_z.mean,
             q_z.m2,
         )
@@ -225,7 +225,7 @@ class Approximation:
             ts.B_sum,
             B.transpose(ts.I_uz),
             B.transpose(ts.I_uz_sum),
-            self.model.K_z,
+            NaturalNormal(0, self.model.K_z),
             u,
         )
 
@@ -244,12 +244,12 @@ class Approximation:
             ts.B_sum,
             B.transpose(ts.I_uz),
             B.transpose(ts.I_uz_sum),
-            self.model.K_z,
+            self.p_z,
             q_u.mean,
             q_u.m2,
         )
 
-    def _q_optimal(self, A, I, I_sum, K, x, x2=None):
+    def _q_optimal(self, A, I, I_sum, p, x, x2=None):
         if x2 is not None:
             inner = B.mm(I, x2, I, tr_c=True)
         else:
@@ -257,8 +257,8 @@ class Approximation:
             part = B.mm(I, x)
             inner = B.mm(part, part, tr_b=True)
         return NaturalNormal(
-            B.mm(I_sum, x) / self.model.noise,
-            K + (A + B.sum(inner, axis=0)) / self.model.noise,
+            p.lam + B.mm(I_sum, x) / self.model.noise,
+            p.prec + (A + B.sum(inner, axis=0)) / self.model.noise,
         )
 
     def _predict_moments(self, ts, u, u2, z, z2):
-- 
2.43.0


From b66c3da15f8714b80a04389eb61fef28d534bf03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:50 +0000
Subject: [PATCH 11/20] fix: predict with a mean-field scheme works for the
 prior

---
 gpcm/approx.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gpcm/approx.py b/gpcm/approx.py
index 1ba5a07..51356ed 100644
--- a/gpcm/approx.py
+++ b/gpcm/approx.py
@@ -47,7 +47,10 @@ class Approximation:
     def p_u(self):
         """:class:`stheno.Normal`: Current prior for :math:`u`."""
         if self._q_i == 0:
-            return NaturalNormal(0, self.model.K_u)
+            return NaturalNormal(
+                B.zeros(self.model.dtype, self.model.n_u, 1),
+                self.model.K_u,
+            )
         else:
             return _parametrise_natural(
                 self.model.ps.q_u[self._q_i - 1],
@@ -70,7 +73,10 @@ class Approximation:
     def p_z(self):
         """:class:`stheno.Normal`: Current prior for :math:`z`."""
         if self._q_i == 0:
-            return NaturalNormal(0, self.model.K_z)
+            return NaturalNormal(
+                B.zeros(self.model.dtype, self.model.n_z, 1),
+                self.model.K_z,
+            )
         else:
             return _parametrise_natural(
                 self.model.ps.q_z[self._q_i - 1],
-- 
2.43.0


From 71425e2f440c164efba0ada5a68cc46480520c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:15 +0000
Subject: [PATCH 12/20] fix: GPCM can be instantiated with inducing points on
 one side of the origin

---
 gpcm/gpcm.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gpcm/gpcm.py b/gpcm/gpcm.py
index 5d21f03..6c9edcf 100644
--- a/gpcm/gpcm.py
+++ b/gpcm/gpcm.py
@@ -276,11 +276,14 @@ class GPCM(AbstractGPCM):
             self.gamma = self.ps.positive(self.gamma, name="gamma")
         self.omega = self.ps.positive(self.omega, name="omega")
         self.omega_t = self.omega_t  # Do not learn variance of inter-domain transform!
-        # Bound the inducing points so they don't move away too far.
+        # Bound the inducing points so they don't move away too far. The bounds must
+        # strictly contain the inducing points, also if these are all on one side.
+        lower, upper = min(self.t_u), max(self.t_u)
+        margin = 0.5 * max(abs(lower), abs(upper))
         self.t_u = self.ps.bounded(
             self.t_u,
-            lower=min(self.t_u) * 1.5,
-            upper=max(self.t_u) * 1.5,
+            lower=1.5 * lower if lower < 0 else lower - margin,
+            upper=1.5 * upper if upper > 0 else upper + margin,
             name="t_u",
         )
         self.t_z = self.ps.unbounded(self.t_z, name="t_z")
-- 
2.43.0


From 0a076ed30d0e452a9c4feb26f1df53eb189dcfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:56 +0000
Subject: [PATCH 13/20] fix: sum constants of common terms, since partial sums
 can cancel

---
 gpcm/exppoly.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gpcm/exppoly.py b/gpcm/exppoly.py
index a065f00..22715c8 100644
--- a/gpcm/exppoly.py
+++ b/gpcm/exppoly.py
@@ -302,8 +302,10 @@ class Term:
 def _merge_common_terms(*terms):
     merged_terms = []
     for factors in set(frozenset(x.factors) for x in terms):
-        associated_terms = filter(lambda x: x.factors == factors, terms)
-        merged_terms.append(reduce(operator.add, associated_terms, 0))
+        # Sum the constants instead of the terms: a partial sum may be equal to zero, and
+        # a term with a zero constant does not remember its factors.
+        consts = [x.const for x in terms if x.factors == factors]
+        merged_terms.append(Term(reduce(operator.add, consts), *factors))
     return merged_terms
 
 
-- 
2.43.0


From 9ab404b2d57c9ce97d97e10474650cc9f6cff7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:05 +0000
Subject: [PATCH 14/20] fix: use an eigendecomposition in closest_psd

Singular vectors are not eigenvectors if eigenvalues of opposite sign have
equal magnitude.
---
 gpcm/util.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gpcm/util.py b/gpcm/util.py
index 8dc5b2b..3b09416 100644
--- a/gpcm/util.py
+++ b/gpcm/util.py
@@ -2,6 +2,7 @@ from collections import namedtuple
 from varz import Vars, minimise_l_bfgs_b
 
 import jax
+import jax.numpy as jnp
 import lab as B
 import numpy as np
 from plum import Dispatcher
@@ -149,12 +150,13 @@ def closest_psd(a, inv=False):
     """
     a = B.dense(a)
     a = (a + B.transpose(a)) / 2
-    u, s, v = B.svd(a)
-    signs = B.matmul(u, v, tr_a=True)
-    s = B.maximum(B.diag(signs) * s, 0)
+    # Singular vectors are no eigenvectors if there are eigenvalues of opposite sign and
+    # equal magnitude, so use an eigendecomposition.
+    s, u = jnp.linalg.eigh(a)
+    s = B.maximum(s, 0)
     if inv:
         s = B.where(s == 0, 0, 1 / s)
-    return B.mm(u * B.expand_dims(s, axis=-2), v, tr_b=True)
+    return B.mm(u * B.expand_dims(s, axis=-2), u, tr_b=True)
 
 
 def collect(name="Quantities", **kw_args):
-- 
2.43.0


From ae4923a22e9ed0b85203bffc2ad3dfc07a9838fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:49 +0000
Subject: [PATCH 15/20] fix: mean-field schemes can be fit without optimising
 hyperparameters

---
 gpcm/approx.py | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/gpcm/approx.py b/gpcm/approx.py
index 51356ed..e194e15 100644
--- a/gpcm/approx.py
+++ b/gpcm/approx.py
@@ -124,6 +124,19 @@ class Approximation:
             raise ValueError(f'Invalid value "{current}" for `current`.')
         return names
 
+    def match_qs(self, *which):
+        """Get a list of regexes that match only variables corresponding to the current
+        approximate posteriors.
+
+        Args:
+            *which (str): Approximate posteriors to match: `z`, `u`, or both.
+
+        Returns:
+            list[str]: Appropriate list of regexes.
+        """
+        qs = {"u": self.model.ps.q_u, "z": self.model.ps.q_z}
+        return [qs[name][self._q_i].all() for name in which]
+
     def condition(self, t, y):
         """Make the current variational approximation the prior and create a new
         variational posterior for further observations.
@@ -797,7 +810,14 @@ def fit(
 
 
 @fit.dispatch
-def fit(model, t, y, approximation: MeanField, iters: B.Int = 5000):
+def fit(
+    model,
+    t,
+    y,
+    approximation: MeanField,
+    iters: B.Int = 5000,
+    optimise_hypers: bool = True,
+):
     """Fit a mean-field approximation.
 
     Args:
@@ -807,6 +827,8 @@ def fit(model, t, y, approximation: MeanField, iters: B.Int = 5000):
         y (vector): Observations.
         iters (int, optional): Fixed point iterations. Defaults to `5000`.
             Will be divided by `5` to convert to BFGS iterations.
+        optimise_hypers (bool, optional): Optimise the hyperparameters. Coordinate
+            ascent on its own never does. Defaults to `True`.
     """
     # Maintain a random state.
     state = B.create_random_state(model.dtype, seed=0)
@@ -829,7 +851,11 @@ def fit(model, t, y, approximation: MeanField, iters: B.Int = 5000):
             iters=iters // 5,
             trace=True,
             jit=True,
-            names=model().approximation.ignore_qs(previous=True),
+            names=(
+                model().approximation.ignore_qs(previous=True)
+                if optimise_hypers
+                else model().approximation.match_qs("u", "z")
+            ),
         )
 
         # Post-fit a CA solution, if applicable.
@@ -851,7 +877,11 @@ def fit(model, t, y, approximation: MeanField, iters: B.Int = 5000):
             iters=iters // 5,
             trace=True,
             jit=True,
-            names=model().approximation.ignore_qs(previous=True, current="z"),
+            names=(
+                model().approximation.ignore_qs(previous=True, current="z")
+                if optimise_hypers
+                else model().approximation.match_qs("u")
+            ),
         )
 
         # Explicitly update :math:`q(z)`: it was collapsed in the ELBO.
-- 
2.43.0


From 8042a20f242296e438de723f9dc24e240293ad04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:09 +0000
Subject: [PATCH 16/20] fix: the kernel of the filter of the GPCM includes the
 scale of the window

k_h() lacked alpha_t**2, which k_h(t1, t2) and so the inducing variables have.
The uncertainty of predict_filter between inducing points was off by that factor.
---
 gpcm/gpcm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpcm/gpcm.py b/gpcm/gpcm.py
index 6c9edcf..069ea3e 100644
--- a/gpcm/gpcm.py
+++ b/gpcm/gpcm.py
@@ -247,7 +247,7 @@ class GPCM(AbstractGPCM):
         # Convert `self.gamma` to a regular length scale.
         gamma_scale = B.sqrt(1 / (2 * self.gamma))
         k_h = EQ().stretch(gamma_scale)  # Kernel of filter before window
-        k_h *= lambda t: B.exp(-self.alpha * t**2)  # Window
+        k_h *= lambda t: self.alpha_t * B.exp(-self.alpha * t**2)  # Window
         if self.causal:
             k_h *= lambda t: B.cast(self.dtype, t >= 0)  # Causality constraint
         return k_h
-- 
2.43.0


From bb0f4a92427295789e11f3d57fbcdc3261585c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:33 +0000
Subject: [PATCH 17/20] fix: the bounds in the analysis count the observation
 noise once

---
 experiments/experiment.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/experiments/experiment.py b/experiments/experiment.py
index 4859c0d..fc730a8 100644
--- a/experiments/experiment.py
+++ b/experiments/experiment.py
@@ -397,7 +397,8 @@ def analyse_plots(
     for i, model in enumerate(models):
         # Construct model and make predictions.
         mu, var = model.predict(t_plot)
-        std = B.sqrt(var)
+        # The predictive variance includes the observation noise.
+        std = B.sqrt(B.maximum(var - model.noise, 0))
 
         plt.subplot(3, 1, 1 + i)
         plt.title(f"Function ({model.name})")
@@ -415,7 +416,7 @@ def analyse_plots(
         plt.fill_between(
             t_plot, mu - 2 * std, mu + 2 * std, facecolor="tab:green", alpha=0.2
         )
-        error = 2 * B.sqrt(model.ps.noise() + std**2)  # Model and noise error
+        error = 2 * B.sqrt(model.noise + std**2)  # Model and noise error
         plt.plot(t_plot, mu + error, c="tab:green", ls="--")
         plt.plot(t_plot, mu - error, c="tab:green", ls="--")
 
-- 
2.43.0


From e3ce0a4822abb7350f87b6d230892638e0b7886d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:33 +0000
Subject: [PATCH 18/20] fix: plot the EQ experiment at times around its data

---
 experiments/eq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/eq.py b/experiments/eq.py
index d741380..ee1066e 100644
--- a/experiments/eq.py
+++ b/experiments/eq.py
@@ -9,7 +9,7 @@ args, wd = setup("eq")
 n = 881  # Add last one for `linspace`.
 noise = 0.1
 t = B.linspace(-44, 44, n)
-t_plot = B.linspace(44, 44, 500)
+t_plot = B.linspace(-44, 44, 500)
 
 # Setup true model and GPCM models.
 kernel = EQ()
-- 
2.43.0


From 294d5a16967fb5a80348a27dfdd5806c1f492520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:33 +0000
Subject: [PATCH 19/20] fix: inducing points at negative times inform the
 filter of the causal model

---
 gpcm/gpcm.py  | 18 ++++++++++++++++--
 gpcm/model.py | 15 +++++++++++++--
 2 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/gpcm/gpcm.py b/gpcm/gpcm.py
index 069ea3e..36ffbc4 100644
--- a/gpcm/gpcm.py
+++ b/gpcm/gpcm.py
@@ -5,6 +5,7 @@ import numpy as np
 from matrix import Dense
 from mlkernels import EQ
 from plum import Dispatcher
+from stheno import GP
 
 from .exppoly import ExpPoly, const, var
 from .model import AbstractGPCM
@@ -244,14 +245,27 @@ class GPCM(AbstractGPCM):
         Returns:
             :class:`mlkernels.Kernel`: Kernel for :math:`h`.
         """
+        k_h = self._k_h_two_sided()
+        if self.causal:
+            k_h *= lambda t: B.cast(self.dtype, t >= 0)  # Causality constraint
+        return k_h
+
+    def _k_h_two_sided(self):
         # Convert `self.gamma` to a regular length scale.
         gamma_scale = B.sqrt(1 / (2 * self.gamma))
         k_h = EQ().stretch(gamma_scale)  # Kernel of filter before window
         k_h *= lambda t: self.alpha_t * B.exp(-self.alpha * t**2)  # Window
-        if self.causal:
-            k_h *= lambda t: B.cast(self.dtype, t >= 0)  # Causality constraint
         return k_h
 
+    def filter_given_u(self, u):
+        # The inducing variables are values before the causality constraint, also those
+        # at negative times, so condition before applying the constraint.
+        h = GP(self._k_h_two_sided())
+        h = h | (h(self.t_u), u)
+        if self.causal:
+            h *= lambda t: B.cast(self.dtype, t >= 0)  # Causality constraint
+        return h
+
     def k_xs(self, t1, t2):
         """Covariance function between to the white noise :math:`x` and its interdomain
         transform :math:`s`.
diff --git a/gpcm/model.py b/gpcm/model.py
index e6eec94..05930b4 100644
--- a/gpcm/model.py
+++ b/gpcm/model.py
@@ -174,8 +174,7 @@ class AbstractGPCM(Model):
         @B.jit
         def sample_h(state, u):
             u = B.mm(self.K_u, u)  # Transform :math:`\hat u` into :math:`u`.
-            h = GP(self.k_h())
-            h = h | (h(self.t_u), u)  # Condition on sample.
+            h = self.filter_given_u(u)  # Condition on sample.
             state, h = h(t_h).sample(state)  # Sample at desired points.
             return state, B.flatten(h)
 
@@ -198,6 +197,18 @@ class AbstractGPCM(Model):
             t_h = t_h - t_h[0]
         return summarise_samples(t_h, B.stack(*samples, axis=0))
 
+    def filter_given_u(self, u):
+        """Construct the filter :math:`h` given the inducing variables :math:`u`.
+
+        Args:
+            u (vector): Values of the inducing variables.
+
+        Returns:
+            :class:`stheno.GP`: Filter given `u`.
+        """
+        h = GP(self.k_h())
+        return h | (h(self.t_u), u)
+
     @instancemethod
     @cast
     def kernel_approx(self, t1, t2, u):
-- 
2.43.0


From efa6e0f17ac40aca7b5aed25659e08f57213c6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:55 +0000
Subject: [PATCH 20/20] fix: I_ux of the RGPCM far from the origin of time

---
 gpcm/rgpcm.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gpcm/rgpcm.py b/gpcm/rgpcm.py
index ee03851..e7cf39d 100644
--- a/gpcm/rgpcm.py
+++ b/gpcm/rgpcm.py
@@ -323,6 +323,10 @@ def compute_I_ux(model, t1=None, t2=None):
     t_u_1 = model.t_u[None, None, :, None]
     t_u_2 = model.t_u[None, None, None, :]
     ga = model.gamma - model.alpha
+    # Only the difference between `t1` and `t2` matters. Choose the origin such that the
+    # exponential below does not grow: otherwise, it blows up rounding errors.
+    origin = B.where(ga > 0, B.maximum(t1, t2), B.minimum(t1, t2))
+    t1, t2 = t1 - origin, t2 - origin
     result = (
         model.alpha_t**2
         * model.gamma_t**2
-- 
2.43.0

