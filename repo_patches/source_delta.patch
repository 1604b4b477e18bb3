From 253d000abc1f98d1e63e8053b2357abfaf3fbdc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:39 +0000
Subject: [PATCH 01/18] fix: do not exponentiate twice the output of
 log-transformed SDEs systems

---
 sdepy/integration.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/sdepy/integration.py b/sdepy/integration.py
index e3a9f2a..c26958f 100644
--- a/sdepy/integration.py
+++ b/sdepy/integration.py
@@ -1829,8 +1829,6 @@ class SDEs(SDE):
 
     def result(self, tt, XX):
         """See documentation of SDE.result"""
-        if self.log:
-            exp(XX, out=XX)
         xxs = self.unpack(XX)
         return tuple(process(t=tt, x=xx) for xx in xxs)
 
-- 
2.43.0


From 62f2076d28168f4df9a449464801bd316104d825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:39 +0000
Subject: [PATCH 02/18] fix: allow indexing of montecarlo objects without
 histograms

---
 sdepy/infrastructure.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index d722e2e..ed3285d 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -3034,8 +3034,9 @@ class montecarlo:
         if self.paths != 0:
             a._mean = self._mean[i]
             a._moments = tuple(moment[i] for moment in self._moments)
-            a._counts = self._counts[i]
-            a._paths_outside = self._paths_outside[i]
+            if self._bins is not None:
+                a._counts = self._counts[i]
+                a._paths_outside = self._paths_outside[i]
         return a
 
     # user access to statistics
-- 
2.43.0


From 0a18776b6dd08a589d95dd7ad1e6830c0e9fd248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:39 +0000
Subject: [PATCH 03/18] fix: allow null jump sizes in true_cpoisson_source

---
 sdepy/infrastructure.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index ed3285d..ca12c71 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -2640,7 +2640,6 @@ class true_cpoisson_source(true_source):
 
     def _encode_y(self, dn_value, yy):
         nmax = dn_value.max()
-        assert nmax == (yy != 0).sum(axis=-1).max()
 
         y_value = []
         for i in range(1, nmax + 1):
-- 
2.43.0


From 8442acddad5477ef27e8ab4d50ce23caccba7b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:39 +0000
Subject: [PATCH 04/18] fix: double exponential exp_mean with array parameters

---
 sdepy/infrastructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index ca12c71..f8074c4 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -1788,7 +1788,7 @@ class _double_exp_rv:
 
     def exp_mean(self):
         a, b, pa, pb = self._a, self._b, self._pa, self._pb
-        return (pa/(1 - a) if a < 1 else np.inf) + pb/(1 + b) + 0
+        return np.where(a < 1, pa/(1 - a), np.inf) + pb/(1 + b) + 0
 
 
 # Convenience methods for handling distributions
-- 
2.43.0


From 23cc666fbd1b0f73840fc9d9eddc3054b26c3e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:39 +0000
Subject: [PATCH 05/18] fix: carry out simulations in floats for unsigned
 integer timelines too

---
 sdepy/integration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdepy/integration.py b/sdepy/integration.py
index c26958f..9bbde31 100644
--- a/sdepy/integration.py
+++ b/sdepy/integration.py
@@ -526,7 +526,7 @@ class paths_generator:
         #   if tt is an integer type, the use of floats is forced in
         #   computations. the integer tt is finally passed to self.exit
         #   to be set as the timeline of the returned process
-        ttype = float if tt.dtype.kind == 'i' else tt.dtype
+        ttype = float if tt.dtype.kind in 'iu' else tt.dtype
         tt, tt_asis = tt.astype(ttype), tt
 
         # built the integration steps
-- 
2.43.0


From 869bd9f3787120b10aad67dd66dc00cfe4a028f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:39 +0000
Subject: [PATCH 06/18] fix: treat numpy integers as integers in process 't'
 and 'p' indexing

---
 sdepy/infrastructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index f8074c4..a5ecca6 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -690,7 +690,7 @@ class process(np.ndarray):
             return cls(self.t, x=x[colon + key + colon])
         # 't' and 'p' modes - timeline an paths indexing
         assert len(key) <= 1  # only one index is expected
-        if len(key) == 1 and isinstance(key[0], int):
+        if len(key) == 1 and isinstance(key[0], (int, np.integer)):
             # an integer index is treated as a slice of 1
             i = key[0]
             key = (slice(i, None, None),) if i == -1 else \
-- 
2.43.0


From cd8315843869c02624ed4add58e1ea604e0df650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:31 +0000
Subject: [PATCH 07/18] fix: keep complex values of constant processes

---
 sdepy/infrastructure.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index a5ecca6..4913346 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -441,7 +441,9 @@ class process(np.ndarray):
             if t.size == 1:
                 x = c[np.newaxis, ..., np.newaxis]
             else:
-                x = np.empty(shape=t.shape + c.shape + (1,), dtype=dtype)
+                x = np.empty(shape=t.shape + c.shape + (1,),
+                             dtype=(np.result_type(c, float)
+                                    if dtype is None else dtype))
                 x[...] = c[np.newaxis, ..., np.newaxis]
         else:
             assert False
-- 
2.43.0


From dff4d9cb003779cf9da664f96feb8a11355c1259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:31 +0000
Subject: [PATCH 08/18] fix: match times slightly below a stored one within
 rtol in true_source

---
 sdepy/infrastructure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index 4913346..6779d0f 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -2277,6 +2277,8 @@ class true_source(source):
             k = bisect.bisect_right(t, s)
             if np.isclose(s, t[k-1], rtol=rtol, atol=0.):
                 return getvalue(z[k-1])
+            elif k < len(t) and np.isclose(s, t[k], rtol=rtol, atol=0.):
+                return getvalue(z[k])
             elif k == len(t):
                 z.append(self.new_outside(z[-1], t[-1], s))
                 t.append(s)
-- 
2.43.0


From fc64fde2027ed113171dfa653b0b28abe27990dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:03 +0000
Subject: [PATCH 09/18] fix: time-dependent corr with a trailing paths axis in
 true_wiener_source

---
 sdepy/infrastructure.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index 6779d0f..5532193 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -2489,7 +2489,10 @@ dw, source of standard Wiener process (brownian motion) increments with memory.
         # (avoid instantiating a new wiener_source at each call)
         if callable(corr):
             a, b = (s - t1), (t2 - s)
-            A, B = corr((t1+s)/2)*a, corr((s+t2)/2)*b
+            A, B = corr((t1+s)/2), corr((s+t2)/2)
+            if A.ndim == 3:  # drop the trailing paths axis, if any
+                A, B = A[..., 0], B[..., 0]
+            A, B = A*a, B*b
             Z = B @ np.linalg.inv(A + B)
             Id = np.eye(A.shape[0])
             dw.corr = (Z @ A)*np.sign(a)
-- 
2.43.0


From 41c902cef6a4a0aef4d4e61a30879ecee3079370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:11 +0000
Subject: [PATCH 10/18] fix: keep intermediate jumps with null sum in
 true_cpoisson_source

---
 sdepy/infrastructure.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index 5532193..8ca607c 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -2671,11 +2671,12 @@ class true_cpoisson_source(true_source):
         j1, y1_value = z1
         j2, _ = z2  # y2_value not needed
 
-        if (j1 == j2).all():
+        dn = self._dj.dn
+        n1, n2 = dn(t1), dn(t2)  # use memory of dn
+        if (n1 == n2).all():
             return None
 
-        dn = self._dj.dn
-        n1, ns, n2 = dn(t1), dn(s), dn(t2)  # use memory of dn
+        ns = dn(s)
 
         dn_t2_t1 = n2 - n1
         dn_s_t1 = ns - n1
-- 
2.43.0


From cf4440a75c1b2a3c051c5e93649c091528736b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:30 +0000
Subject: [PATCH 11/18] fix: time differences with negative powers of integer
 time steps

---
 sdepy/infrastructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index 8ca607c..d669b44 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -1078,7 +1078,7 @@ class process(np.ndarray):
         t = self.t[:-1] if fwd else self.t[1:]
         x = np.diff(self, axis=0)
         if dt_exp:
-            np.divide(x, self.dtx**dt_exp, out=x)
+            np.divide(x, self.dtx**float(dt_exp), out=x)
         return process(t=t, x=x)
 
     def tder(self):
-- 
2.43.0


From 7b808c5af67c4d9660821e9e2aa50772b3800822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:47 +0000
Subject: [PATCH 12/18] fix: integer overflow in montecarlo antithetic half
 sums

---
 sdepy/infrastructure.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index d669b44..57b7839 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -2917,8 +2917,9 @@ class montecarlo:
                     .format(sample_paths))
             sample_paths //= 2
             sign = 1 if use == 'even' else -1
-            sample = (sample[..., :sample_paths] +
-                      sign*sample[..., sample_paths:])/2
+            # (halved before combining them, not to overflow small integers)
+            sample = (sample[..., :sample_paths]/2 +
+                      sign*(sample[..., sample_paths:]/2))
 
         # set flag to identify first run
         isfirst = (self.paths == 0)
-- 
2.43.0


From 761194188a68bc4118f487e3785fd95a55b02026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:47 +0000
Subject: [PATCH 13/18] fix: nan values of the CIR density for large arguments
 of the Bessel function

---
 sdepy/analytical.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sdepy/analytical.py b/sdepy/analytical.py
index 118949a..739df59 100644
--- a/sdepy/analytical.py
+++ b/sdepy/analytical.py
@@ -547,9 +547,11 @@ def cir_pdf(t, x, *, x0=1., theta=1., k=1., xi=1.):
     alpha = exp(-k*t)
     c = 2*k / (1 - alpha) / (xi*xi)
     q = 2*k * theta / (xi*xi) - 1
-    return c*exp(-c * (x0*alpha + x)) * \
+    z = 2*c * sqrt(x*x0*alpha)
+    # ive(q, z) == iv(q, z)*exp(-z), does not overflow for large z
+    return c*exp(z - c * (x0*alpha + x)) * \
         (x / (x0*alpha))**(q/2) * \
-        scipy.special.iv(q, 2*c * sqrt(x*x0*alpha))
+        scipy.special.ive(q, z)
 
 
 # --------------------
-- 
2.43.0


From 256cfe74a8658ddd85f8367508cec037009d97ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:45 +0000
Subject: [PATCH 14/18] fix: default data type of antithetic sources (int
 counts, as in the plain source)

---
 sdepy/infrastructure.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index 57b7839..92350c5 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -2055,9 +2055,11 @@ def _antithetics(source_class, transform):
     of source_class.
     """
 
+    default_dtype = dict(_signature(source_class))['dtype']
+
     class antithetics_class(source):
         def __init__(self, *, paths=2, vshape=(),
-                     dtype=None, rng=None, **args):
+                     dtype=default_dtype, rng=None, **args):
             if paths % 2:
                 raise ValueError(
                     'the number of paths for sources with antithetics '
-- 
2.43.0


From a8440e887aad22fbb22f2ec2bbcba656c1ccec98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:55 +0000
Subject: [PATCH 15/18] fix: double_exp_rv exp_mean is finite when there are no
 positive jumps (pa == 0, a >= 1)

---
 sdepy/infrastructure.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index 92350c5..ea7033f 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -1790,7 +1790,8 @@ class _double_exp_rv:
 
     def exp_mean(self):
         a, b, pa, pb = self._a, self._b, self._pa, self._pb
-        return np.where(a < 1, pa/(1 - a), np.inf) + pb/(1 + b) + 0
+        return np.where(pa == 0, 0., np.where(a < 1, pa/(1 - a), np.inf)) \
+            + pb/(1 + b) + 0
 
 
 # Convenience methods for handling distributions
-- 
2.43.0


From 31f8a53ad0edfc89d8fc49be78011707ee8527a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:38 +0000
Subject: [PATCH 16/18] fix: index the value axes of true_source for array
 times

---
 sdepy/infrastructure.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index ea7033f..2c4faab 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -2173,7 +2173,10 @@ class _indexed_true_source:
 
     def __call__(self, t, dt=None):
         """See true_source class documentation."""
-        return self._source(t, dt)[self._index]
+        z = self._source(t, dt)
+        # leave alone the leading axes of ``(t + dt).shape``
+        tdim = z.ndim - len(self._source.vshape) - 1
+        return z[(slice(None),)*tdim + self._index]
 
     @property
     def size(self):
-- 
2.43.0


From dfe95afc2a9b89b5f0ee70c4e38c6053e4a14e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:02 +0000
Subject: [PATCH 17/18] fix: path generators of depth 3 or more fail when the
 initial index is -N

The first point, given by its negative index, started a backward pass over
no steps, which generators relying on at least one step cannot serve.
---
 sdepy/integration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdepy/integration.py b/sdepy/integration.py
index 9bbde31..16332ac 100644
--- a/sdepy/integration.py
+++ b/sdepy/integration.py
@@ -570,12 +570,12 @@ class paths_generator:
         j0 = j0[0][0]
 
         # integrate backwards if not starting from the first point
-        if i0 != 0:
+        if i0 not in (0, -tt.size):
             self._generate_paths(steps_tt[j0::-1], tt[i0::-1], xx[i0::-1],
                                  sw, xw, reverse=True)
         # integrate forwards if not starting from last point
         # (if tt.size==1, integrates only forwards)
-        if i0 == 0 or i0 not in (-1, tt.size - 1):
+        if i0 in (0, -tt.size) or i0 not in (-1, tt.size - 1):
             self._generate_paths(steps_tt[j0:], tt[i0:], xx[i0:],
                                  sw, xw, reverse=False)
 
-- 
2.43.0


From c0beea3687b7ac42072165b34b5c0d0529d168b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:55 +0000
Subject: [PATCH 18/18] fix: montecarlo mean, histogram and outpaths return
 copies, unaffected by later updates

---
 sdepy/infrastructure.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index 2c4faab..3ff9d83 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -3057,7 +3057,7 @@ class montecarlo:
     # -------------------------
     def mean(self):
         """Mean of cumulated sample data points."""
-        return self._mean
+        return None if self._mean is None else self._mean.copy()
 
     def var(self):
         """Variance of cumulated sample data points."""
@@ -3127,7 +3127,7 @@ class montecarlo:
             counts = counts.flatten()[0]
             bins = bins.flatten()[0]
 
-        return counts, bins
+        return counts.copy(), bins.copy()
 
     def density_histogram(self):
         """
@@ -3153,7 +3153,7 @@ class montecarlo:
         Data points fallen outside of the bins' boundaries.
         """
         counts, bins = self.histogram()  # raises error if not single valued
-        return self._paths_outside
+        return self._paths_outside.copy()
 
     def outerr(self):
         """Fraction of cumulated data points fallen outside
-- 
2.43.0

