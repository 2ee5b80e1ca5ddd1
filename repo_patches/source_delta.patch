From 901684d83f3a3c8786d5f208c95bd6a3c73af2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:50 +0000
Subject: [PATCH 01/23] fix: true_cpoisson_source failing on jumps of size zero

A realized jump equal to 0 tripped an assertion on the number of non null
jumps whenever the interval it belongs to was split.
---
 sdepy/infrastructure.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index d722e2e..dfe33d5 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -2640,7 +2640,6 @@ class true_cpoisson_source(true_source):
 
     def _encode_y(self, dn_value, yy):
         nmax = dn_value.max()
-        assert nmax == (yy != 0).sum(axis=-1).max()
 
         y_value = []
         for i in range(1, nmax + 1):
-- 
2.43.0


From c2b1b310b333b766fbe62128085d498c06ff67ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:50 +0000
Subject: [PATCH 02/23] fix: true_cpoisson_source losing jumps that sum to zero

Jumps between two stored points were ignored, in queries in between, if they
added up to zero, in contrast with the underlying Poisson source.
---
 sdepy/infrastructure.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index dfe33d5..ea6c459 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -2662,13 +2662,14 @@ class true_cpoisson_source(true_source):
 
     def new_inside(self, z1, z2, t1, t2, s):
         j1, y1_value = z1
-        j2, _ = z2  # y2_value not needed
-
-        if (j1 == j2).all():
-            return None
+        # z2 not needed
 
         dn = self._dj.dn
-        n1, ns, n2 = dn(t1), dn(s), dn(t2)  # use memory of dn
+        n1, n2 = dn(t1), dn(t2)  # use memory of dn
+        # (mind not comparing j1 and j2: jumps may sum to zero)
+        if (n1 == n2).all():
+            return None
+        ns = dn(s)
 
         dn_t2_t1 = n2 - n1
         dn_s_t1 = ns - n1
-- 
2.43.0


From 62aa0f8758c1ae7fae0bd35b428913de603c040e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:50 +0000
Subject: [PATCH 03/23] fix: true_cpoisson_source losing jumps if an allocation
 fails

The stored jumps were split before completing the computation of the new
value: a MemoryError in between left them truncated.
---
 sdepy/infrastructure.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index ea6c459..69ba6e6 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -2694,9 +2694,11 @@ class true_cpoisson_source(true_source):
         # compute dj from t1 to s
         dj = yy1_updated.sum(axis=-1)
 
-        # store/return result
+        # store/return result (z1 is modified once the new value has been
+        # computed, so that it is left unchanged in case of failure)
+        j = j1 + dj
         z1[1] = y1_updated
-        return [j1 + dj, y_new]
+        return [j, y_new]
 
     def getvalue(self, z):
         return z[0]
-- 
2.43.0


From 518dbe7f895abc9fbb32026c3005300aea0db54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:50 +0000
Subject: [PATCH 04/23] fix: true_wiener_source failing with corr given as a
 process

Correlation values with a trailing paths axis were accepted at instantiation,
but failed upon queries between stored time points.
---
 sdepy/infrastructure.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index 69ba6e6..a77f5ba 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -2485,7 +2485,11 @@ dw, source of standard Wiener process (brownian motion) increments with memory.
         # (avoid instantiating a new wiener_source at each call)
         if callable(corr):
             a, b = (s - t1), (t2 - s)
-            A, B = corr((t1+s)/2)*a, corr((s+t2)/2)*b
+            A, B = corr((t1+s)/2), corr((s+t2)/2)
+            if A.ndim == 3:
+                # remove paths axis if present
+                A, B = A[..., 0], B[..., 0]
+            A, B = A*a, B*b
             Z = B @ np.linalg.inv(A + B)
             Id = np.eye(A.shape[0])
             dw.corr = (Z @ A)*np.sign(a)
-- 
2.43.0


From 26d20f0a7b46e04d3ba49672e7863965341681aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:50 +0000
Subject: [PATCH 05/23] fix: true_source ignoring coincidence with a higher
 stored time

The rtol tolerance was applied against the stored time below the requested one
only (or against the last one, for times below the first).
---
 sdepy/infrastructure.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index a77f5ba..ec9c02a 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -2273,9 +2273,13 @@ class true_source(source):
 
         def f(s):
             k = bisect.bisect_right(t, s)
-            if np.isclose(s, t[k-1], rtol=rtol, atol=0.):
-                return getvalue(z[k-1])
-            elif k == len(t):
+            # check for coincidence with the stored time points
+            # next to s, if any, nearest first
+            for i in sorted(range(max(k - 1, 0), min(k + 1, len(t))),
+                            key=lambda i: abs(s - t[i])):
+                if np.isclose(s, t[i], rtol=rtol, atol=0.):
+                    return getvalue(z[i])
+            if k == len(t):
                 z.append(self.new_outside(z[-1], t[-1], s))
                 t.append(s)
                 return getvalue(z[-1])
-- 
2.43.0


From 81e87badc20930854984000e0a53bf11d05011b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:22 +0000
Subject: [PATCH 06/23] fix: montecarlo instances corrupted by failed updates

A failure while updating (e.g. a nan in the sample, or a MemoryError) left
behind partially updated statistics, or an unusable instance.
---
 sdepy/infrastructure.py | 39 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index ec9c02a..ba064e8 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -2927,10 +2927,45 @@ class montecarlo:
         isfirst = (self.paths == 0)
 
         # compute/cumulate value, error and stats
-        self._update_moments(isfirst, sample)
-        self._update_histogram(isfirst, sample)
+        # (if something fails, restore the previous state)
+        saved = self._save(isfirst)
+        try:
+            self._update_moments(isfirst, sample)
+            self._update_histogram(isfirst, sample)
+        except BaseException:
+            self._restore(isfirst, saved)
+            raise
         self._paths[0] += sample_paths
 
+    def _save(self, isfirst):
+        if isfirst:
+            return self._bins
+        elif self._bins is None:
+            return ((self._mean.copy(),
+                     tuple(moment.copy() for moment in self._moments)), None)
+        else:
+            return ((self._mean.copy(),
+                     tuple(moment.copy() for moment in self._moments)),
+                    ([self._counts[i].copy() for i in np.ndindex(self.vshape)],
+                     self._paths_outside.copy()))
+
+    def _restore(self, isfirst, saved):
+        if isfirst:
+            self._bins = saved
+            self._mean = self._moments = self._counts = None
+        else:
+            # values are restored in place, since they are possibly
+            # referenced by instances returned by __getitem__
+            (mean, moments), histogram = saved
+            self._mean[...] = mean
+            for moment, saved_moment in zip(self._moments, moments):
+                moment[...] = saved_moment
+            if histogram is not None:
+                counts, paths_outside = histogram
+                for i, saved_counts in zip(np.ndindex(self.vshape), counts):
+                    self._counts[i][...] = saved_counts
+                self._paths_outside[...] = paths_outside
+
     def _update_moments(self, isfirst, sample, max_moment=4):
         if isfirst:
             # initialize moments upon first call (this sets vshape)
-- 
2.43.0


From fd1d7a8a5984a5dbef5e933979c120ad6623d0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:22 +0000
Subject: [PATCH 07/23] fix: montecarlo histograms of broadcasted samples

Broadcasting of subsequent samples, as documented, failed or resulted in wrong
histograms.
---
 sdepy/infrastructure.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index ba064e8..d901857 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -2926,6 +2926,10 @@ class montecarlo:
         # set flag to identify first run
         isfirst = (self.paths == 0)
 
+        # subsequent samples should broadcast to the shape of the first one
+        if not isfirst and sample.ndim <= len(self.vshape) + 1:
+            sample = np.broadcast_to(sample, self.vshape + (sample_paths,))
+
         # compute/cumulate value, error and stats
         # (if something fails, restore the previous state)
         saved = self._save(isfirst)
-- 
2.43.0


From 672a5b5b6ad1b128dd72dd455659e361d477641b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:22 +0000
Subject: [PATCH 08/23] fix: montecarlo statistics set to nan by an empty
 sample

Updating with a sample with no data points turned all cumulated statistics
into nan.
---
 sdepy/infrastructure.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index d901857..58147b3 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -2845,10 +2845,9 @@ class montecarlo:
         self._bins = bins
         self._range = range
         self._use = use
+        self._mean = self._moments = self._counts = None
         if sample is not None:
             self.update(sample=sample, axis=axis)
-        else:
-            self._mean = self._moments = self._counts = None
 
     @property
     def paths(self):
@@ -2923,6 +2922,10 @@ class montecarlo:
             sample = (sample[..., :sample_paths] +
                       sign*sample[..., sample_paths:])/2
 
+        # an empty sample leaves statistics unchanged
+        if sample_paths == 0:
+            return
+
         # set flag to identify first run
         isfirst = (self.paths == 0)
 
-- 
2.43.0


From 0d2cc3c013c183b4733a67957124b12b37c9d686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:22 +0000
Subject: [PATCH 09/23] fix: montecarlo single values obtained by indexing get
 stale

Given a montecarlo instance a, statistics of a single component a[i] were
copied, and inconsistent with its number of paths and histogram after an
update of a. Indexing failed altogether for bins=None.
---
 sdepy/infrastructure.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index 58147b3..6058132 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -3084,10 +3084,15 @@ class montecarlo:
         else:
             a._bins = self._bins[i]
         if self.paths != 0:
-            a._mean = self._mean[i]
-            a._moments = tuple(moment[i] for moment in self._moments)
-            a._counts = self._counts[i]
-            a._paths_outside = self._paths_outside[i]
+            # make sure that single values are referenced, not copied
+            i_ref = i if isinstance(i, tuple) else (i,)
+            if not any(k is Ellipsis for k in i_ref):
+                i_ref += (Ellipsis,)
+            a._mean = self._mean[i_ref]
+            a._moments = tuple(moment[i_ref] for moment in self._moments)
+            if self._bins is not None:
+                a._counts = self._counts[i]
+                a._paths_outside = self._paths_outside[i_ref]
         return a
 
     # user access to statistics
-- 
2.43.0


From bdab865d6b3df40f22a298943ea8aaa3c6c224ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:22 +0000
Subject: [PATCH 10/23] fix: montecarlo results modified by subsequent updates

The mean, the histogram and the number of outpaths were returned as references
to internal arrays, modified in place by subsequent updates.
---
 sdepy/infrastructure.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index 6058132..b2aa8cc 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -3099,7 +3099,7 @@ class montecarlo:
     # -------------------------
     def mean(self):
         """Mean of cumulated sample data points."""
-        return self._mean
+        return None if self._mean is None else self._mean.copy()
 
     def var(self):
         """Variance of cumulated sample data points."""
@@ -3169,7 +3169,7 @@ class montecarlo:
             counts = counts.flatten()[0]
             bins = bins.flatten()[0]
 
-        return counts, bins
+        return counts.copy(), bins.copy()
 
     def density_histogram(self):
         """
@@ -3195,7 +3195,7 @@ class montecarlo:
         Data points fallen outside of the bins' boundaries.
         """
         counts, bins = self.histogram()  # raises error if not single valued
-        return self._paths_outside
+        return self._paths_outside.copy()
 
     def outerr(self):
         """Fraction of cumulated data points fallen outside
-- 
2.43.0


From 0f3bac95733f736b0a3d83b4e214ebc9099332ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:22 +0000
Subject: [PATCH 11/23] fix: integration of SDEs dependent on the hash seed

Terms of the equations were summed in an arbitrary order, resulting in
rounding differences across otherwise identical sessions.
---
 sdepy/integration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdepy/integration.py b/sdepy/integration.py
index e3a9f2a..bbc0ac8 100644
--- a/sdepy/integration.py
+++ b/sdepy/integration.py
@@ -1726,7 +1726,7 @@ class SDEs(SDE):
         for a in As:
             A_ids.update(a.keys())
         A = {id: self.pack(tuple(a.get(id, 0) for a in As))
-             for id in A_ids}
+             for id in sorted(A_ids)}
         return A
 
     # public interface vs subclasses
-- 
2.43.0


From c4461acd299996137507ba82cfface34bed4b654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:22 +0000
Subject: [PATCH 12/23] fix: SDEs with log=True exponentiating results twice

Results are already exponentiated by the exit method, before being served to
the result method.
---
 sdepy/integration.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/sdepy/integration.py b/sdepy/integration.py
index bbc0ac8..109f0d7 100644
--- a/sdepy/integration.py
+++ b/sdepy/integration.py
@@ -1829,8 +1829,6 @@ class SDEs(SDE):
 
     def result(self, tt, XX):
         """See documentation of SDE.result"""
-        if self.log:
-            exp(XX, out=XX)
         xxs = self.unpack(XX)
         return tuple(process(t=tt, x=xx) for xx in xxs)
 
-- 
2.43.0


From b561ca040aadcbe694f1a5ffab4af450fdc9f457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:33 +0000
Subject: [PATCH 13/23] fix: SDE sources instantiated in arbitrary order

The order of instantiation of the sources depended on the hash seed, making
results non reproducible for source classes that use rng upon instantiation.
---
 sdepy/integration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdepy/integration.py b/sdepy/integration.py
index 109f0d7..4d81f28 100644
--- a/sdepy/integration.py
+++ b/sdepy/integration.py
@@ -1072,7 +1072,7 @@ class SDE:
         sources = {id:
                    self._get_source_setup_method(id)(
                        **self._get_args(self._source_args_keys[id]))
-                   for id in self.sources}
+                   for id in sorted(self.sources)}
         return sources
 
     # initialization
-- 
2.43.0


From f1e34e7c6d81a9364b7f187eb70138d7e0357244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:31 +0000
Subject: [PATCH 14/23] fix: indexed true_source evaluated at an array of times

The index was applied to the time axes, instead of the axes of the values.
---
 sdepy/infrastructure.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index b2aa8cc..7f9bd16 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -2168,7 +2168,9 @@ class _indexed_true_source:
 
     def __call__(self, t, dt=None):
         """See true_source class documentation."""
-        return self._source(t, dt)[self._index]
+        # the index refers to values: skip the axes of t, if any
+        tndim = np.broadcast(t, 0 if dt is None else dt).ndim
+        return self._source(t, dt)[(slice(None),)*tndim + self._index]
 
     @property
     def size(self):
-- 
2.43.0


From 59ddc4a98c8535322e8972aa86f2eb2ab48e107e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:16 +0000
Subject: [PATCH 15/23] fix: Poisson sources failing with a floating point
 ptype

cpoisson_source, true_cpoisson_source and true_poisson_source failed
with TypeError if counts were given a floating point data type.
---
 sdepy/infrastructure.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index 7f9bd16..86bb94d 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -2027,7 +2027,7 @@ class cpoisson_source(source):
         y_value = []
         for i in np.ndindex(dt.shape):
             dn_positive_i = sign_dt[i]*dn[i]
-            nmax = (dn_positive_i).max()
+            nmax = int(dn_positive_i.max())
             rv = y(t[i] + dt[i]/2) if callable(y) else y
             for j in range(1, nmax+1):
                 index = (dn_positive_i == j)
@@ -2562,7 +2562,7 @@ class true_poisson_source(true_source):
             return None
         p = (s - t1)/(t2 - t1)
         n = n2 - n1
-        return n1 + self.rng.binomial(n, p, n.shape)
+        return n1 + self.rng.binomial(n.astype(int), p, n.shape)
 
 
 class true_cpoisson_source(true_source):
@@ -2635,7 +2635,7 @@ class true_cpoisson_source(true_source):
         return [super().init(), None]
 
     def _decode_y(self, dn_value, y_value):
-        nmax = dn_value.max()
+        nmax = int(dn_value.max())
         yy = np.zeros(dn_value.shape + (nmax,),
                       dtype=self.dtype)
         for y in y_value:
@@ -2649,7 +2649,7 @@ class true_cpoisson_source(true_source):
         return yy
 
     def _encode_y(self, dn_value, yy):
-        nmax = dn_value.max()
+        nmax = int(dn_value.max())
 
         y_value = []
         for i in range(1, nmax + 1):
@@ -2684,7 +2684,7 @@ class true_cpoisson_source(true_source):
         dn_t2_t1 = n2 - n1
         dn_s_t1 = ns - n1
         dn_t2_s = n2 - ns
-        nmax = dn_t2_t1.max()
+        nmax = int(dn_t2_t1.max())
 
         # decode y_value
         yy1 = self._decode_y(dn_t2_t1, y1_value)
@@ -2692,7 +2692,7 @@ class true_cpoisson_source(true_source):
         # split y_value
         yy1_updated = yy1.copy()
         yy_new = np.zeros_like(yy1)
-        for i in range(dn_s_t1.max() + 1):
+        for i in range(int(dn_s_t1.max()) + 1):
             index = (dn_s_t1 == i)
             yy1_updated[index, i:] = 0
             yy_new[index, :nmax-i] = yy1[index, i:]
-- 
2.43.0


From f816e1d1389f23a3911c98dfde9bf32e27e74af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:49 +0000
Subject: [PATCH 16/23] fix: integration along timelines of unsigned integers

Unsigned integer timelines were not cast to float: steps overflowed if
integrating backwards, and intermediate steps were truncated.
---
 sdepy/integration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdepy/integration.py b/sdepy/integration.py
index 4d81f28..08538fd 100644
--- a/sdepy/integration.py
+++ b/sdepy/integration.py
@@ -526,7 +526,7 @@ class paths_generator:
         #   if tt is an integer type, the use of floats is forced in
         #   computations. the integer tt is finally passed to self.exit
         #   to be set as the timeline of the returned process
-        ttype = float if tt.dtype.kind == 'i' else tt.dtype
+        ttype = float if tt.dtype.kind in 'iu' else tt.dtype
         tt, tt_asis = tt.astype(ttype), tt
 
         # built the integration steps
-- 
2.43.0


From 81226531a423ef0d91cb10823c176e5c3ede87fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:55 +0000
Subject: [PATCH 17/23] fix: jump diffusion diagnostics failing with a floating
 point ptype

Counting jumps failed with UFuncTypeError, unless getinfo=False was given.
---
 sdepy/integration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdepy/integration.py b/sdepy/integration.py
index 08538fd..571c63b 100644
--- a/sdepy/integration.py
+++ b/sdepy/integration.py
@@ -2613,7 +2613,7 @@ class jumpdiff_SDE(SDE):
         if hasattr(dj, 'dn_value'):
             self.info['jump_rate'][i - 1] += \
                 dj.dn_value.sum()/(tt[i] - tt[i - 1])/self.paths
-            self.info['jump_count'] += dj.dn_value
+            self.info['jump_count'] += dj.dn_value.astype(int)
 
     def info_end(self):
         if self.itervars['tt'].size > 1:
-- 
2.43.0


From 887b77eadc7d38ea9749daf93a39cb3dd5e84b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:40 +0000
Subject: [PATCH 18/23] fix: compound Poisson sources with array-like
 distribution parameters

norm_rv, uniform_rv, exp_rv, double_exp_rv are documented to accept
parameters broadcastable to the shape of source values, but array-like ones
made cpoisson_source fail, or sample jumps from the distribution of another
entry.
---
 sdepy/infrastructure.py | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index 86bb94d..dc1c508 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -1637,11 +1637,33 @@ class poisson_source(source):
 # to be used in compound Poisson stochasticity sources
 # ----------------------------------------------------
 
+def _make_rv_selectable(rv):
+    """
+    Wraps the random variable rv, allowing it
+    to accept array-like parameters.
+
+    If any of its parameters is an array, the returned distribution
+    exposes a ``_select`` method: given the boolean array ``index``, to whose
+    shape the parameters are broadcasted, ``_select(index)`` is the
+    distribution of the selected variates, to be sampled with size
+    ``(index.sum(), n)``.
+    """
+    def new_rv(**params):
+        y = rv(**params)
+        if any(np.ndim(x) > 0 for x in params.values()):
+            y._select = lambda index: rv(
+                **{k: np.broadcast_to(x, index.shape)[index][:, np.newaxis]
+                   for k, x in params.items()})
+        return y
+    return new_rv
+
+
 def _make_rv_params_variable(rv, **params):
     """
     Wraps the random variable rv, allowing it
     to accept time-dependent parameters.
     """
+    rv = _make_rv_selectable(rv)
     if any(callable(x) for x in params.values()):
         return lambda t: rv(
             **{k: (x(t) if callable(x) else x)
@@ -1849,6 +1871,12 @@ def rvmap(f, y):
                             else f(yt_rvs))
 
             new_yt = new_yt_class()
+            if hasattr(yt, '_select'):
+                # mind array-like parameters of yt
+                def select(index):
+                    z = rvmap(f, yt._select(index))
+                    return z(t) if callable(z) else z
+                new_yt._select = select
             return new_yt
         return new_y
     else:
@@ -1858,6 +1886,9 @@ def rvmap(f, y):
                 return f(y.rvs(size=size, random_state=random_state))
 
         new_y = new_y_class()
+        if hasattr(y, '_select'):
+            # mind array-like parameters of y
+            new_y._select = lambda index: rvmap(f, y._select(index))
         return new_y
 
 
@@ -2032,7 +2063,10 @@ class cpoisson_source(source):
             for j in range(1, nmax+1):
                 index = (dn_positive_i == j)
                 if index.any():
-                    y_sample = self._y_rvs(rv.rvs, (index.sum(), j), self.rng)
+                    # select entries of array-like parameters of rv, if any
+                    rv_j = rv._select(index) if hasattr(rv, '_select') else rv
+                    y_sample = self._y_rvs(rv_j.rvs, (index.sum(), j),
+                                           self.rng)
                     dz[i][index] = sign_dt[i]*y_sample.sum(axis=-1)
                     y_value.append(y_sample)
         self.dn_value = dn
-- 
2.43.0


From 22ecfb4371817d3c0c8090252a3b342547a41207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:47 +0000
Subject: [PATCH 19/23] fix: antithetic half-sums of integer samples
 overflowing in montecarlo

---
 sdepy/infrastructure.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index dc1c508..4c6ed96 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -2955,8 +2955,9 @@ class montecarlo:
                     .format(sample_paths))
             sample_paths //= 2
             sign = 1 if use == 'even' else -1
-            sample = (sample[..., :sample_paths] +
-                      sign*sample[..., sample_paths:])/2
+            # (halve first: sums might overflow the type of integer samples)
+            sample = (sample[..., :sample_paths]/2 +
+                      sign*(sample[..., sample_paths:]/2))
 
         # an empty sample leaves statistics unchanged
         if sample_paths == 0:
-- 
2.43.0


From 00ad8ef7170cf132b365eb624078b949050fd0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:56 +0000
Subject: [PATCH 20/23] fix: sources losing precision or overflowing at times
 of small integer types

---
 sdepy/infrastructure.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index 4c6ed96..2b806d7 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -232,6 +232,14 @@ def _check_source(src, paths, vshape):
             .format(type(src).__name__))
 
 
+def _times_setup(t, dt):
+    """Broadcasted arrays of times and time increments. Integers are cast
+    to floats, to avoid overflows and loss of precision."""
+    t, dt = [x.astype(float) if x.dtype.kind in 'iub' else x
+             for x in (np.asarray(t), np.asarray(dt))]
+    return np.broadcast_arrays(t, dt)
+
+
 def _source_setup(dz, source_type, paths, vshape, **args):
     """Preprocessing and setup of stochasticity sources."""
     if dz is None:
@@ -1504,7 +1512,7 @@ class wiener_source(source):
         """See wiener_source class documentation."""
         paths, vshape, dtype = self.paths, self.vshape, self.dtype
         corr = self.corr
-        t, dt = np.broadcast_arrays(t, dt)
+        t, dt = _times_setup(t, dt)
         tshape = dt.shape
         # using numpy normal and multivariate_normal,
         # instead of scipy.stats.norm and scipy.stats.multivariate_normal
@@ -1616,7 +1624,7 @@ class poisson_source(source):
 
     def __call__(self, t, dt):
         """See poisson_source class documentation."""
-        t, dt = np.broadcast_arrays(t, dt)
+        t, dt = _times_setup(t, dt)
         abs_dt, sign_dt = np.abs(dt), np.sign(dt).astype(int)
         tshape = dt.shape
         paths, vshape, dtype = self.paths, self.vshape, self.dtype
@@ -2048,7 +2056,7 @@ class cpoisson_source(source):
     def __call__(self, t, dt):
         """See cpoisson_source class documentation."""
 
-        t, dt = np.broadcast_arrays(t, dt)
+        t, dt = _times_setup(t, dt)
         sign_dt = np.sign(dt).astype(int)
         shape = self.vshape + (self.paths,)
         # dn may be positive or negative according to sign(dt)
@@ -2294,7 +2302,7 @@ class true_source(source):
             t = np.asarray(t)
             return self._retrieve_old_or_generate_new(t)
         else:
-            t, dt = np.broadcast_arrays(t, dt)
+            t, dt = _times_setup(t, dt)
             s = t + dt
             return (self._retrieve_old_or_generate_new(s) -
                     self._retrieve_old_or_generate_new(t))
-- 
2.43.0


From d55261e4db9f59fbbce09124869ced6b66999f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:51 +0000
Subject: [PATCH 21/23] fix: true_cpoisson_source keeping, and counting in its
 size, jumps of a failed query

---
 sdepy/infrastructure.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index 2b806d7..9485515 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -2707,8 +2707,10 @@ class true_cpoisson_source(true_source):
         dj = self._dj(t, s - t)
         y_new = self._dj.y_value
         if s > t:
+            # z is modified once the new value has been computed
+            z_new = [j + dj, None]
             z[1] = y_new
-            return [j + dj, None]
+            return z_new
         else:
             return [j + dj, y_new]
 
-- 
2.43.0


From ee965434d37c63fa5f24db193d97b726d6dc85f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:51 +0000
Subject: [PATCH 22/23] fix: bins of a montecarlo object referencing the array
 they were given as

---
 sdepy/infrastructure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index 9485515..fb29cfd 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -3087,8 +3087,8 @@ class montecarlo:
                 if (mybins.shape[:-1] == vshape) or \
                    (mybins.dtype == object and mybins.shape == vshape):
                     for i in np.ndindex(vshape):
-                        self._bins[i] = mybins[i]
-                        args[i] = dict(bins=mybins[i])
+                        # mind not referencing the array-like passed as bins
+                        args[i] = dict(bins=np.array(mybins[i]))
                 else:
                     raise ValueError(
                         'shape of the bins {} not compatible with '
-- 
2.43.0


From 470eaa49065bcc59a7ac7ba311d05fd1a6bb2cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:20 +0000
Subject: [PATCH 23/23] fix: propagate a TypeError raised by distributions
 accepting random_state

---
 sdepy/infrastructure.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index fb29cfd..ccdb13f 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -2042,6 +2042,14 @@ class cpoisson_source(source):
     @staticmethod
     def _y_rvs(rvs, size, rng):
         """Wrap calls to `rvs` method of `y` for backward compatibility"""
+        try:
+            handles_rng = 'random_state' in inspect.signature(rvs).parameters
+        except (TypeError, ValueError):
+            handles_rng = False
+        if handles_rng:
+            # mind not mistaking for a missing `random_state` keyword
+            # a TypeError raised while sampling
+            return rvs(size=size, random_state=rng)
         try:
             return rvs(size=size, random_state=rng)
         except TypeError:
-- 
2.43.0

