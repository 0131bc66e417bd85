From 0ab6fdecd74f6fa34eebc54713c8a5f7f6f40fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:03 +0000
Subject: [PATCH 01/65] fix: pass `params` from the `density`/`pdf` functions
 to the KDE query

---
 kalepy/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kalepy/__init__.py b/kalepy/__init__.py
index bbee33d..de567b6 100644
--- a/kalepy/__init__.py
+++ b/kalepy/__init__.py
@@ -68,7 +68,7 @@ del _path
 # High Level API Functions
 # -----------------------------------
 
-def density(data, points=None, weights=None, reflect=None, probability=False, grid=False, **kwargs):
+def density(data, points=None, weights=None, reflect=None, probability=False, grid=False, params=None, **kwargs):
     """Use a KDE to calculate the density of the given data.
 
     This function (1) constructs a kernel-density estimate of the distribution function from which
@@ -136,7 +136,7 @@ def density(data, points=None, weights=None, reflect=None, probability=False, gr
 
     """
     kde = KDE(data, weights=weights, reflect=reflect, **kwargs)
-    points, vals = kde.density(points, probability=probability, grid=grid)
+    points, vals = kde.density(points, params=params, probability=probability, grid=grid)
     return points, vals
 
 
-- 
2.43.0


From 6c8520c479a631be7ba6ebd4af943c7b865c02a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:03 +0000
Subject: [PATCH 02/65] fix: accept `weights` given as a list

---
 kalepy/kde.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kalepy/kde.py b/kalepy/kde.py
index 690c87a..1ee9470 100644
--- a/kalepy/kde.py
+++ b/kalepy/kde.py
@@ -197,6 +197,7 @@ class KDE:
         # --------------------------------
         weights_uniform = True
         if weights is not None:
+            weights = np.asarray(weights)
             if np.shape(weights) != (ndata,):
                 err = "`weights` input (shape={}) should be shaped as (N,)=({},)!".format(np.shape(weights), ndata)
                 raise ValueError(err)
-- 
2.43.0


From d7d506ee5ee759979d066fc86d007c37640c6fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:03 +0000
Subject: [PATCH 03/65] fix: accept boolean `reflect` in KDE.density

---
 kalepy/kde.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/kalepy/kde.py b/kalepy/kde.py
index 1ee9470..5c23a7b 100644
--- a/kalepy/kde.py
+++ b/kalepy/kde.py
@@ -350,6 +350,12 @@ class KDE:
         if (params is None) and (reflect is None):
             reflect = self.reflect
 
+        # `True` and `False` apply to all dimensions being evaluated
+        if reflect is True:
+            reflect = [True] * np.shape(data)[0]
+        elif reflect is False:
+            reflect = None
+
         # Make sure `reflect` shape matches the data
         if (reflect is not None) and (len(reflect) != np.shape(data)[0]):
             # If the data is 1D, and `reflect` is (2,) --- that's okay, convert `reflect` to (1, 2)
-- 
2.43.0


From 81578cb449b5b0fc6c7eba64851ea793a1d0a67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:03 +0000
Subject: [PATCH 04/65] fix: do not modify the `reflect` argument given by the
 caller

---
 kalepy/kernels.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index 695bf76..8ad7bcf 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -713,6 +713,9 @@ def _check_reflect(reflect, data, weights=None, helper=False):
     if (len(reflect) == 2) and (ndim == 1):
         reflect = np.atleast_2d(reflect)
 
+    # Boundaries given as `True` are replaced below: do this on a copy, not on the caller's object
+    reflect = [list(ref) if np.iterable(ref) else ref for ref in reflect]
+
     if (len(reflect) != ndim):  # and not ((len(reflect) == 2) and (ndim == 1)):
         err = "`reflect` ({},) must match the data with shape ({}) parameters!".format(
             len(reflect), data.shape)
-- 
2.43.0


From c454b6d0acd7d274faff345c0fa25b9e37024a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:40 +0000
Subject: [PATCH 05/65] fix: keep `True` entries of a one-dimensional `reflect`
 pair

---
 kalepy/kde.py     | 2 +-
 kalepy/kernels.py | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/kalepy/kde.py b/kalepy/kde.py
index 5c23a7b..c41a454 100644
--- a/kalepy/kde.py
+++ b/kalepy/kde.py
@@ -360,7 +360,7 @@ class KDE:
         if (reflect is not None) and (len(reflect) != np.shape(data)[0]):
             # If the data is 1D, and `reflect` is (2,) --- that's okay, convert `reflect` to (1, 2)
             if (ndim == 1) and (np.shape(reflect) == (2,)) and utils.really1d(reflect):
-                reflect = np.atleast_2d(reflect)
+                reflect = [reflect]
             else:
                 err = (
                     "length of `reflect` ({}) ".format(reflect),
diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index 8ad7bcf..718070f 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -710,8 +710,9 @@ def _check_reflect(reflect, data, weights=None, helper=False):
     if reflect is True:
         reflect = [True for ii in range(ndim)]
 
-    if (len(reflect) == 2) and (ndim == 1):
-        reflect = np.atleast_2d(reflect)
+    # NOTE: do not convert to an array, which would turn `True` into the number 1
+    if (len(reflect) == 2) and (ndim == 1) and utils.really1d(reflect):
+        reflect = [reflect]
 
     # Boundaries given as `True` are replaced below: do this on a copy, not on the caller's object
     reflect = [list(ref) if np.iterable(ref) else ref for ref in reflect]
-- 
2.43.0


From 7d648cda2dd343d78175c5fdc9260e0b8778a665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:40 +0000
Subject: [PATCH 06/65] fix: place `reflect=True` boundaries outside of the
 data, also for negative values

---
 kalepy/kernels.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index 718070f..feec1ac 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -735,12 +735,15 @@ def _check_reflect(reflect, data, weights=None, helper=False):
     # Perform additional diagnostics
     for ii in range(ndim):
         if (reflect[ii] is True):
-            reflect[ii] = [np.min(data[ii])*(1 - _NUM_PAD), np.max(data[ii])*(1 + _NUM_PAD)]
-        elif (reflect[ii] is not None) and (True in reflect[ii]):
+            reflect[ii] = [True, True]
+
+        if (reflect[ii] is not None):
             if reflect[ii][0] is True:
-                reflect[ii][0] = np.min(data[ii])*(1 - _NUM_PAD)
+                lo = np.min(data[ii])
+                reflect[ii][0] = lo - np.fabs(lo)*_NUM_PAD
             if reflect[ii][1] is True:
-                reflect[ii][1] = np.max(data[ii])*(1 + _NUM_PAD)
+                hi = np.max(data[ii])
+                reflect[ii][1] = hi + np.fabs(hi)*_NUM_PAD
 
         if np.all(np.array(reflect[ii]) != None) and (reflect[ii][0] >= reflect[ii][1]):  # noqa
             err = "Reflect is out of order:  `reflect`[{}] = {}  !".format(ii, reflect[ii])
-- 
2.43.0


From 3f1450091534bebc531575eafd6505bfb098c09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:40 +0000
Subject: [PATCH 07/65] fix: zero the reflected density outside of the
 boundaries of every dimension

---
 kalepy/kernels.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index feec1ac..6b87bbb 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -127,6 +127,11 @@ class Kernel(object):
                 refl_data[ii, :] = 2*loc - refl_data[ii, :]
                 result += _evaluate_numba(whitening, refl_data, points, weights, kfunc)
 
+        # The images about any dimension's boundaries may reach beyond those of another dimension
+        for ii, reflect_dim in enumerate(reflect):
+            if reflect_dim is None:
+                continue
+
             lo = -np.inf if (reflect_dim[0] is None) else reflect_dim[0]
             hi = +np.inf if (reflect_dim[1] is None) else reflect_dim[1]
             idx = (points[ii, :] < lo) | (hi < points[ii, :])
-- 
2.43.0


From e2b9c17d6dd53169403b7da70c3f2fd97aa444c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:40 +0000
Subject: [PATCH 08/65] fix: allow `bandwidth` with shape (1,) and `params` as
 a sequence for 1D data

---
 kalepy/kde.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kalepy/kde.py b/kalepy/kde.py
index c41a454..8d0a28b 100644
--- a/kalepy/kde.py
+++ b/kalepy/kde.py
@@ -331,7 +331,7 @@ class KDE:
         squeeze = False
         if params is not None:
             if (ndim == 1):
-                if params == 0:
+                if np.shape(params) in [(), (1,)] and np.all(np.asarray(params) == 0):
                     params = None
                 else:
                     err = "Cannot specify `params` ('{}') > 0 for 1D data!".format(params)
@@ -700,7 +700,9 @@ class KDE:
         ndim = self.ndim
         bandwidth = np.zeros((ndim, ndim))
 
-        if len(np.atleast_1d(bw_input)) == 1:
+        if np.size(bw_input) == 1:
+            if not isinstance(bw_input, six.string_types):
+                bw_input = np.asarray(bw_input).item()
             _bw, method = self._compute_bandwidth(bw_input)
             if not self._diagonal:
                 bandwidth[...] = _bw
-- 
2.43.0


From c52e7965257b1da315fd02959b83f99a36885c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:21 +0000
Subject: [PATCH 09/65] fix: accept a bandwidth matrix given as nested lists

---
 kalepy/kde.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kalepy/kde.py b/kalepy/kde.py
index 8d0a28b..fdd3a76 100644
--- a/kalepy/kde.py
+++ b/kalepy/kde.py
@@ -717,6 +717,7 @@ class KDE:
                         bw_input[ii], param=(ii, ii))
                 method = 'diagonal'
             elif np.shape(bw_input) == (ndim, ndim):
+                bw_input = np.array(bw_input, dtype=object)
                 for ii, jj in np.ndindex(ndim, ndim):
                     bandwidth[ii, jj], *_ = self._compute_bandwidth(
                         bw_input[ii, jj], param=(ii, jj))
-- 
2.43.0


From 26ecc1549d71d1051933fcd799b826c95840196c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:21 +0000
Subject: [PATCH 10/65] fix: never place the effective extrema of infinite
 kernels inside the data

---
 kalepy/kde.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kalepy/kde.py b/kalepy/kde.py
index fdd3a76..48d2ecd 100644
--- a/kalepy/kde.py
+++ b/kalepy/kde.py
@@ -248,6 +248,8 @@ class KDE:
             out = sp.stats.norm.ppf(1.0 - 1.0/neff)
             # Extra to be double sure...
             out *= 1.2
+            # The quantile is negative (or undefined) if there are fewer than two effective data points
+            out = out if (out > 0.0) else 0.0
 
         # Find the effective-extrema in each dimension, to be used if `extrema` is not specified
         _bandwidth = np.sqrt(self.kernel.matrix.diagonal())
-- 
2.43.0


From a0fbdd508f0a6fd6ceccd6605acb46de807808c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:21 +0000
Subject: [PATCH 11/65] fix: fill in missing `extrema` separately for each
 dimension, without modifying shared lists

---
 kalepy/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index bc07528..aa59852 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -1236,7 +1236,7 @@ def _parse_extrema(data, extrema=None, params=None, warn=True):
     else:
         # Convert from (2,) ==> (D, 2)
         if really1d(extrema) and (np.shape(extrema) == (2,)):
-            extrema = [extrema for ii in range(npars)]
+            extrema = [list(extrema) for ii in range(npars)]
         # If already (D, 2) we're good, keep going
         elif np.shape(np.array(extrema, dtype=object)) == (npars, 2):
             pass
-- 
2.43.0


From 2780982d8814f54327f51789dfae5ee36445429f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:21 +0000
Subject: [PATCH 12/65] fix: keep the CDF between zero and one outside of the
 grid

---
 kalepy/kde.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kalepy/kde.py b/kalepy/kde.py
index 48d2ecd..fd09f44 100644
--- a/kalepy/kde.py
+++ b/kalepy/kde.py
@@ -534,6 +534,10 @@ class KDE:
 
         # `scipy.interplate.RegularGridInterpolator` expects shape (N,D,) -- so transpose
         pnts = np.asarray(pnts).T
+        # The CDF is constant beyond the grid, instead of being extrapolated
+        lo = [gg[0] for gg in self._cdf_grid[0]]
+        hi = [gg[-1] for gg in self._cdf_grid[0]]
+        pnts = np.clip(pnts, lo, hi)
         cdf = self._cdf_func(pnts)
         return cdf
 
-- 
2.43.0


From 04dc6bde27c6b4b27ceb5bc30db3f023d3c2f00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:54 +0000
Subject: [PATCH 13/65] fix: fill in missing `extrema` also when given as
 tuples, or selected by `params`

---
 kalepy/utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index aa59852..d37f16c 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -1226,10 +1226,11 @@ def _parse_extrema(data, extrema=None, params=None, warn=True):
     if extrema is not None:
         extrema = copy.deepcopy(extrema)
 
+    if (extrema is not None) and (params is not None) and (len(extrema) != npars):
+        extrema = [extrema[pp] for pp in params]
+
     if extrema is None:
         extrema = data_extrema
-    elif (params is not None) and (len(extrema) != npars):
-        extrema = [extrema[pp] for pp in params]
 
     # Check components of given `extrema` to make sure they are valid
     #   fill in any `None` values with extrema from the data
@@ -1251,6 +1252,9 @@ def _parse_extrema(data, extrema=None, params=None, warn=True):
                 jshape(extrema), npars)
             raise ValueError(err)
 
+        # Make sure that missing values can be assigned
+        extrema = [list(ee) if isinstance(ee, tuple) else ee for ee in extrema]
+
         # Fill in `None` values and check if given `extrema` is out of bounds for data
         for dd in range(npars):
             if extrema[dd] is None:
-- 
2.43.0


From e90896de6b00709de2d3caab39c5347c8004f855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:54 +0000
Subject: [PATCH 14/65] fix: KDE.from_hist accepts lists, single bins, and
 positional arguments

---
 kalepy/kde.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/kalepy/kde.py b/kalepy/kde.py
index fd09f44..4fbf9da 100644
--- a/kalepy/kde.py
+++ b/kalepy/kde.py
@@ -432,11 +432,14 @@ class KDE:
 
         """
 
+        hist = np.asarray(hist)
+
         # For one dimension
         if utils.really1d(bins):
 
             # Convert bins into points
-            dx = bins[2] - bins[1]
+            bins = np.asarray(bins)
+            dx = bins[1] - bins[0]
             points = bins[:-1] + 0.5 * dx
 
             # Normalize into a pdf
@@ -446,9 +449,9 @@ class KDE:
                 bandwidth = dx
 
             return KDE(
-                dataset=points,
-                weights=hist,
-                bandwidth=bandwidth,
+                points,
+                bandwidth,
+                hist,
                 *args,
                 **kwargs
             )
@@ -463,7 +466,8 @@ class KDE:
 
             for bins_i in bins:
                 # Convert bins into points
-                dx = bins_i[2] - bins_i[1]
+                bins_i = np.asarray(bins_i)
+                dx = bins_i[1] - bins_i[0]
                 centers_i = bins_i[:-1] + 0.5 * dx
                 centers.append(centers_i)
 
@@ -481,9 +485,9 @@ class KDE:
                 bandwidth = dxs
 
             return KDE(
-                dataset=points,
-                weights=hist.flatten(),
-                bandwidth=bandwidth,
+                points,
+                bandwidth,
+                hist.flatten(),
                 *args,
                 **kwargs
             )
-- 
2.43.0


From 5aca6bf254a9dc8c1c8818a579940f069362e121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:54 +0000
Subject: [PATCH 15/65] fix: sample all dimensions when resampling with both
 `keep` and `reflect`

---
 kalepy/kernels.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index 6b87bbb..7783f1b 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -218,8 +218,8 @@ class Kernel(object):
         """Resample the given data using reflection.
         """
         matrix = self.matrix
-        # Modify covariance-matrix for any `keep` dimensions
-        matrix = utils.cov_keep_vars(matrix, keep, reflect=reflect)
+        # Make sure that `keep` and `reflect` are compatible
+        utils.cov_keep_vars(matrix, keep, reflect=reflect)
 
         ndim, nvals = np.shape(data)
 
@@ -250,8 +250,7 @@ class Kernel(object):
         fracs = []
         while (num_good < size) and (cnt < MAX * num_chunks):
             # Draw candidate resample points
-            #    set `keep` to None, `matrix` is already modified to account for it
-            trial = self._resample_clear(data, draw, weights=weights, matrix=matrix, keep=None)
+            trial = self._resample_clear(data, draw, weights=weights, matrix=matrix, keep=keep)
             # Find the (boolean) indices of values within target boundaries
             idx = utils.bound_indices(trial, bounds)
 
-- 
2.43.0


From 5c91ce31d201e3c89fae91cf50c4c339ba58555b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:45 +0000
Subject: [PATCH 16/65] fix: include the mirror images of the data when
 resampling with reflection

---
 kalepy/kernels.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index 7783f1b..5ceff65 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -245,7 +245,7 @@ class Kernel(object):
         samps = np.zeros((size, ndim))
         num_good = 0
         cnt = 0
-        MAX = 10
+        MAX = 1000
         draw = chunk_size
         fracs = []
         while (num_good < size) and (cnt < MAX * num_chunks):
@@ -267,9 +267,9 @@ class Kernel(object):
             # Increment counters
             num_good += ngd
             cnt += 1
-            # Next time, draw twice as many as we need
+            # Next time, draw twice as many as we expect to need
             draw = np.minimum(size - num_good, chunk_size)
-            draw = (2**ndim) * draw
+            draw = int(np.ceil(2 * draw / np.clip(np.mean(fracs), 1e-3, None)))
             draw = np.minimum(draw, int(self._chunk))
 
         if num_good < size:
@@ -331,8 +331,8 @@ class Kernel(object):
 
     def _truncate_reflections(self, data, bounds, weights=None):
         # Determine the bounds outside of which we should truncate
-        # trunc = self._get_truncation_bounds(bounds)
-        trunc = bounds
+        #    images outside of the boundaries still contribute kernels which reach inside of them
+        trunc = self._get_truncation_bounds(bounds)
         # Find the data-points outside of those bounds
         idx = utils.bound_indices(data, trunc)
         # Select only points within truncation bounds
@@ -346,7 +346,8 @@ class Kernel(object):
     def _get_truncation_bounds(self, bounds):
         trunc = np.zeros_like(bounds)
 
-        bw = self.bandwidth.diagonal()
+        # Extent of the kernels in each dimension
+        bw = np.sqrt(self.matrix.diagonal())
         # If this kernel has finite-support, we only need to go out to 'bandwidth' on each side
         if self.FINITE:
             bw = bw * (1 + _NUM_PAD)
@@ -354,7 +355,7 @@ class Kernel(object):
         # If kernel has infinite-support, go to the quantile reaching the desired precision
         else:
             tol = _TRUNCATE_INFINITE_KERNELS
-            qnts = self.distribution.ppf([tol, 1-tol])
+            qnts = sp.stats.norm.ppf([tol, 1-tol])
             qnts = qnts[np.newaxis, :] * bw[:, np.newaxis]
 
         # Expand the reflection bounds based on the bandwidth interval
-- 
2.43.0


From 81232979a22bbb71dc8be9a1a94c95e18bb6753e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:33 +0000
Subject: [PATCH 17/65] fix: draw samples from the multidimensional form of
 finite kernels

---
 kalepy/kernels.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index 5ceff65..23720de 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -548,7 +548,7 @@ class Box(_Distribution):
         else:
             samps = np.random.normal(0.0, 1.0, (ndim, size))
             rads = np.sum(samps**2, axis=0) ** 0.5
-            norm = np.random.random((ndim, size)) ** (1.0 / ndim)
+            norm = np.random.random(size) ** (1.0 / ndim)
             samps = norm * samps / rads[np.newaxis, :]
         return samps
 
@@ -581,6 +581,9 @@ class Parabola(_Distribution):
 
     @classmethod
     def _sample(cls, size, ndim):
+        if ndim > 1:
+            return _sample_beta_kernel(1, size, ndim)
+
         # Use the median trick to draw from the Epanechnikov distribution
         samp = np.random.uniform(-1.0, 1.0, (ndim, size, 3))
         samp = np.median(samp, axis=-1)
@@ -612,6 +615,9 @@ class Triweight(_Distribution):
 
     @classmethod
     def _sample(cls, size, ndim):
+        if ndim > 1:
+            return _sample_beta_kernel(3, size, ndim)
+
         samps = np.random.normal(0.0, 1.0, (ndim, size))
         rads = np.linalg.norm(samps, axis=0)
         norm = _triweight_inverse_func(np.random.random((ndim, size)))
@@ -698,6 +704,18 @@ def _beta_kernel_norm(order, ndim):
     return norm
 
 
+def _sample_beta_kernel(order, size, ndim):
+    """Sample from the spherically-symmetric kernel proportional to `(1 - r^2)^order`.
+
+    The direction is isotropic, and the squared radius follows a beta distribution.
+    """
+    samps = np.random.normal(0.0, 1.0, (ndim, size))
+    rads = np.linalg.norm(samps, axis=0)
+    norm = np.sqrt(np.random.beta(ndim / 2.0, order + 1.0, size))
+    samps = norm * samps / rads[np.newaxis, :]
+    return samps
+
+
 def _check_reflect(reflect, data, weights=None, helper=False):
     """Make sure the given `reflect` argument is valid given the data shape
     """
-- 
2.43.0


From 00fc585dac811e14ecaea67a8d09cb28afdc8b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:33 +0000
Subject: [PATCH 18/65] fix: `inside` methods of kernel distributions

---
 kalepy/kernels.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index 23720de..299c0e7 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -510,9 +510,9 @@ class Gaussian(_Distribution):
         return samps
 
     @staticmethod
-    def inside(cls, points):
+    def inside(points):
         if np.ndim(points) == 1:
-            shape = points.size
+            shape = np.size(points)
         else:
             ndim, *shape = np.shape(points)
         return np.ones(shape, dtype=bool)
@@ -679,7 +679,7 @@ def get_distribution_class(arg=None):
 
 def _inside_unit_nball(points):
     if np.ndim(points) == 1:
-        idx = (-1.0 < points < 1.0)
+        idx = (np.fabs(points) < 1.0)
     else:
         points = np.linalg.norm(points, axis=0)
         idx = (points < 1.0)
-- 
2.43.0


From 51cac398903f5285ff813c912af16dc3844274ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:33 +0000
Subject: [PATCH 19/65] fix: bound_indices with missing bounds, and outside of
 bounds in multiple dimensions

---
 kalepy/utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index d37f16c..4e6d613 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -70,18 +70,20 @@ def bound_indices(data, bounds, outside=False):
     If `outside` is True, then indices for values *outside* of the bounds are returned.
     """
     data = np.atleast_2d(data)
-    bounds = np.atleast_2d(bounds)
+    # Convert from a single pair (or `None`) to one for each dimension
+    if (bounds is None) or really1d(bounds):
+        bounds = [bounds]
     ndim, nvals = np.shape(data)
-    idx = np.ones(nvals, dtype=bool)
+    # Points are inside if they are inside in all dimensions, and outside if they are in any
+    idx = np.zeros(nvals, dtype=bool) if outside else np.ones(nvals, dtype=bool)
     for ii, bnd in enumerate(bounds):
         if bnd is None or ((len(bnd) == 1) and (bnd[0] is None)):
-            idx = idx & ~outside
             continue
 
         if outside:
             lo = (data[ii, :] < bnd[0]) if (bnd[0] is not None) else False
             hi = (bnd[1] < data[ii, :]) if (bnd[1] is not None) else False
-            idx = idx & (lo | hi)
+            idx = idx | (lo | hi)
         else:
             lo = True if (bnd[0] is None) else (bnd[0] < data[ii, :])
             hi = True if (bnd[1] is None) else (data[ii, :] < bnd[1])
-- 
2.43.0


From 5b669b53c4816bcd76c98abd5d62728c9621dfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:33 +0000
Subject: [PATCH 20/65] fix: rem_cov of data with more than two dimensions

---
 kalepy/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index 4e6d613..3ca5b1a 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -644,7 +644,7 @@ def jshape(arr, level=0, printout=False, prepend="", indent="  "):
 
 def rem_cov(data, cov=None):
     if cov is None:
-        cov = np.cov(*data)
+        cov = np.cov(data)
     color_mat = sp.linalg.cholesky(cov)
     uncolor_mat = np.linalg.inv(color_mat)
     white_data = np.dot(uncolor_mat.T, data)
-- 
2.43.0


From 38fccdb028b57fb0afd57a450383d962811657bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:48 +0000
Subject: [PATCH 21/65] fix: quantiles along a given axis, and of
 multidimensional weighted data

---
 kalepy/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index 3ca5b1a..08ec6d7 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -514,6 +514,8 @@ def quantiles(values, percs=None, sigmas=None, weights=None, axis=None, values_s
     if weights is None:
         weights = np.ones_like(values)
     weights = np.array(weights)
+    if axis is None:
+        weights = weights.flatten()
     assert np.all(percs >= 0.0) and np.all(percs <= 1.0), 'percentiles must be in [0, 1]'
 
     if not values_sorted:
@@ -522,7 +524,7 @@ def quantiles(values, percs=None, sigmas=None, weights=None, axis=None, values_s
         weights = np.take_along_axis(weights, sorter, axis=axis)
 
     weighted_quantiles = np.cumsum(weights, axis=axis) - 0.5 * weights
-    weighted_quantiles /= np.sum(weights, axis=axis)[..., np.newaxis]
+    weighted_quantiles /= np.sum(weights, axis=axis, keepdims=True)
     if axis is None:
         percs = np.interp(percs, weighted_quantiles, values)
     else:
-- 
2.43.0


From f416698a7d42f85a6a67082a49d5dc09890389d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:48 +0000
Subject: [PATCH 22/65] fix: isjagged and flatten for jagged lists

---
 kalepy/utils.py | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index 08ec6d7..6352c36 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -576,7 +576,7 @@ def flatten(arr):
         return arr
 
     # Flatten each component and combine recursively
-    return np.concatenate([flatten(aa) for aa in arr])
+    return np.concatenate([np.atleast_1d(flatten(aa)) for aa in arr])
 
 
 def flatlen(arr):
@@ -592,10 +592,7 @@ def flatlen(arr):
 def isjagged(arr):
     """Test if the given array is jagged.
     """
-    # if np.isscalar(arr) or (np.size(arr) == len(flatten(arr))):
-    if np.isscalar(arr) or (np.size(arr) == flatlen(arr)):
-        return False
-    return True
+    return (_regular_shape(arr) is None)
 
 
 def isinteger(val, iterable=True):
@@ -1204,6 +1201,25 @@ def _ndim(vals):
             return np.ndim(np.asarray(vals, dtype=object))
 
 
+def _regular_shape(arr):
+    """Shape of the given (nested) array_like, or `None` if it is jagged.
+    """
+    if not np.iterable(arr):
+        return ()
+
+    if isinstance(arr, np.ndarray) and (arr.dtype != object):
+        return arr.shape
+
+    if really1d(arr):
+        return (len(arr),)
+
+    shapes = [_regular_shape(aa) for aa in arr]
+    if (shapes[0] is None) or any([sh != shapes[0] for sh in shapes]):
+        return None
+
+    return (len(arr),) + shapes[0]
+
+
 def _parse_extrema(data, extrema=None, params=None, warn=True):
     """Get extrema (min and max) consistent with the given `data`.
 
-- 
2.43.0


From afa350363757938bdb9e8c9fe4794a3c64302c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:54 +0000
Subject: [PATCH 23/65] fix: normalize density gradients by the density of each
 bin for intrabin sampling

---
 kalepy/sample.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/kalepy/sample.py b/kalepy/sample.py
index a9366c9..7bd6f8a 100644
--- a/kalepy/sample.py
+++ b/kalepy/sample.py
@@ -130,11 +130,13 @@ class Sample_Grid:
             logging.info("`dens` is None, cannot interpolate sampling")
             interpolate = False
 
-        # ensure PDF `dens` is properly normalized for interpolation
+        # The gradients must be properly normalized for interpolation, in each bin separately
         #     this normalization is based on each bin having a domain of [0.0, 1.0] during intrabin linear
         #     interpolation sampling (`_intrabin_linear_interp()`)
         if interpolate:
-            dens = dens / (dens.sum() / dens.size)
+            dens_ave = utils.midpoints(dens, axis=None)
+            # avoid dividing by zero; all corners (and thus gradients) of these bins are zero
+            dens_ave[dens_ave == 0.0] = 1.0
 
         # If no number of samples are given, assume that the units of `self._mass` are number of samples, and choose
         # the total numbe of samples to be the total of this
@@ -182,7 +184,7 @@ class Sample_Grid:
                 edge = np.asarray(edge)
 
                 # Find the gradient along this dimension (using center-values in other dimensions)
-                _grad = _grad_along(dens, dim)
+                _grad = _grad_along(dens, dim) / dens_ave
                 # get the gradient for each sample
                 grad = _grad.flat[bin_numbers_flat]
                 # interpolate edge values in this dimension
@@ -527,7 +529,8 @@ def _intrabin_linear_interp(edge, wid, loc, bidx, grad):
     vals = np.zeros_like(grad)
 
     # sel = np.fabs(grad) > 1.0e-12
-    sel = np.fabs(grad) > 1.0e-16
+    # NOTE: inverting the CDF for much smaller gradients is dominated by rounding errors
+    sel = np.fabs(grad) > 1.0e-8
     # When the gradient is roughly flat, values maintain uniform random distribution
     vals[~sel] = loc[~sel]
 
-- 
2.43.0


From 1a8396664f2214aa135a6d426495ff56f9a96923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:54 +0000
Subject: [PATCH 24/65] fix: evaluate the scalars of grid samples as bin
 averages, at the positions of the samples

---
 kalepy/sample.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/kalepy/sample.py b/kalepy/sample.py
index 7bd6f8a..a259842 100644
--- a/kalepy/sample.py
+++ b/kalepy/sample.py
@@ -50,6 +50,13 @@ class Sample_Grid:
 
         """
         dens = np.asarray(dens)
+        if mass is not None:
+            mass = np.asarray(mass)
+        if scalar_dens is not None:
+            scalar_dens = np.asarray(scalar_dens)
+        if scalar_mass is not None:
+            scalar_mass = np.asarray(scalar_mass)
+
         shape = dens.shape
         ndim = dens.ndim
         # for 1D data, allow `edges` to be a 1D array;  convert manually to list of array
@@ -100,7 +107,7 @@ class Sample_Grid:
         if self._mass is None:
             self._mass = utils.trapz_dens_to_mass(self._dens, self._edges, axis=None)
         if (self._scalar_mass is None) and (self._scalar_dens is not None):
-            self._scalar_mass = utils.trapz_dens_to_mass(self._scalar_dens, self._edges, axis=None)
+            self._scalar_mass = utils.midpoints(self._scalar_dens, axis=None)
 
         idx, csum = _data_to_cumulative(self._mass)
         self._idx = idx
@@ -163,7 +170,7 @@ class Sample_Grid:
         #     this will be updated/improved if `interpolation=True`
         if return_scalar:
             scalar_mass = self._scalar_mass
-            scalar_values = scalar_mass[bin_numbers]
+            scalar_values = np.array(scalar_mass[bin_numbers], dtype=float)
 
         # ---- Place samples in each dimension
 
@@ -194,7 +201,8 @@ class Sample_Grid:
             if return_scalar and interpolate:
                 grad = _grad_along(scalar_dens, dim)
                 grad = grad.flat[bin_numbers_flat]
-                # shift `loc` (location within bin) to center point
+                # shift location of the sample within the bin to center point
+                loc = (vals[dim, :] - edge[bidx]) / wid[bidx]
                 scalar_values += grad * (loc - 0.5)
 
         if return_scalar:
-- 
2.43.0


From bc33b4160248dc1e3326427e9ee7d9c44d83ce0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:54 +0000
Subject: [PATCH 25/65] fix: sample_grid of one-dimensional distributions with
 scalars

---
 kalepy/sample.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kalepy/sample.py b/kalepy/sample.py
index a259842..2ad2a19 100644
--- a/kalepy/sample.py
+++ b/kalepy/sample.py
@@ -444,7 +444,11 @@ def sample_grid(edges, dens, nsamp=None, mass=None, scalar_dens=None, scalar_mas
     sampler = Sample_Grid(edges, dens, mass=mass, scalar_dens=scalar_dens, scalar_mass=scalar_mass)
     samples = sampler.sample(nsamp=nsamp, **sample_kwargs)
     if squeeze:
-        samples = samples.squeeze()
+        # If scalars are also being sampled, then `samples` is a tuple
+        if isinstance(samples, tuple):
+            samples = (samples[0].squeeze(),) + samples[1:]
+        else:
+            samples = samples.squeeze()
     return samples
 
 
-- 
2.43.0


From 3ed1b376ce8c6988eed4d4f9ace7ae8ef7f721d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:54 +0000
Subject: [PATCH 26/65] fix: sample_grid_proportional uses the given `mass`,
 and accepts lists

---
 kalepy/sample.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kalepy/sample.py b/kalepy/sample.py
index 2ad2a19..d0ace0a 100644
--- a/kalepy/sample.py
+++ b/kalepy/sample.py
@@ -453,10 +453,12 @@ def sample_grid(edges, dens, nsamp=None, mass=None, scalar_dens=None, scalar_mas
 
 
 def sample_grid_proportional(edges, dens, portion, nsamp, mass=None, **sample_kwargs):
+    dens = np.asarray(dens)
+    portion = np.asarray(portion)
     scalar_dens = dens / portion
     # Avoid NaN values
     scalar_dens[portion == 0.0] = 0.0
-    sampler = Sample_Grid(edges, portion, scalar_dens=scalar_dens)
+    sampler = Sample_Grid(edges, portion, mass=mass, scalar_dens=scalar_dens)
     vals, weight = sampler.sample(nsamp, **sample_kwargs)
     return vals, weight
 
-- 
2.43.0


From a52a814d5f67b69568ee4201620ebfed937b7499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:03 +0000
Subject: [PATCH 27/65] fix: resampling a single point from 1D data has shape
 (1,)

---
 kalepy/kernels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index 299c0e7..179b188 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -169,7 +169,7 @@ class Kernel(object):
             samples = self._resample_reflect(data, size, reflect, weights=weights, keep=keep)
 
         if (ndim == 1) and squeeze:
-            samples = samples.squeeze()
+            samples = samples.squeeze(axis=0)
 
         return samples
 
-- 
2.43.0


From e2a689e551127f0c1b6c50d537119f2b530d49ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:03 +0000
Subject: [PATCH 28/65] fix: negative axes in trapz_dens_to_mass

---
 kalepy/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index 6352c36..fed789d 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -894,7 +894,7 @@ def trapz_dens_to_mass(pdf, edges, axis=None):
     if axis is None:
         axis = np.arange(ndim)
 
-    axis = np.atleast_1d(axis)
+    axis = [ax + ndim if (ax < 0) else ax for ax in np.atleast_1d(axis)]
     axis_ndim = len(axis)
     axis = sorted(axis)
 
-- 
2.43.0


From 213913ad2ebd27aab40a8480438e6df6b56f3940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:03 +0000
Subject: [PATCH 29/65] fix: subdividing zero times returns the original values

---
 kalepy/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index fed789d..dbefdec 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -818,7 +818,8 @@ def subdivide(xx, num=1, log=False):
     dd = np.diff(np.concatenate([div, [0.0]]))[:, np.newaxis]
     dd = dd * np.linspace(0.0, 1.0, num+1, endpoint=False)[np.newaxis, :]
     div = div[:, np.newaxis] + dd
-    div = div.flatten()[:-num]
+    div = div.flatten()
+    div = div[:div.size - num]
     if log:
         div = 10.0 ** div
 
-- 
2.43.0


From 0c75adef81011b0d78bc83d2d223bd27f311b52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:04 +0000
Subject: [PATCH 30/65] fix: minmax of integers is not truncated, and without
 positive values returns `prev`

---
 kalepy/utils.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index dbefdec..af9ba61 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -379,13 +379,19 @@ def minmax(data, positive=False, prev=None, stretch=None, log_stretch=None, limi
     if limit is not None:
         assert len(limit) == 2, "`limit` must have length 2."
 
+    if positive:
+        data = np.asarray(data)
+        data = data[data > 0.0]
+
     # If there are no elements (left), return `prev` (`None` if not provided)
     if np.size(data) == 0:
         return prev
 
     # Find extrema
-    idx = (data > 0.0) if positive else slice(None)
-    minmax = np.array([np.min(data[idx]), np.max(data[idx])])
+    minmax = np.array([np.min(data), np.max(data)])
+    # Make sure that stretched values, etc, are not truncated to integers
+    if np.issubdtype(minmax.dtype, np.integer):
+        minmax = minmax.astype(float)
 
     # Add stretch (relative to center point)
     if (stretch is not None) or (log_stretch is not None):
-- 
2.43.0


From 5662c04f172b31cd3185c8c99cec15d244822461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:04 +0000
Subject: [PATCH 31/65] fix: histograms of lists, and of weighted data with
 automatic bins

---
 kalepy/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index af9ba61..dca3152 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -302,11 +302,14 @@ def cumtrapz(pdf, edges, prepend=True, axis=None):
 def histogram(data, bins=None, weights=None, density=False, probability=False):
     if bins is None:
         bins = 'auto'
+    # `numpy` does not choose bins for weighted data
+    if isinstance(bins, str) and (weights is not None):
+        bins = np.histogram_bin_edges(data, bins=bins)
     hist, edges = np.histogram(data, bins=bins, weights=weights, density=False)
     if density:
         hist = hist.astype(float) / np.diff(edges)
     if probability:
-        tot = data.size if (weights is None) else np.sum(weights)
+        tot = np.size(data) if (weights is None) else np.sum(weights)
         hist = hist.astype(float) / tot
     return hist, edges
 
-- 
2.43.0


From 1ddc5c8683fdd37ef5e84d23129fef71975b112b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:04 +0000
Subject: [PATCH 32/65] fix: Corner plots do not share drawing options between
 calls, nor modify those given

---
 kalepy/plot.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index fc84b59..9e51a23 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -286,6 +286,9 @@ class Corner:
         **kwargs : additiona keyword-arguments passed directly to `Corner.plot_kde`.
 
         """
+        # Options are filled in below: do not modify the given (or default) dictionaries
+        dist1d, dist2d = dict(dist1d), dict(dist2d)
+
         if kde_data is None:
             # If either data or a KDE was given on initialization, `self._kde` will be set
             kde_data = self._kde
@@ -334,6 +337,9 @@ class Corner:
         **kwargs : additiona keyword-arguments passed directly to `Corner.plot_kde`.
 
         """
+        # Options are filled in below: do not modify the given (or default) dictionaries
+        dist1d, dist2d = dict(dist1d), dict(dist2d)
+
         if kde_data is None:
             # If either data or a KDE was given on initialization, `self._kde` will be set
             kde_data = self._kde
@@ -416,6 +422,8 @@ class Corner:
         dist2d : dict of keyword-arguments passed to the `kale.plot.dist2d` method.
 
         """
+        # Options are filled in below: do not modify the given (or default) dictionaries
+        dist1d, dist2d = dict(dist1d), dict(dist2d)
 
         if kde_data is None:
             # If either data or a KDE was given on initialization, `self._kde` will be set
@@ -502,6 +510,9 @@ class Corner:
         dist2d : dict of keyword-arguments passed to the `kale.plot.dist2d` method.
 
         """
+        # Options are filled in below: do not modify the given (or default) dictionaries
+        dist1d, dist2d = dict(dist1d), dict(dist2d)
+
         if kde is None:
             # If either data or a KDE was given on initialization, `self._kde` will be set
             kde = self._kde
@@ -628,6 +639,8 @@ class Corner:
         dist2d : dict of keyword-arguments passed to the `kale.plot.dist2d` method.
 
         """
+        # Options are filled in below: do not modify the given (or default) dictionaries
+        dist1d, dist2d = dict(dist1d), dict(dist2d)
 
         if data is None:
             # If either data or a KDE was given on initialization, `self._data` will be set
-- 
2.43.0


From 56289a06e6e66f87f2521eab932748ad740e8fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:04 +0000
Subject: [PATCH 33/65] fix: Corner.hist and Corner.plot_data use the weights
 of the data

---
 kalepy/plot.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index 9e51a23..b300e28 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -364,7 +364,7 @@ class Corner:
         dist2d.setdefault('mask_below', False)
 
         # Plot
-        rv = self.plot_data(data, dist1d=dist1d, dist2d=dist2d, **kwargs)
+        rv = self.plot_data(data, weights=weights, dist1d=dist1d, dist2d=dist2d, **kwargs)
         return rv
 
     def plot(self, kde_data=None, edges=None, weights=None, quantiles=None,
@@ -648,6 +648,8 @@ class Corner:
             if data is None:
                 err = "kde or data required either during initialization or here!"
                 raise ValueError(err)
+            if weights is None:
+                weights = self._weights
 
         # If a KDE is given, extract the dataset
         kde, data, weights = _parse_kde_data(data, weights=weights)
-- 
2.43.0


From 5f89dc32ed8c9dd82d2b4f7bd68722a0401714ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:04 +0000
Subject: [PATCH 34/65] fix: draw 2D lower limits up to the upper end of the
 axes

---
 kalepy/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index b300e28..948452b 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -863,7 +863,7 @@ class Corner:
                 if upper_limits[kk] is not None:
                     func_lim(extr[kk][0], upper_limits[kk], **span_kw)
                 if lower_limits[kk] is not None:
-                    func_lim(lower_limits[kk], extr[kk][0], **span_kw)
+                    func_lim(lower_limits[kk], extr[kk][1], **span_kw)
 
         return
 
-- 
2.43.0


From c821b8034a6013283202d8a07791aeca93dbd5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:04 +0000
Subject: [PATCH 35/65] fix: Corner limits given as tuples or arrays, without
 modifying them

---
 kalepy/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index 948452b..252d6c9 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -247,7 +247,7 @@ class Corner:
         # If axes limits are given, set axes to them
         if limits is not None:
             limit_flag = False
-            _set_corner_axes_extrema(self.axes, limits, rotate)
+            limits = list(_set_corner_axes_extrema(self.axes, limits, rotate))
         # Otherwise, prepare to calculate limits during plotting
         else:
             limits = [None] * size
-- 
2.43.0


From 8d1cb7556d944321958f9bf5732a65d1d472e635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:04 +0000
Subject: [PATCH 36/65] fix: confidence bands of distribution plots use the
 weights

---
 kalepy/plot.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index 252d6c9..89aac27 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -1115,8 +1115,8 @@ def confidence(data, ax=None, weights=None, quantiles=[0.5, 0.9],
         cdf = np.arange(data.size) / (data.size - 1)
     else:
         idx = np.argsort(data)
-        data = data[idx]
-        weights = weights[idx]
+        data = np.asarray(data)[idx]
+        weights = np.asarray(weights)[idx]
         cdf = np.cumsum(weights) / np.sum(weights)
 
     # Get both the lower (left) and upper (right) values of quantiles
@@ -1370,7 +1370,7 @@ def dist1d(kde_data, ax=None, edges=None, weights=None, probability=True, param=
 
     # Draw Contours and Median Line
     if confidence:
-        hh = _confidence(data, ax=ax, color=color, quantiles=quantiles, rotate=rotate)
+        hh = _confidence(data, ax=ax, weights=weights, color=color, quantiles=quantiles, rotate=rotate)
         if handle is None:
             handle = hh
 
-- 
2.43.0


From 2c6fc4def0ecc33c4e559b55262364fe1be2d64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:04 +0000
Subject: [PATCH 37/65] fix: corner and distribution plots of data given as
 lists

---
 kalepy/plot.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index 89aac27..35512b3 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -1502,8 +1502,8 @@ def dist2d(kde_data, ax=None, edges=None, weights=None, params=[0, 1], quantiles
         weights = None if kde._weights_uniform else kde.weights
     else:
         try:
-            data = kde_data
-            kde = kale.KDE(data, weights=weights)
+            kde = kale.KDE(kde_data, weights=weights)
+            data = kde.dataset
         except:
             err = "Failed to construct KDE from given data!"
             logging.error(err)
@@ -2050,8 +2050,8 @@ def _parse_kde_data(kde_data, weights=None):
     # If the raw data is given, construct a KDE from it
     else:
         try:
-            data = kde_data
             kde = kale.KDE(kde_data, weights=weights)
+            data = kde.dataset
         except:
             err = "Failed to construct `KDE` instance from given data!"
             logging.error(err)
-- 
2.43.0


From 8e6e52e221af30260f07a22e0c893308137b24cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:04 +0000
Subject: [PATCH 38/65] fix: dist2d uses the order of `params`, and the
 matching boundaries, for 2D data

---
 kalepy/plot.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index 35512b3..38eb310 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -1495,7 +1495,7 @@ def dist2d(kde_data, ax=None, edges=None, weights=None, params=[0, 1], quantiles
         kde = kde_data
         data = kde.dataset
         ndim = np.shape(data)[0]
-        if ndim > 2:
+        if ndim > 1:
             if len(params) != 2:
                 raise ValueError("`dist2d` requires two chosen `params` (dimensions)!")
             data = np.vstack([data[ii] for ii in params])
@@ -1524,7 +1524,8 @@ def dist2d(kde_data, ax=None, edges=None, weights=None, params=[0, 1], quantiles
         mask_dense = (scatter is not None) and (hist or contour)
 
     # Calculate histogram
-    edges = utils.parse_edges(data, edges=edges, extrema=kde.reflect, params=params)
+    extrema = None if (kde.reflect is None) else [kde.reflect[pp] for pp in params]
+    edges = utils.parse_edges(data, edges=edges, extrema=extrema)
     hh, *_ = np.histogram2d(*data, bins=edges, weights=weights, density=True)
 
     _, levels, quantiles = _dfm_levels(hh, quantiles=quantiles, sigmas=sigmas)
-- 
2.43.0


From a353fd60a34c649678aac6db8905494e06c4a92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:04 +0000
Subject: [PATCH 39/65] fix: draw contours of integer histograms

---
 kalepy/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index 38eb310..e1b942e 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -2094,7 +2094,7 @@ def _dfm_levels(data, quantiles=None, sigmas=None):
     inds = np.argsort(data)[::-1]
     data = data[inds]
     sm = np.cumsum(data)
-    sm /= sm[-1]
+    sm = sm / sm[-1]
     levels = np.empty(len(quantiles))
     for i, v0 in enumerate(quantiles):
         try:
-- 
2.43.0


From 5a147ad4db3efb34d142a5c43780fee5c4fdfd2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:04 +0000
Subject: [PATCH 40/65] fix: hist2d masks only bins with less than the average
 weight of a data point

---
 kalepy/plot.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index e1b942e..8265140 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -1770,12 +1770,17 @@ def hist2d(data, edges=None, ax=None, weights=None, mask_below=False, **kwargs):
     if ax is None:
         ax = plt.gca()
 
-    if mask_below is True:
-        mask_below = 0.9 / len(data[0])
-
     # Calculate histogram
     edges = utils.parse_edges(data, edges=edges)
     hist, *_ = np.histogram2d(*data, bins=edges, weights=weights, density=True)
+
+    # NOTE: the histogram above is a density, compare the weight in each bin instead
+    if mask_below is True:
+        mask_below = False
+        count, *_ = np.histogram2d(*data, bins=edges, weights=weights)
+        average = 1.0 if (weights is None) else np.mean(weights)
+        hist = np.ma.masked_less(hist * 1.0, 0.0)
+        hist = np.ma.masked_where(count < 0.9 * average, hist)
     # Draw
     rv = draw_hist2d(ax, edges, hist, mask_below=mask_below, **kwargs)
     return rv
-- 
2.43.0


From 3454836eca0af8fe6290ac2605a90ba0bca62677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:31 +0000
Subject: [PATCH 41/65] fix: accept boundaries that are None in every
 dimension, in any number of dimensions

---
 kalepy/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index dca3152..8d2a84f 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -1273,7 +1273,7 @@ def _parse_extrema(data, extrema=None, params=None, warn=True):
             pass
         # If jagged (D,) array
         elif len(extrema) == npars:
-            if really1d(extrema) or not np.all([(ee is None) or (len(ee) == 2) for ee in extrema]):
+            if not np.all([(ee is None) or ((np.ndim(ee) > 0) and (len(ee) == 2)) for ee in extrema]):
                 err = "Each element of jagged `extrema` must be `None` or have length 2!"
                 raise ValueError(err)
         # Otherwise bad
-- 
2.43.0


From ed8e6a974ec6d393f6ece9156dcf9c3e2347ebc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:48 +0000
Subject: [PATCH 42/65] fix: do not round the mirror images of integer data

---
 kalepy/kernels.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index 179b188..2be5c37 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -123,7 +123,7 @@ class Kernel(object):
                     continue
 
                 # shape (D,N) i.e. (dimensions, data-points)
-                refl_data = np.array(data)
+                refl_data = np.array(data, dtype=float)
                 refl_data[ii, :] = 2*loc - refl_data[ii, :]
                 result += _evaluate_numba(whitening, refl_data, points, weights, kfunc)
 
@@ -316,7 +316,7 @@ class Kernel(object):
                     continue
 
                 bounds[ii, jj] = loc
-                new_data = np.array(old_data)
+                new_data = np.array(old_data, dtype=float)
                 new_data[ii, :] = loc - (new_data[ii, :] - loc)
                 # NOTE: this returns a copy, so original `data` is *not* changed in-place
                 data = np.append(data, new_data, axis=-1)
-- 
2.43.0


From 82f4b8f656b7b3a7ba102546a8792fbcabaf6592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:01 +0000
Subject: [PATCH 43/65] fix: keep parameters whose reflection boundaries are
 both None

---
 kalepy/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index 8d2a84f..618a520 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -217,8 +217,10 @@ def cov_keep_vars(matrix, keep, reflect=None):
     for pp in keep:
         matrix[pp, :] = 0.0
         matrix[:, pp] = 0.0
-        # Make sure this isn't also a reflection axis
-        if (reflect is not None) and (reflect[pp] is not None):
+        # Make sure this isn't also a reflection axis (a pair of `None` values is no boundary at all)
+        if (reflect is None) or (reflect[pp] is None):
+            continue
+        if (not np.iterable(reflect[pp])) or any(loc is not None for loc in reflect[pp]):
             err = "Cannot both 'keep' and 'reflect' about dimension '{}'".format(pp)
             raise ValueError(err)
 
-- 
2.43.0


From cc162cc573d5047c8a963ac28e6717826af8c417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:48 +0000
Subject: [PATCH 44/65] fix: reject CDF points with the wrong number of
 dimensions

---
 kalepy/kde.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kalepy/kde.py b/kalepy/kde.py
index 4fbf9da..75ca8de 100644
--- a/kalepy/kde.py
+++ b/kalepy/kde.py
@@ -538,6 +538,9 @@ class KDE:
 
         # `scipy.interplate.RegularGridInterpolator` expects shape (N,D,) -- so transpose
         pnts = np.asarray(pnts).T
+        if self.ndim > 1 and (pnts.ndim == 0 or pnts.shape[-1] != self.ndim):
+            err = "`pnts` (shape: {}) must have one row for each of {} dimensions!".format(pnts.T.shape, self.ndim)
+            raise ValueError(err)
         # The CDF is constant beyond the grid, instead of being extrapolated
         lo = [gg[0] for gg in self._cdf_grid[0]]
         hi = [gg[-1] for gg in self._cdf_grid[0]]
-- 
2.43.0


From 04c6e9acb19a66d914a2ddd728a01b72e1c506d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:33 +0000
Subject: [PATCH 45/65] fix: cumtrapz prepends zeros only along the integrated
 axis

---
 kalepy/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index 618a520..f73722c 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -292,7 +292,7 @@ def cumtrapz(pdf, edges, prepend=True, axis=None):
     if prepend:
         ndim = _ndim(cdf)
         temp = [1, 0] if axis is None else [0, 0]
-        padding = [temp for ii in range(ndim)]
+        padding = [list(temp) for ii in range(ndim)]
         if axis is not None:
             padding[axis][0] = 1
         # cdf = _pre_pad_zero(cdf, axis=axis)
-- 
2.43.0


From 57d0f693d77c3e2f617eba38ef4ad46e7db4e0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:35 +0000
Subject: [PATCH 46/65] fix: really1d of arrays whose elements are themselves
 jagged

---
 kalepy/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index f73722c..049d691 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -572,8 +572,8 @@ def really1d(arr):
         return False
     if len(arr) == 0:
         return True
-    # Each element must be a scalar
-    if np.any([np.shape(tt) != () for tt in arr]):
+    # Each element must be a scalar (n.b. elements can themselves be jagged, so they may have no `np.shape`)
+    if np.any([np.iterable(tt) and not isinstance(tt, (str, bytes)) for tt in arr]):
         return False
 
     return True
-- 
2.43.0


From 39982decb83b202631fa4256b8eecf5be2f7687f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:35 +0000
Subject: [PATCH 47/65] fix: jshape gives the complete shapes of elements
 nested to different depths

---
 kalepy/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index 049d691..63e4886 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -636,6 +636,8 @@ def isinteger(val, iterable=True):
 def jshape(arr, level=0, printout=False, prepend="", indent="  "):
     """Print the complete shape (even if jagged) of the given array.
     """
+    # n.b. rows of the object-array do not know the shapes of the (list) elements they contain
+    elements = arr
     arr = np.asarray(arr, dtype=object)
     if printout:
         print(prepend + indent*level + str(np.shape(arr)))
@@ -644,7 +646,7 @@ def jshape(arr, level=0, printout=False, prepend="", indent="  "):
         return np.shape(arr)
 
     shape = []
-    for aa in arr:
+    for aa in elements:
         sh = jshape(aa, level+1, prepend=prepend, indent=indent, printout=printout)
         shape.append(sh)
 
-- 
2.43.0


From 6e308d3e4667ac5464a439b8997b440747b41df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:10 +0000
Subject: [PATCH 48/65] fix: dist2d draws a single contour on its own

---
 kalepy/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index 8265140..0a3e9e1 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -1584,7 +1584,7 @@ def dist2d(kde_data, ax=None, edges=None, weights=None, params=[0, 1], quantiles
             cmap=contour_cmap, zorder=20, ls=ls, outline=outline,
         )
         if handle is None:
-            hi = 1 if len(_handle.collections) > 0 else 0
+            hi = 1 if len(_handle.collections) > 1 else 0
             handle = _handle.collections[hi]
             # for some reason the above handle is not showing up on legends... create a dummy line
             # to get a better handle
-- 
2.43.0


From 301c5274719cda92a8a49693c997dfe15578db85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:36 +0000
Subject: [PATCH 49/65] fix: bins at exactly the mask_below value are not below
 it

---
 kalepy/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index 0a3e9e1..f6c812a 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -1840,7 +1840,7 @@ def draw_hist1d(ax, edges, hist, renormalize=False, nonzero=False, positive=Fals
 
 def draw_hist2d(ax, edges, hist, mask_below=None, **kwargs):
     if mask_below not in [False, None]:
-        hist = np.ma.masked_less_equal(hist, mask_below)
+        hist = np.ma.masked_less(hist, mask_below)
     kwargs.setdefault('shading', 'auto')
     # kwargs.setdefault('edgecolors', 'face')
     # NOTE: this avoids edge artifacts when alpha is not unity!
-- 
2.43.0


From 6cdf4eda2599e85ea1f4f32a75c9c6ff574e391e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:45 +0000
Subject: [PATCH 50/65] fix: mask_dense without any values above the lowest
 level

---
 kalepy/plot.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index f6c812a..7543bf6 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -1620,8 +1620,9 @@ def dist2d(kde_data, ax=None, edges=None, weights=None, params=[0, 1], quantiles
             _, levels, quantiles = _dfm_levels(hh, quantiles=quantiles)
             span = [levels.min(), hh.max()]
             mask_cmap = mpl.colors.ListedColormap('white')
-            # Draw
-            ax.contourf(*ee, hh, span, cmap=mask_cmap, antialiased=True, zorder=9, alpha=mask_alpha)
+            # Draw (if there is anything above the lowest level)
+            if span[0] < span[1]:
+                ax.contourf(*ee, hh, span, cmap=mask_cmap, antialiased=True, zorder=9, alpha=mask_alpha)
 
     return handle
 
-- 
2.43.0


From 462d8212912753dcf2403bc6cd4dc8ab89943030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:28 +0000
Subject: [PATCH 51/65] fix: carpets on axes with negative limits

---
 kalepy/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index 7543bf6..7fcbe05 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -1003,7 +1003,7 @@ def carpet(xx, weights=None, ax=None, ystd=None, yave=None, shift=0.0, limit=Non
     if ystd is None:
         if yave is None:
             get_lim_func = ax.get_xlim if rotate else ax.get_ylim
-            ystd = get_lim_func()[1] * 0.02
+            ystd = np.fabs(get_lim_func()[1]) * 0.02
         else:
             ystd = np.fabs(yave) / 5.0
 
-- 
2.43.0


From 6fca6d5a730a563ba2c17b7ae3ac537156c1c589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:36 +0000
Subject: [PATCH 52/65] fix: several negative axes in trapz_nd

---
 kalepy/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index 63e4886..1c99fb9 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -852,7 +852,7 @@ def trapz_nd(data, edges, axis=None):
     if axis is None:
         axis = np.arange(ndim)
     else:
-        axis = np.atleast_1d(axis)
+        axis = [ax + ndim if (ax < 0) else ax for ax in np.atleast_1d(axis)]
 
     axis = sorted(axis)[::-1]
     tot = np.array(data)
-- 
2.43.0


From b02c8ad64ae2454710641cbc2b88aa92451e2564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:08 +0000
Subject: [PATCH 53/65] fix: smoothing of contours without upsampling given as
 False

---
 kalepy/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index 7fcbe05..d71e3bc 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -1652,8 +1652,8 @@ def _prep_hist(edges, hist, smooth, upsample, pad):
     # perform smoothing
     if (smooth not in [None, False]):
         import scipy as sp
-        if upsample is not None:
-            smooth *= upsample
+        if (upsample not in [None, False]):
+            smooth = smooth * upsample
         hist = sp.ndimage.gaussian_filter(hist, smooth)
 
     # Update edges based on pre-processing
-- 
2.43.0


From 3084168e8eb7bf3fe9b5104ca5c4b18381d12333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:08 +0000
Subject: [PATCH 54/65] fix: limited numbers of carpet and scatter points of
 data or weights given as lists

---
 kalepy/plot.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index d71e3bc..9e4785e 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -990,6 +990,7 @@ def carpet(xx, weights=None, ax=None, ystd=None, yave=None, shift=0.0, limit=Non
     """
 
     xx = np.asarray(xx)
+    weights = weights if (weights is None) else np.asarray(weights)
     if (limit is not None) and (limit < xx.size):
         logging.debug("limiting carpet points from {:.2e} ==> {:.2e}".format(xx.size, limit))
         sel = np.random.choice(xx.size, limit, replace=False)
@@ -1911,6 +1912,8 @@ def draw_scatter(ax, xx, yy, alpha=None, s=4, limit=None, **kwargs):
     #     fc = ax._get_lines.get_next_color()
     # kwargs.setdefault('facecolor', color)
     # kwargs.setdefault('edgecolor', 'none')
+    xx = np.asarray(xx)
+    yy = np.asarray(yy)
     if (limit is not None) and (limit < xx.size):
         logging.debug("limiting scatter points from {:.2e} ==> {:.2e}".format(xx.size, limit))
         sel = np.random.choice(xx.size, limit, replace=False)
-- 
2.43.0


From 2739c1003725df24908527dab6f3c04b8cf208ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:35 +0000
Subject: [PATCH 55/65] fix: sizes of carpet points increase with their weights

---
 kalepy/plot.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index 9e4785e..d071ca7 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -1016,9 +1016,13 @@ def carpet(xx, weights=None, ax=None, ystd=None, yave=None, shift=0.0, limit=Non
     if weights is None:
         ww = 1.0
     else:
+        ww = np.zeros(np.shape(weights))
+        pos = (weights > 0.0)
+        weights = weights[pos]
+        # NOTE: measured from the lowest weight, such that the order of weights is always kept
         if utils.iqrange(weights, log=True) > 1:
-            weights = np.log10(weights)
-        ww = weights / np.median(weights)
+            weights = 1.0 + np.log10(weights / weights.min())
+        ww[pos] = weights / np.median(weights)
 
     # General random y-values for the fuzz
     if random.lower() == 'normal':
-- 
2.43.0


From 80ae167d7834eb4da983ae7d537c3c778cca86a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:57 +0000
Subject: [PATCH 56/65] fix: carpets of a limited number of points that all
 have zero weight

---
 kalepy/plot.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index d071ca7..cecb0d8 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -1019,10 +1019,12 @@ def carpet(xx, weights=None, ax=None, ystd=None, yave=None, shift=0.0, limit=Non
         ww = np.zeros(np.shape(weights))
         pos = (weights > 0.0)
         weights = weights[pos]
-        # NOTE: measured from the lowest weight, such that the order of weights is always kept
-        if utils.iqrange(weights, log=True) > 1:
-            weights = 1.0 + np.log10(weights / weights.min())
-        ww[pos] = weights / np.median(weights)
+        # (all of a limited number of points may have zero weight)
+        if weights.size > 0:
+            # NOTE: measured from the lowest weight, such that the order of weights is always kept
+            if utils.iqrange(weights, log=True) > 1:
+                weights = 1.0 + np.log10(weights / weights.min())
+            ww[pos] = weights / np.median(weights)
 
     # General random y-values for the fuzz
     if random.lower() == 'normal':
-- 
2.43.0


From d19d0ea8d992770b85cc0325f748e3eef0b671ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:58 +0000
Subject: [PATCH 57/65] fix: fancy carpets of a single datum or of identical
 data

---
 kalepy/plot.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index cecb0d8..f1243fc 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -1047,7 +1047,10 @@ def carpet(xx, weights=None, ax=None, ystd=None, yave=None, shift=0.0, limit=Non
     # Try to make point sizes proportional to 'outlier'-ness... EXPERIMENTAL
     if fancy:
         # Estimate the deviation of each point from the median
-        dev = np.fabs(xx - np.median(xx)) / np.std(xx)
+        dev = np.fabs(xx - np.median(xx))
+        # (a single point, or identical points, do not deviate)
+        if np.any(dev > 0.0):
+            dev = dev / np.std(xx)
         # Extend deviation based on weighting
         dev *= ww
         # Rescale the y-values based on their deviation from median
-- 
2.43.0


From 7c666424f3cb87b52f24c01424214ca657fb3437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:16 +0000
Subject: [PATCH 58/65] fix: midpoints of small (e.g. unsigned 8-bit) integers

---
 kalepy/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index 1c99fb9..e83c205 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -1040,7 +1040,8 @@ def _midpoints_1d(arr, axis=-1):
 
     # start = arr[left]
     # mids = start + frac*diff
-    mids = 0.5 * (arr[left] + arr[right])
+    # (the sum of small integers can overflow)
+    mids = 0.5 * arr[left] + 0.5 * arr[right]
 
     return mids
 
-- 
2.43.0


From 4defcf7010c7c4d3dca7129a31e6f55f0a18f86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:16 +0000
Subject: [PATCH 59/65] fix: trapezoid integrals of small integers and of
 integer edges

---
 kalepy/utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index e83c205..762155f 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -855,9 +855,12 @@ def trapz_nd(data, edges, axis=None):
         axis = [ax + ndim if (ax < 0) else ax for ax in np.atleast_1d(axis)]
 
     axis = sorted(axis)[::-1]
+    # (sums and differences of small integers can overflow)
     tot = np.array(data)
+    if np.issubdtype(tot.dtype, np.integer):
+        tot = tot.astype(float)
     for ii in axis:
-        xx = edges[ii]
+        xx = np.asarray(edges[ii], dtype=float)
         tot = np.trapz(tot, x=xx, axis=ii)
 
     return tot
@@ -927,7 +930,8 @@ def trapz_dens_to_mass(pdf, edges, axis=None):
         dim_len_inn = shp_inn[ii]
         if ii in axis:
             shp_out[ii] = dim_len_inn - 1
-            wid = np.diff(edges[ii])
+            # (products of integer widths can overflow)
+            wid = np.diff(np.asarray(edges[ii], dtype=float))
         else:
             shp_out[ii] = dim_len_inn
             wid = np.ones(dim_len_inn)
-- 
2.43.0


From 6881fc9c0283d922d466821cd2f649a258fe6bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:16 +0000
Subject: [PATCH 60/65] fix: grid sampling of densities and edges given as
 unsigned or small integers

---
 kalepy/sample.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/kalepy/sample.py b/kalepy/sample.py
index d0ace0a..bfb1477 100644
--- a/kalepy/sample.py
+++ b/kalepy/sample.py
@@ -49,11 +49,12 @@ class Sample_Grid:
             using the trapezoid rule.  See: `_init_data()`.
 
         """
-        dens = np.asarray(dens)
+        # (differences of unsigned or small integers can overflow)
+        dens = np.asarray(dens, dtype=float)
         if mass is not None:
             mass = np.asarray(mass)
         if scalar_dens is not None:
-            scalar_dens = np.asarray(scalar_dens)
+            scalar_dens = np.asarray(scalar_dens, dtype=float)
         if scalar_mass is not None:
             scalar_mass = np.asarray(scalar_mass)
 
@@ -62,7 +63,7 @@ class Sample_Grid:
         # for 1D data, allow `edges` to be a 1D array;  convert manually to list of array
         if ndim == 1 and utils.really1d(edges):
             edges = [edges]
-        edges = [np.asarray(ee) for ee in edges]
+        edges = [np.asarray(ee, dtype=float) for ee in edges]
         if len(edges) != ndim:
             err = "`edges` (len(edges)={}) must be a 1D array for each dimension of `dens` (dens.shape={})!".format(
                 len(edges), dens.shape)
-- 
2.43.0


From 4b61f44a6ab8a9ac1907d4fe3876c6c130ab2f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:16 +0000
Subject: [PATCH 61/65] fix: widths of bins whose edges are small integers

---
 kalepy/utils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index 762155f..6dc145b 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -148,15 +148,16 @@ def centroids(edges, data):
         y1, y2 = np.sum(zz, axis=tuple(jj))
 
         # bin width in this dimension, for each bin
-        dx = np.diff(edges[ii])
+        edge = np.asarray(edges[ii], dtype=float)
+        dx = np.diff(edge)
         # make `dx` broadcastable to the same shape as bins (i.e. `shp_bins`)
         cut = [np.newaxis for dd in range(ndim-1)]
         cut.insert(ii, slice(None))
         cut = tuple(cut)
         _dx = dx[cut]
 
-        xstack = [edges[ii][:-1], edges[ii][1:]]
-        xstack = [np.asarray(xs)[cut] for xs in xstack]
+        xstack = [edge[:-1], edge[1:]]
+        xstack = [xs[cut] for xs in xstack]
         xstack = np.asarray(xstack)
         ystack = [y1, y2]
         # we need to know which direction each triangle is facing, find the index of the min y-value
@@ -309,7 +310,7 @@ def histogram(data, bins=None, weights=None, density=False, probability=False):
         bins = np.histogram_bin_edges(data, bins=bins)
     hist, edges = np.histogram(data, bins=bins, weights=weights, density=False)
     if density:
-        hist = hist.astype(float) / np.diff(edges)
+        hist = hist.astype(float) / np.diff(np.asarray(edges, dtype=float))
     if probability:
         tot = np.size(data) if (weights is None) else np.sum(weights)
         hist = hist.astype(float) / tot
-- 
2.43.0


From 15eaf027245309a74a4c6caac3e81b1ebec70d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:39 +0000
Subject: [PATCH 62/65] fix: KDE from a histogram whose bins are small integers

---
 kalepy/kde.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kalepy/kde.py b/kalepy/kde.py
index 75ca8de..8866007 100644
--- a/kalepy/kde.py
+++ b/kalepy/kde.py
@@ -438,7 +438,7 @@ class KDE:
         if utils.really1d(bins):
 
             # Convert bins into points
-            bins = np.asarray(bins)
+            bins = np.asarray(bins, dtype=float)
             dx = bins[1] - bins[0]
             points = bins[:-1] + 0.5 * dx
 
@@ -466,7 +466,7 @@ class KDE:
 
             for bins_i in bins:
                 # Convert bins into points
-                bins_i = np.asarray(bins_i)
+                bins_i = np.asarray(bins_i, dtype=float)
                 dx = bins_i[1] - bins_i[0]
                 centers_i = bins_i[:-1] + 0.5 * dx
                 centers.append(centers_i)
-- 
2.43.0


From da1aa9c6f31c5bbc21da89c98211663c9943b26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:13 +0000
Subject: [PATCH 63/65] fix: guessed edges of weights given as lists or small
 integers, and of full-range small integer data

---
 kalepy/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index 6dc145b..411192f 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -1105,6 +1105,7 @@ def _guess_edges(data, extrema=None, ndim=None, weights=None, num_min=None, num_
                 np.shape(weights), np.shape(data))
             raise ValueError(err)
 
+        weights = np.asarray(weights, dtype=float)
         num_eff = np.sum(weights)**2 / np.sum(weights**2)
 
     if (ndim is not None) and (num_eff > 100):
@@ -1120,7 +1121,7 @@ def _guess_edges(data, extrema=None, ndim=None, weights=None, num_min=None, num_
             logging.error(err)
         idx = np.isfinite(data)
         extrema = [data[idx].min(), data[idx].max()]
-    span_width = np.diff(extrema)[0]
+    span_width = np.diff(np.asarray(extrema, dtype=float))[0]
 
     # Sturges histogram bin estimator.
     w1 = span_width / (np.log2(num_eff) + 1.0)
-- 
2.43.0


From 2405115b65c203d2c149375682cab66b59b7619a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:13 +0000
Subject: [PATCH 64/65] fix: log midpoints, interquartile range and
 subdivisions of small integers

---
 kalepy/utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index 411192f..a73360d 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -363,7 +363,8 @@ def midpoints(arr, log=False, axis=-1, squeeze=False):
 
     # Convert to log-space
     if log:
-        mids = np.log10(arr)
+        # (the logarithms of small integers would have half precision)
+        mids = np.log10(np.asarray(arr, dtype=float))
     else:
         mids = np.array(arr)
 
@@ -483,7 +484,7 @@ def parse_edges(data, edges=None, extrema=None, weights=None, params=None,
 def iqrange(data, log=False, weights=None):
     """Calculate inter-quartile range of the given data."""
     if log:
-        data = np.log10(data)
+        data = np.log10(np.asarray(data, dtype=float))
     iqr = np.subtract(*quantiles(data, percs=[0.75, 0.25], weights=weights))
     return iqr
 
@@ -827,7 +828,7 @@ def subdivide(xx, num=1, log=False):
     """
     div = np.asarray(xx)
     if log:
-        div = np.log10(div)
+        div = np.log10(div.astype(float))
 
     dd = np.diff(np.concatenate([div, [0.0]]))[:, np.newaxis]
     dd = dd * np.linspace(0.0, 1.0, num+1, endpoint=False)[np.newaxis, :]
-- 
2.43.0


From bb55f117b246fbdd2c55204d28d015d139001dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:25 +0000
Subject: [PATCH 65/65] fix: histograms of data and weights of small integer
 types

---
 kalepy/utils.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index a73360d..0b0de4f 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -305,6 +305,14 @@ def cumtrapz(pdf, edges, prepend=True, axis=None):
 def histogram(data, bins=None, weights=None, density=False, probability=False):
     if bins is None:
         bins = 'auto'
+    # n.b. differences of data, and sums of weights, overflow in the smaller integer types
+    data = np.asarray(data)
+    if data.dtype.kind in 'biu':
+        data = data.astype(np.result_type(data.dtype, int))
+    if weights is not None:
+        weights = np.asarray(weights)
+        if weights.dtype.kind in 'biu':
+            weights = weights.astype(np.result_type(weights.dtype, int))
     # `numpy` does not choose bins for weighted data
     if isinstance(bins, str) and (weights is not None):
         bins = np.histogram_bin_edges(data, bins=bins)
-- 
2.43.0

