From 56e7b40f3bc8fbced929060d55a7a08c201b0fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:55 +0000
Subject: [PATCH 01/60] fix: kalepy.pdf() and kalepy.density(params=...) raised
 TypeError; pass params on to KDE.density

---
 kalepy/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kalepy/__init__.py b/kalepy/__init__.py
index bbee33d..4c89be3 100644
--- a/kalepy/__init__.py
+++ b/kalepy/__init__.py
@@ -68,7 +68,8 @@ del _path
 # High Level API Functions
 # -----------------------------------
 
-def density(data, points=None, weights=None, reflect=None, probability=False, grid=False, **kwargs):
+def density(data, points=None, weights=None, reflect=None, probability=False, grid=False,
+            params=None, **kwargs):
     """Use a KDE to calculate the density of the given data.
 
     This function (1) constructs a kernel-density estimate of the distribution function from which
@@ -136,7 +137,7 @@ def density(data, points=None, weights=None, reflect=None, probability=False, gr
 
     """
     kde = KDE(data, weights=weights, reflect=reflect, **kwargs)
-    points, vals = kde.density(points, probability=probability, grid=grid)
+    points, vals = kde.density(points, params=params, probability=probability, grid=grid)
     return points, vals
 
 
-- 
2.43.0


From 7bfb4be1632a1b3e62c8af0f4d319c9efac6a2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:10 +0000
Subject: [PATCH 02/60] fix: multi-dimensional Box samples used a separate
 radius in each dimension, so were not uniform in the ball

---
 kalepy/kernels.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index 695bf76..b62ce0c 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -543,7 +543,8 @@ class Box(_Distribution):
         else:
             samps = np.random.normal(0.0, 1.0, (ndim, size))
             rads = np.sum(samps**2, axis=0) ** 0.5
-            norm = np.random.random((ndim, size)) ** (1.0 / ndim)
+            # a single radius for each sample (i.e. the same in every dimension)
+            norm = np.random.random(size) ** (1.0 / ndim)
             samps = norm * samps / rads[np.newaxis, :]
         return samps
 
-- 
2.43.0


From f39ab457a298110bc89fd29fd4c46569fbefc83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:10 +0000
Subject: [PATCH 03/60] fix: multi-dimensional Parabola samples came from a
 product kernel (outside the unit ball), not the radial kernel

---
 kalepy/kernels.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index b62ce0c..6345c73 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -577,9 +577,15 @@ class Parabola(_Distribution):
 
     @classmethod
     def _sample(cls, size, ndim):
-        # Use the median trick to draw from the Epanechnikov distribution
-        samp = np.random.uniform(-1.0, 1.0, (ndim, size, 3))
-        samp = np.median(samp, axis=-1)
+        if ndim == 1:
+            # Use the median trick to draw from the Epanechnikov distribution
+            samp = np.random.uniform(-1.0, 1.0, (ndim, size, 3))
+            samp = np.median(samp, axis=-1)
+        else:
+            # Isotropic direction, with radius following `p(r) ~ r^(D-1) * (1 - r^2)`
+            samp = np.random.normal(0.0, 1.0, (ndim, size))
+            rads = np.linalg.norm(samp, axis=0)
+            samp = samp * np.sqrt(np.random.beta(0.5*ndim, 2.0, size)) / rads
         return samp
 
     @staticmethod
-- 
2.43.0


From 8200b634f6f8b002e44aa93ba7fcc1b6f2e05a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:10 +0000
Subject: [PATCH 04/60] fix: multi-dimensional Triweight samples used the 1D
 radius separately in each dimension

---
 kalepy/kernels.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index 6345c73..52a1c05 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -616,7 +616,11 @@ class Triweight(_Distribution):
     def _sample(cls, size, ndim):
         samps = np.random.normal(0.0, 1.0, (ndim, size))
         rads = np.linalg.norm(samps, axis=0)
-        norm = _triweight_inverse_func(np.random.random((ndim, size)))
+        if ndim == 1:
+            norm = _triweight_inverse_func(np.random.random((ndim, size)))
+        else:
+            # Radius following `p(r) ~ r^(D-1) * (1 - r^2)^3`, the same in every dimension
+            norm = np.sqrt(np.random.beta(0.5*ndim, 4.0, size))
         samps = norm * samps / rads[np.newaxis, :]
         return samps
 
-- 
2.43.0


From 68edd4b33519194b1fda5af066a8b16bb6027c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:37 +0000
Subject: [PATCH 05/60] fix: reflection about boundaries in several dimensions
 lost the corner images, so did not conserve probability

---
 kalepy/kernels.py | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index 52a1c05..72d5eba 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -2,6 +2,7 @@
 """
 import logging
 import abc
+import itertools
 from collections import OrderedDict
 
 import numpy as np
@@ -114,18 +115,29 @@ class Kernel(object):
                 np.shape(reflect), np.shape(data))
             raise ValueError(err)
 
-        for ii, reflect_dim in enumerate(reflect):
-            if reflect_dim is None:
+        # Add the mirror images of the density.  In each dimension the coordinates are either unchanged
+        # (`None`), or reflected about one of the boundaries.  All combinations are needed, as a
+        # corner between boundaries in different dimensions has images reflected in both of them.
+        # The points are reflected, instead of the data, so that the kernel itself is also mirrored.
+        images = [
+            [None] + [loc for loc in ([] if reflect_dim is None else reflect_dim) if loc is not None]
+            for reflect_dim in reflect
+        ]
+        for locs in itertools.product(*images):
+            if all(loc is None for loc in locs):
                 continue
 
-            for loc in reflect_dim:
-                if loc is None:
-                    continue
+            # shape (D,M) i.e. (dimensions, points)
+            refl_points = np.array(points, dtype=float)
+            for ii, loc in enumerate(locs):
+                if loc is not None:
+                    refl_points[ii, :] = 2*loc - refl_points[ii, :]
 
-                # shape (D,N) i.e. (dimensions, data-points)
-                refl_data = np.array(data)
-                refl_data[ii, :] = 2*loc - refl_data[ii, :]
-                result += _evaluate_numba(whitening, refl_data, points, weights, kfunc)
+            result += _evaluate_numba(whitening, data, refl_points, weights, kfunc)
+
+        for ii, reflect_dim in enumerate(reflect):
+            if reflect_dim is None:
+                continue
 
             lo = -np.inf if (reflect_dim[0] is None) else reflect_dim[0]
             hi = +np.inf if (reflect_dim[1] is None) else reflect_dim[1]
-- 
2.43.0


From 90dfd74e08e9be5fde0b1afe7a035435a79420cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:06 +0000
Subject: [PATCH 06/60] fix: resampling with reflection dropped every mirrored
 point, so drew from a truncated KDE instead of the reflected one

---
 kalepy/kernels.py | 88 +++++++++--------------------------------------
 1 file changed, 16 insertions(+), 72 deletions(-)

diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index 72d5eba..170f47a 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -230,16 +230,8 @@ class Kernel(object):
 
         ndim, nvals = np.shape(data)
 
-        # Actually 'reflect' (append new, mirrored points) around the given reflection points
-        #   Also construct bounding box for valid data
-        data, bounds, weights = self._reflect_data(data, reflect, weights=weights)
-
-        # Remove data points outside of kernels (or truncated region)
-        data, weights = self._truncate_reflections(data, bounds, weights=weights)
-        if (data.size == 0):
-            err = "Empty data after reflection and truncation!"
-            logging.error(err)
-            raise ValueError(err)
+        # Construct bounding box for valid data
+        bounds = self._reflect_bounds(ndim, reflect)
 
         if (self._chunk is not None) and (self._chunk < size):
             num_chunks = int(np.ceil(size/self._chunk))
@@ -259,6 +251,12 @@ class Kernel(object):
             # Draw candidate resample points
             #    set `keep` to None, `matrix` is already modified to account for it
             trial = self._resample_clear(data, draw, weights=weights, matrix=matrix, keep=None)
+            # Mirror the points that are outside of the boundaries, back inside
+            for vals, (lo, hi) in zip(trial, bounds):
+                below, above = (vals < lo), (vals > hi)
+                vals[below] = 2*lo - vals[below]
+                vals[above] = 2*hi - vals[above]
+
             # Find the (boolean) indices of values within target boundaries
             idx = utils.bound_indices(trial, bounds)
 
@@ -299,75 +297,21 @@ class Kernel(object):
 
     # ==== Utilities ====
 
-    def _reflect_data(self, data, reflect, weights=None):
-        """Reflect the given data about the locations specified by `reflect`.
-
-        If input `weights` is None, then returned `weights` are None.
-
+    def _reflect_bounds(self, ndim, reflect):
+        """Get the (D, 2) lower and upper boundaries specified by `reflect`, infinite if there is none.
         """
-        bounds = np.zeros((data.shape[0], 2))
-
-        old_data = np.copy(data)
-        if weights is not None:
-            old_weights = np.copy(weights)
-
+        bounds = np.zeros((ndim, 2))
+        bounds[:, 0] = -np.inf
+        bounds[:, 1] = +np.inf
         for ii, reflect_dim in enumerate(reflect):
             if reflect_dim is None:
-                bounds[ii, 0] = -np.inf
-                bounds[ii, 1] = +np.inf
                 continue
 
             for jj, loc in enumerate(reflect_dim):
-                if loc is None:
-                    # j=0 : -inf,  j=1: +inf
-                    bounds[ii, jj] = np.inf * (2*jj - 1)
-                    continue
-
-                bounds[ii, jj] = loc
-                new_data = np.array(old_data)
-                new_data[ii, :] = loc - (new_data[ii, :] - loc)
-                # NOTE: this returns a copy, so original `data` is *not* changed in-place
-                data = np.append(data, new_data, axis=-1)
-                if weights is not None:
-                    weights = np.append(weights, old_weights)
-
-        # Re-normalize the weights
-        if weights is not None:
-            weights = weights / np.sum(weights)
-
-        return data, bounds, weights
-
-    def _truncate_reflections(self, data, bounds, weights=None):
-        # Determine the bounds outside of which we should truncate
-        # trunc = self._get_truncation_bounds(bounds)
-        trunc = bounds
-        # Find the data-points outside of those bounds
-        idx = utils.bound_indices(data, trunc)
-        # Select only points within truncation bounds
-        data = data[:, idx]
-        if weights is not None:
-            weights = weights[idx]
-            weights /= np.sum(weights)
-
-        return data, weights
-
-    def _get_truncation_bounds(self, bounds):
-        trunc = np.zeros_like(bounds)
-
-        bw = self.bandwidth.diagonal()
-        # If this kernel has finite-support, we only need to go out to 'bandwidth' on each side
-        if self.FINITE:
-            bw = bw * (1 + _NUM_PAD)
-            qnts = np.array([-bw, bw]).T
-        # If kernel has infinite-support, go to the quantile reaching the desired precision
-        else:
-            tol = _TRUNCATE_INFINITE_KERNELS
-            qnts = self.distribution.ppf([tol, 1-tol])
-            qnts = qnts[np.newaxis, :] * bw[:, np.newaxis]
+                if loc is not None:
+                    bounds[ii, jj] = loc
 
-        # Expand the reflection bounds based on the bandwidth interval
-        trunc = bounds + qnts
-        return trunc
+        return bounds
 
     # ==== Properties ====
 
-- 
2.43.0


From 1698498f6706b8e21f736487c55d1b1a9bf54e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:06 +0000
Subject: [PATCH 07/60] fix: resample() with both `keep` and `reflect` always
 failed, as the matrix with zeroed rows has no cholesky

---
 kalepy/kernels.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index 170f47a..2fb31d5 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -225,8 +225,8 @@ class Kernel(object):
         """Resample the given data using reflection.
         """
         matrix = self.matrix
-        # Modify covariance-matrix for any `keep` dimensions
-        matrix = utils.cov_keep_vars(matrix, keep, reflect=reflect)
+        # Make sure that none of the `keep` dimensions are also reflected (which raises an error)
+        utils.cov_keep_vars(matrix, keep, reflect=reflect)
 
         ndim, nvals = np.shape(data)
 
@@ -249,8 +249,7 @@ class Kernel(object):
         fracs = []
         while (num_good < size) and (cnt < MAX * num_chunks):
             # Draw candidate resample points
-            #    set `keep` to None, `matrix` is already modified to account for it
-            trial = self._resample_clear(data, draw, weights=weights, matrix=matrix, keep=None)
+            trial = self._resample_clear(data, draw, weights=weights, matrix=matrix, keep=keep)
             # Mirror the points that are outside of the boundaries, back inside
             for vals, (lo, hi) in zip(trial, bounds):
                 below, above = (vals < lo), (vals > hi)
-- 
2.43.0


From f58e7cb02e5ec80e65cbcf2b29dd8f2ebffda9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:06 +0000
Subject: [PATCH 08/60] fix: boolean `reflect` entries were overwritten in the
 caller's list (giving stale boundaries when reused)

---
 kalepy/kernels.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index 2fb31d5..d3bdd1f 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -694,6 +694,9 @@ def _check_reflect(reflect, data, weights=None, helper=False):
         err = "each row of `reflect` must be `None` or have shape (2,)!  '{}'".format(reflect)
         raise ValueError(err)
 
+    # Copy, so that the caller's argument is not modified (and can be any sequence)
+    reflect = [ref if (ref is None or ref is True) else list(ref) for ref in reflect]
+
     # Perform additional diagnostics
     for ii in range(ndim):
         if (reflect[ii] is True):
-- 
2.43.0


From 3ac5a1981882c7a704c8127ec6fad850dc238730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:30 +0000
Subject: [PATCH 09/60] fix: automatic reflection boundaries of negative
 extrema were padded inwards, excluding the extreme data points

---
 kalepy/kernels.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index d3bdd1f..dca9c4e 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -659,6 +659,12 @@ def _beta_kernel_norm(order, ndim):
     return norm
 
 
+def _pad_outward(value, sign):
+    """Shift the given extremum slightly outwards: downwards if `sign` is -1, upwards if it is +1.
+    """
+    return value + sign * np.fabs(value) * _NUM_PAD
+
+
 def _check_reflect(reflect, data, weights=None, helper=False):
     """Make sure the given `reflect` argument is valid given the data shape
     """
@@ -700,12 +706,12 @@ def _check_reflect(reflect, data, weights=None, helper=False):
     # Perform additional diagnostics
     for ii in range(ndim):
         if (reflect[ii] is True):
-            reflect[ii] = [np.min(data[ii])*(1 - _NUM_PAD), np.max(data[ii])*(1 + _NUM_PAD)]
+            reflect[ii] = [_pad_outward(np.min(data[ii]), -1), _pad_outward(np.max(data[ii]), +1)]
         elif (reflect[ii] is not None) and (True in reflect[ii]):
             if reflect[ii][0] is True:
-                reflect[ii][0] = np.min(data[ii])*(1 - _NUM_PAD)
+                reflect[ii][0] = _pad_outward(np.min(data[ii]), -1)
             if reflect[ii][1] is True:
-                reflect[ii][1] = np.max(data[ii])*(1 + _NUM_PAD)
+                reflect[ii][1] = _pad_outward(np.max(data[ii]), +1)
 
         if np.all(np.array(reflect[ii]) != None) and (reflect[ii][0] >= reflect[ii][1]):  # noqa
             err = "Reflect is out of order:  `reflect`[{}] = {}  !".format(ii, reflect[ii])
-- 
2.43.0


From 2ce122c91d3bb3419ddf348525ede442e678dcd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:30 +0000
Subject: [PATCH 10/60] fix: KDE.density() raised TypeError for boolean
 `reflect`, which resample() and the constructor accept

---
 kalepy/kde.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kalepy/kde.py b/kalepy/kde.py
index 690c87a..b5c7ee9 100644
--- a/kalepy/kde.py
+++ b/kalepy/kde.py
@@ -349,8 +349,12 @@ class KDE:
         if (params is None) and (reflect is None):
             reflect = self.reflect
 
+        # Boolean values are valid: `False` turns reflection off, `True` is handled in `_check_reflect`
+        if reflect is False:
+            reflect = None
+
         # Make sure `reflect` shape matches the data
-        if (reflect is not None) and (len(reflect) != np.shape(data)[0]):
+        if (reflect is not None) and (reflect is not True) and (len(reflect) != np.shape(data)[0]):
             # If the data is 1D, and `reflect` is (2,) --- that's okay, convert `reflect` to (1, 2)
             if (ndim == 1) and (np.shape(reflect) == (2,)) and utils.really1d(reflect):
                 reflect = np.atleast_2d(reflect)
-- 
2.43.0


From 41112d618640c45995e899f0a0b8e0731f7dd753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:30 +0000
Subject: [PATCH 11/60] fix: KDE `weights` given as a list raised TypeError

---
 kalepy/kde.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kalepy/kde.py b/kalepy/kde.py
index b5c7ee9..0498f85 100644
--- a/kalepy/kde.py
+++ b/kalepy/kde.py
@@ -201,6 +201,7 @@ class KDE:
                 err = "`weights` input (shape={}) should be shaped as (N,)=({},)!".format(np.shape(weights), ndata)
                 raise ValueError(err)
 
+            weights = np.asarray(weights)
             if np.count_nonzero(weights) == 0 or np.any(~np.isfinite(weights) | (weights < 0)):
                 raise ValueError("Invalid `weights` entries, all must be finite and > 0!")
 
-- 
2.43.0


From d4d5693f5f6ed6463681b1ae5e45fb7a63e105fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:30 +0000
Subject: [PATCH 12/60] fix: KDE.cdf() extrapolated linearly beyond its grid,
 to values below zero and above one

---
 kalepy/kde.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/kalepy/kde.py b/kalepy/kde.py
index 0498f85..740431f 100644
--- a/kalepy/kde.py
+++ b/kalepy/kde.py
@@ -528,8 +528,14 @@ class KDE:
                 *self._cdf_grid, bounds_error=False, fill_value=None
             )
 
+        # The CDF is constant outside of the grid, do not extrapolate it (which leaves [0.0, 1.0])
+        lo, hi = np.transpose([[gg[0], gg[-1]] for gg in self._cdf_grid[0]])
+
         # `scipy.interplate.RegularGridInterpolator` expects shape (N,D,) -- so transpose
         pnts = np.asarray(pnts).T
+        if (lo.size == 1) or (np.shape(pnts)[-1:] == lo.shape):
+            pnts = np.clip(pnts, lo, hi)
+
         cdf = self._cdf_func(pnts)
         return cdf
 
-- 
2.43.0


From eb98aa5c116069cb60ed2c71d29a5f15e701909c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:30 +0000
Subject: [PATCH 13/60] fix: default extrema excluded data (or were infinite)
 when the effective number of points is below two

---
 kalepy/kde.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kalepy/kde.py b/kalepy/kde.py
index 740431f..2790c28 100644
--- a/kalepy/kde.py
+++ b/kalepy/kde.py
@@ -245,7 +245,8 @@ class KDE:
             out = (1.0 + _NUM_PAD)
         # If infinite kernel, how many standard-deviations can we expect values to lie at
         else:
-            out = sp.stats.norm.ppf(1.0 - 1.0/neff)
+            #    (for small `neff` this would be within the data, or even infinite)
+            out = sp.stats.norm.ppf(1.0 - 1.0/max(neff, 10.0))
             # Extra to be double sure...
             out *= 1.2
 
-- 
2.43.0


From 43f84dc987fc0315f7d868173a28d481dce7f902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:30 +0000
Subject: [PATCH 14/60] fix: automatic edges were NaN for non-finite extrema,
 as their finite replacement was ignored

---
 kalepy/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index bc07528..f7b194a 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -1067,6 +1067,8 @@ def _get_edges_1d(edges, data, extrema, ndim, nmin, nmax, pad, weights=None, ref
     if num_bins is None:
         num_bins = _num_bins
 
+    # If the given `extrema` are not finite, they have been replaced
+    extrema = _span
     if pad is not None:
         pad_width = pad * bin_width
         extrema = [extrema[0] - pad_width, extrema[1] + pad_width]
-- 
2.43.0


From 8e530886cf10c127363ee7840af8c628886e9a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:30 +0000
Subject: [PATCH 15/60] fix: utils.quantiles() normalized by the wrong sum (or
 raised) along any but the last axis

---
 kalepy/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index f7b194a..46cb47c 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -520,7 +520,7 @@ def quantiles(values, percs=None, sigmas=None, weights=None, axis=None, values_s
         weights = np.take_along_axis(weights, sorter, axis=axis)
 
     weighted_quantiles = np.cumsum(weights, axis=axis) - 0.5 * weights
-    weighted_quantiles /= np.sum(weights, axis=axis)[..., np.newaxis]
+    weighted_quantiles /= np.sum(weights, axis=axis, keepdims=True)
     if axis is None:
         percs = np.interp(percs, weighted_quantiles, values)
     else:
-- 
2.43.0


From 94f1b6cca085724927572915a4a25e594d6f3086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:21 +0000
Subject: [PATCH 16/60] fix: squeezing 1D results dropped the points dimension
 for a single point, and failed for sampled scalars

---
 kalepy/kde.py     |  1 -
 kalepy/kernels.py |  2 +-
 kalepy/sample.py  | 13 +++++++++++--
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/kalepy/kde.py b/kalepy/kde.py
index 2790c28..336ef23 100644
--- a/kalepy/kde.py
+++ b/kalepy/kde.py
@@ -400,7 +400,6 @@ class KDE:
 
         if squeeze:
             points = points[0]
-            values = values.squeeze()
 
         return points, values
 
diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index dca9c4e..0136e1a 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -176,7 +176,7 @@ class Kernel(object):
             samples = self._resample_reflect(data, size, reflect, weights=weights, keep=keep)
 
         if (ndim == 1) and squeeze:
-            samples = samples.squeeze()
+            samples = samples[0]
 
         return samples
 
diff --git a/kalepy/sample.py b/kalepy/sample.py
index a9366c9..9484c36 100644
--- a/kalepy/sample.py
+++ b/kalepy/sample.py
@@ -434,7 +434,11 @@ def sample_grid(edges, dens, nsamp=None, mass=None, scalar_dens=None, scalar_mas
     sampler = Sample_Grid(edges, dens, mass=mass, scalar_dens=scalar_dens, scalar_mass=scalar_mass)
     samples = sampler.sample(nsamp=nsamp, **sample_kwargs)
     if squeeze:
-        samples = samples.squeeze()
+        # if scalars are also sampled, then `samples` is a tuple `(vals, scalars)`
+        if isinstance(samples, tuple):
+            samples = (_squeeze(samples[0]), *samples[1:])
+        else:
+            samples = _squeeze(samples)
     return samples
 
 
@@ -482,10 +486,15 @@ def sample_outliers(edges, data, threshold, nsamp=None, mass=None, **sample_kwar
         raise ValueError("`nsamp` is currently deprecated!")
     nsamp, vals, weights = outliers.sample(**sample_kwargs)
     if squeeze:
-        vals = vals.squeeze()
+        vals = vals[0]
     return vals, weights
 
 
+def _squeeze(vals):
+    # For a single dimension return shape (N,), also if there is a single sample (i.e. `N=1`)
+    return vals[0] if (len(vals) == 1) else vals.squeeze()
+
+
 def _grad_along(data_edge, dim):
     grad = np.diff(data_edge, axis=dim)
     nums = list(np.arange(grad.ndim))
-- 
2.43.0


From fc66eca79c5aa628e6abf691819367205f16295e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:21 +0000
Subject: [PATCH 17/60] fix: KDE.from_hist() misplaced the centers of bins with
 non-uniform widths (and failed for a single bin)

---
 kalepy/kde.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/kalepy/kde.py b/kalepy/kde.py
index 336ef23..fbe1f63 100644
--- a/kalepy/kde.py
+++ b/kalepy/kde.py
@@ -432,8 +432,8 @@ class KDE:
         if utils.really1d(bins):
 
             # Convert bins into points
-            dx = bins[2] - bins[1]
-            points = bins[:-1] + 0.5 * dx
+            dx = np.mean(np.diff(bins))
+            points = utils.midpoints(bins)
 
             # Normalize into a pdf
             hist = hist / (hist.sum() * dx)
@@ -459,8 +459,8 @@ class KDE:
 
             for bins_i in bins:
                 # Convert bins into points
-                dx = bins_i[2] - bins_i[1]
-                centers_i = bins_i[:-1] + 0.5 * dx
+                dx = np.mean(np.diff(bins_i))
+                centers_i = utils.midpoints(bins_i)
                 centers.append(centers_i)
 
                 dx_mult *= dx
-- 
2.43.0


From cfa8c9ea533b12462a52388fe29d0be1e67fd5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:21 +0000
Subject: [PATCH 18/60] fix: error messages of invalid `weights` and `reflect`
 shapes were themselves broken

---
 kalepy/kde.py     | 2 +-
 kalepy/kernels.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/kalepy/kde.py b/kalepy/kde.py
index fbe1f63..0873089 100644
--- a/kalepy/kde.py
+++ b/kalepy/kde.py
@@ -362,7 +362,7 @@ class KDE:
                 reflect = np.atleast_2d(reflect)
             else:
                 err = (
-                    "length of `reflect` ({}) ".format(reflect),
+                    "length of `reflect` ({}) ".format(reflect) +
                     "does not match `data` ({})!".format(np.shape(data))
                 )
                 raise ValueError(err)
diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index 0136e1a..daf2eac 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -90,7 +90,7 @@ class Kernel(object):
             weights = np.ones(num_data)
         elif (np.shape(weights) != (num_data,)):
             err = "Shape of `weights` ({}) does not match number of data points ({})!".format(
-                np.shpae(weights), num_data)
+                np.shape(weights), num_data)
             raise ValueError(err)
 
         # -----------------    Calculate Density
-- 
2.43.0


From a213f84558e5b44b440142f50a0e0c6d06c14839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:21 +0000
Subject: [PATCH 19/60] fix: utils.isjagged() raised ValueError for jagged
 lists, and utils.histogram() failed for lists

---
 kalepy/utils.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index 46cb47c..a2fb1c1 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -304,7 +304,7 @@ def histogram(data, bins=None, weights=None, density=False, probability=False):
     if density:
         hist = hist.astype(float) / np.diff(edges)
     if probability:
-        tot = data.size if (weights is None) else np.sum(weights)
+        tot = np.size(data) if (weights is None) else np.sum(weights)
         hist = hist.astype(float) / tot
     return hist, edges
 
@@ -589,9 +589,13 @@ def isjagged(arr):
     """Test if the given array is jagged.
     """
     # if np.isscalar(arr) or (np.size(arr) == len(flatten(arr))):
-    if np.isscalar(arr) or (np.size(arr) == flatlen(arr)):
+    if np.isscalar(arr):
         return False
-    return True
+    try:
+        return bool(np.size(arr) != flatlen(arr))
+    # numpy cannot convert jagged sequences to an array
+    except ValueError:
+        return True
 
 
 def isinteger(val, iterable=True):
-- 
2.43.0


From bdf08f6e689c44bab2f4f530536605101078b747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:25 +0000
Subject: [PATCH 20/60] fix: Sample_Grid normalized the density gradients by
 the grid's average, not each bin's, giving the wrong distribution within bins

---
 kalepy/sample.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/kalepy/sample.py b/kalepy/sample.py
index 9484c36..a2e6ace 100644
--- a/kalepy/sample.py
+++ b/kalepy/sample.py
@@ -130,11 +130,13 @@ class Sample_Grid:
             logging.info("`dens` is None, cannot interpolate sampling")
             interpolate = False
 
-        # ensure PDF `dens` is properly normalized for interpolation
+        # find the average PDF `dens` in each bin, to properly normalize the PDF in each bin for interpolation
         #     this normalization is based on each bin having a domain of [0.0, 1.0] during intrabin linear
         #     interpolation sampling (`_intrabin_linear_interp()`)
         if interpolate:
-            dens = dens / (dens.sum() / dens.size)
+            dens_ave = utils.midpoints(dens, log=False, axis=None)
+            # avoid dividing by zero, where the gradient also must be zero
+            dens_ave = np.where(dens_ave > 0.0, dens_ave, 1.0)
 
         # If no number of samples are given, assume that the units of `self._mass` are number of samples, and choose
         # the total numbe of samples to be the total of this
@@ -182,7 +184,9 @@ class Sample_Grid:
                 edge = np.asarray(edge)
 
                 # Find the gradient along this dimension (using center-values in other dimensions)
-                _grad = _grad_along(dens, dim)
+                _grad = _grad_along(dens, dim) / dens_ave
+                # (relative gradients are limited by non-negative densities, avoid rounding errors)
+                _grad = np.clip(_grad, -2.0, 2.0)
                 # get the gradient for each sample
                 grad = _grad.flat[bin_numbers_flat]
                 # interpolate edge values in this dimension
-- 
2.43.0


From 716940faeffad81dc77057a8250e4bd952ec0a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:25 +0000
Subject: [PATCH 21/60] fix: cancellation in sampling bins with small density
 gradients placed samples on a few points, or outside of their bin

---
 kalepy/sample.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kalepy/sample.py b/kalepy/sample.py
index a2e6ace..b98c3af 100644
--- a/kalepy/sample.py
+++ b/kalepy/sample.py
@@ -549,8 +549,9 @@ def _intrabin_linear_interp(edge, wid, loc, bidx, grad):
     # calculate `y1` to ensure the CDF is unitary
     y1 = 1.0 - grad[sel] / 2.0
     # invert the CDF (``F(x) = y1*x + grad * x^2 / 2``) to sample from PDF (still on [0.0, to 1.0])
-    vals[sel] = 2 * loc[sel] * grad[sel] + y1 ** 2
-    vals[sel] = (np.sqrt(vals[sel]) - y1) / grad[sel]
+    # (in a form that does not suffer from cancellation for small gradients)
+    root = np.sqrt(2 * loc[sel] * grad[sel] + y1 ** 2) + y1
+    vals[sel] = 2 * loc[sel] / np.where(root > 0.0, root, 1.0)
     # convert [0.0, 1.0] domain to the location and width of each bin
     vals = edge[bidx] + bw * vals
 
-- 
2.43.0


From 8efe165cae94a41a1d653de2b1417c60e43c13d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:25 +0000
Subject: [PATCH 22/60] fix: Sample_Grid `mass` given as a list raised
 AttributeError

---
 kalepy/sample.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kalepy/sample.py b/kalepy/sample.py
index b98c3af..42e519b 100644
--- a/kalepy/sample.py
+++ b/kalepy/sample.py
@@ -77,6 +77,8 @@ class Sample_Grid:
         #     else:
         #         err = "Shape of `scalar` ({}) does not match `data` ({})!".format(scalar.shape, dens.shape)
         #         raise ValueError(err)
+        if mass is not None:
+            mass = np.asarray(mass)
         if (mass is not None) and np.any(np.shape(mass) != np.array(shape_bins)):
             err = "Shape of `mass` ({}) inconsistent with shape of edges ({})!".format(np.shape(mass), shape_edges)
             raise ValueError(err)
-- 
2.43.0


From 90fc9601119f7a26f012b1ab3ea2bddda417b1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:25 +0000
Subject: [PATCH 23/60] fix: sampled scalars were multiplied by the bin volume,
 and interpolated to the wrong location in the bin

---
 kalepy/sample.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/kalepy/sample.py b/kalepy/sample.py
index 42e519b..d0e9267 100644
--- a/kalepy/sample.py
+++ b/kalepy/sample.py
@@ -102,7 +102,7 @@ class Sample_Grid:
         if self._mass is None:
             self._mass = utils.trapz_dens_to_mass(self._dens, self._edges, axis=None)
         if (self._scalar_mass is None) and (self._scalar_dens is not None):
-            self._scalar_mass = utils.trapz_dens_to_mass(self._scalar_dens, self._edges, axis=None)
+            self._scalar_mass = utils.midpoints(self._scalar_dens, log=False, axis=None)
 
         idx, csum = _data_to_cumulative(self._mass)
         self._idx = idx
@@ -165,7 +165,7 @@ class Sample_Grid:
         #     this will be updated/improved if `interpolation=True`
         if return_scalar:
             scalar_mass = self._scalar_mass
-            scalar_values = scalar_mass[bin_numbers]
+            scalar_values = np.array(scalar_mass[bin_numbers], dtype=float)
 
         # ---- Place samples in each dimension
 
@@ -198,7 +198,8 @@ class Sample_Grid:
             if return_scalar and interpolate:
                 grad = _grad_along(scalar_dens, dim)
                 grad = grad.flat[bin_numbers_flat]
-                # shift `loc` (location within bin) to center point
+                # shift position of sample (relative location within bin) to center point
+                loc = (vals[dim, :] - edge[bidx]) / wid[bidx]
                 scalar_values += grad * (loc - 0.5)
 
         if return_scalar:
@@ -320,7 +321,7 @@ class Sample_Outliers(Sample_Grid):
         if self._mass is None:
             self._mass = utils.trapz_dens_to_mass(self._dens, self._edges, axis=None)
         if (self._scalar_mass is None) and (self._scalar_dens is not None):
-            self._scalar_mass = utils.trapz_dens_to_mass(self._scalar_dens, self._edges, axis=None)
+            self._scalar_mass = utils.midpoints(self._scalar_dens, log=False, axis=None)
         return
 
     def sample(
-- 
2.43.0


From 040bc05a0e27c3e1eb13c1b9e948f09dba58a74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:27 +0000
Subject: [PATCH 24/60] fix: Corner methods stored settings in shared default
 arguments, so that one plot changed the following ones

---
 kalepy/plot.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index fc84b59..be40428 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -296,6 +296,9 @@ class Corner:
         # If data is given, convert to KDE as needed
         kde, data, weights = _parse_kde_data(kde_data, weights=weights)
 
+        # Copy, so that neither the caller's nor the default arguments are modified
+        dist1d, dist2d = dict(dist1d), dict(dist2d)
+
         # Set default 1D parameters
         dist1d.setdefault('density', True)
         dist1d.setdefault('confidence', False)
@@ -344,6 +347,9 @@ class Corner:
         # If KDE is given, retrieve the dataset from it
         kde, data, weights = _parse_kde_data(kde_data, weights=weights)
 
+        # Copy, so that neither the caller's nor the default arguments are modified
+        dist1d, dist2d = dict(dist1d), dict(dist2d)
+
         # Set default 1D parameters
         dist1d.setdefault('density', False)
         dist1d.setdefault('confidence', False)
@@ -427,6 +433,9 @@ class Corner:
         # If data is given, construct KDE
         kde, data, weights = _parse_kde_data(kde_data, weights=weights)
 
+        # Copy, so that neither the caller's nor the default arguments are modified
+        dist1d, dist2d = dict(dist1d), dict(dist2d)
+
         # Set default 1D parameters
         dist1d.setdefault('density', True)
         dist1d.setdefault('confidence', True)
@@ -529,6 +538,8 @@ class Corner:
 
         edges = utils.parse_edges(kde.dataset, edges=edges)
         # quantiles, _ = _default_quantiles(quantiles=quantiles)
+        # Copy, so that neither the caller's nor the default arguments are modified
+        dist1d, dist2d = dict(dist1d), dict(dist2d)
         dist1d.setdefault('quantiles', quantiles)
         dist2d.setdefault('quantiles', quantiles)
         dist1d.setdefault('ls', ls)
-- 
2.43.0


From d33ef82e3962ad9c495f690b6ca63e17706298f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:27 +0000
Subject: [PATCH 25/60] fix: Corner.target() shaded the excluded side of
 `lower_limits` in the 2D panels

---
 kalepy/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index be40428..d015e1e 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -859,7 +859,7 @@ class Corner:
                 if upper_limits[kk] is not None:
                     func_lim(extr[kk][0], upper_limits[kk], **span_kw)
                 if lower_limits[kk] is not None:
-                    func_lim(lower_limits[kk], extr[kk][0], **span_kw)
+                    func_lim(lower_limits[kk], extr[kk][1], **span_kw)
 
         return
 
-- 
2.43.0


From 4a0619fd548aa1100691e30fa0b86a377c496742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:27 +0000
Subject: [PATCH 26/60] fix: Corner.hist() and Corner.plot_data() ignored the
 weights of the stored data or KDE

---
 kalepy/plot.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index d015e1e..93ce2f3 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -364,7 +364,7 @@ class Corner:
         dist2d.setdefault('mask_below', False)
 
         # Plot
-        rv = self.plot_data(data, dist1d=dist1d, dist2d=dist2d, **kwargs)
+        rv = self.plot_data(data, weights=weights, dist1d=dist1d, dist2d=dist2d, **kwargs)
         return rv
 
     def plot(self, kde_data=None, edges=None, weights=None, quantiles=None,
@@ -646,6 +646,9 @@ class Corner:
             if data is None:
                 err = "kde or data required either during initialization or here!"
                 raise ValueError(err)
+            # The stored data also have stored weights
+            if weights is None:
+                weights = self._weights
 
         # If a KDE is given, extract the dataset
         kde, data, weights = _parse_kde_data(data, weights=weights)
-- 
2.43.0


From fe91917bc40f537c2545e31639772d252053f68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:27 +0000
Subject: [PATCH 27/60] fix: dist1d() ignored the weights in its confidence
 intervals and median

---
 kalepy/plot.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index 93ce2f3..441cbb8 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -1114,8 +1114,8 @@ def confidence(data, ax=None, weights=None, quantiles=[0.5, 0.9],
         cdf = np.arange(data.size) / (data.size - 1)
     else:
         idx = np.argsort(data)
-        data = data[idx]
-        weights = weights[idx]
+        data = np.asarray(data)[idx]
+        weights = np.asarray(weights)[idx]
         cdf = np.cumsum(weights) / np.sum(weights)
 
     # Get both the lower (left) and upper (right) values of quantiles
@@ -1369,7 +1369,7 @@ def dist1d(kde_data, ax=None, edges=None, weights=None, probability=True, param=
 
     # Draw Contours and Median Line
     if confidence:
-        hh = _confidence(data, ax=ax, color=color, quantiles=quantiles, rotate=rotate)
+        hh = _confidence(data, ax=ax, weights=weights, color=color, quantiles=quantiles, rotate=rotate)
         if handle is None:
             handle = hh
 
-- 
2.43.0


From d118c3dbf27073cea3eae7c261f5ff02f7596f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:27 +0000
Subject: [PATCH 28/60] fix: dist2d() did not reorder 2D data (only the
 density) for `params`, and failed with partial reflection of more dimensions

---
 kalepy/plot.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index 441cbb8..61b82e6 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -1494,7 +1494,7 @@ def dist2d(kde_data, ax=None, edges=None, weights=None, params=[0, 1], quantiles
         kde = kde_data
         data = kde.dataset
         ndim = np.shape(data)[0]
-        if ndim > 2:
+        if ndim >= 2:
             if len(params) != 2:
                 raise ValueError("`dist2d` requires two chosen `params` (dimensions)!")
             data = np.vstack([data[ii] for ii in params])
@@ -1523,7 +1523,8 @@ def dist2d(kde_data, ax=None, edges=None, weights=None, params=[0, 1], quantiles
         mask_dense = (scatter is not None) and (hist or contour)
 
     # Calculate histogram
-    edges = utils.parse_edges(data, edges=edges, extrema=kde.reflect, params=params)
+    extrema = None if (kde.reflect is None) else [kde.reflect[ii] for ii in params]
+    edges = utils.parse_edges(data, edges=edges, extrema=extrema)
     hh, *_ = np.histogram2d(*data, bins=edges, weights=weights, density=True)
 
     _, levels, quantiles = _dfm_levels(hh, quantiles=quantiles, sigmas=sigmas)
-- 
2.43.0


From 981283e25fdf755437a1feb13fcac74d384b22a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:27 +0000
Subject: [PATCH 29/60] fix: hist2d(mask_below=True) compared a number of
 points to a density, masking occupied bins or keeping empty ones

---
 kalepy/plot.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index 61b82e6..54c6f52 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -1769,12 +1769,16 @@ def hist2d(data, edges=None, ax=None, weights=None, mask_below=False, **kwargs):
     if ax is None:
         ax = plt.gca()
 
-    if mask_below is True:
-        mask_below = 0.9 / len(data[0])
-
     # Calculate histogram
     edges = utils.parse_edges(data, edges=edges)
     hist, *_ = np.histogram2d(*data, bins=edges, weights=weights, density=True)
+    # Exclude bins with less than (about) the average weight of a data point
+    if mask_below is True:
+        mask_below = None
+        total, *_ = np.histogram2d(*data, bins=edges, weights=weights)
+        ave = 1.0 if (weights is None) else np.mean(weights)
+        hist = np.ma.masked_where(total < 0.9 * ave, hist)
+
     # Draw
     rv = draw_hist2d(ax, edges, hist, mask_below=mask_below, **kwargs)
     return rv
-- 
2.43.0


From 489091f7bebccb5dcfe5958934c6d3a74fd9d171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:27 +0000
Subject: [PATCH 30/60] fix: contours with `upsample=False` were not smoothed,
 as the width was multiplied by False

---
 kalepy/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index 54c6f52..5856f7e 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -1650,7 +1650,7 @@ def _prep_hist(edges, hist, smooth, upsample, pad):
     # perform smoothing
     if (smooth not in [None, False]):
         import scipy as sp
-        if upsample is not None:
+        if upsample not in [None, False]:
             smooth *= upsample
         hist = sp.ndimage.gaussian_filter(hist, smooth)
 
-- 
2.43.0


From 0b78695dd8f016ffc407f802885f872a624a47b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:27 +0000
Subject: [PATCH 31/60] fix: weighted histograms raised TypeError unless bins
 were given (as did weighted hist1d() and dist1d())

---
 kalepy/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index a2fb1c1..124fd10 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -300,6 +300,9 @@ def cumtrapz(pdf, edges, prepend=True, axis=None):
 def histogram(data, bins=None, weights=None, density=False, probability=False):
     if bins is None:
         bins = 'auto'
+        # automatic bins are not available for weighted histograms
+        if weights is not None:
+            bins = np.histogram_bin_edges(data, bins=bins)
     hist, edges = np.histogram(data, bins=bins, weights=weights, density=False)
     if density:
         hist = hist.astype(float) / np.diff(edges)
-- 
2.43.0


From 0e3a97c0bfae39a4d9ad390e864b2cd2eda8b528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:27 +0000
Subject: [PATCH 32/60] fix: `None` in extrema shared by all dimensions was
 filled in from the first one, and not filled in with `params`

---
 kalepy/utils.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index 124fd10..050a7fc 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -1237,12 +1237,12 @@ def _parse_extrema(data, extrema=None, params=None, warn=True):
 
     if extrema is None:
         extrema = data_extrema
-    elif (params is not None) and (len(extrema) != npars):
-        extrema = [extrema[pp] for pp in params]
-
     # Check components of given `extrema` to make sure they are valid
     #   fill in any `None` values with extrema from the data
     else:
+        if (params is not None) and (len(extrema) != npars):
+            extrema = [extrema[pp] for pp in params]
+
         # Convert from (2,) ==> (D, 2)
         if really1d(extrema) and (np.shape(extrema) == (2,)):
             extrema = [extrema for ii in range(npars)]
@@ -1260,11 +1260,11 @@ def _parse_extrema(data, extrema=None, params=None, warn=True):
                 jshape(extrema), npars)
             raise ValueError(err)
 
+        # Use a separate list for each dimension (they may be the same object, or tuples)
+        extrema = [[None, None] if (ee is None) else list(ee) for ee in extrema]
+
         # Fill in `None` values and check if given `extrema` is out of bounds for data
         for dd in range(npars):
-            if extrema[dd] is None:
-                extrema[dd] = [None, None]
-
             for ii in range(2):
                 if extrema[dd][ii] is None:
                     extrema[dd][ii] = data_extrema[dd][ii]
-- 
2.43.0


From fcc29922b8fe5860a3b699c66bea67971730d8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:27 +0000
Subject: [PATCH 33/60] fix: dist1d() with a number of bins as `edges`
 evaluated the density at that value, instead of in the bins

---
 kalepy/plot.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index 5856f7e..ab88a2a 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -1341,7 +1341,11 @@ def dist1d(kde_data, ax=None, edges=None, weights=None, probability=True, param=
             _alpha = alpha
 
         # Calculate KDE density distribution for the given parameter
-        xx, yy = kde.density(probability=probability, params=param, points=edges)
+        #    if `edges` is a number of bins, then find their locations
+        points = edges
+        if (points is not None) and (not np.iterable(points)):
+            points = utils.parse_edges(data, edges=points)
+        xx, yy = kde.density(probability=probability, params=param, points=points)
         # rescale by value of density
         yy = yy * density
         # Plot
-- 
2.43.0


From 13eb89b6cd0cd7a7d950e32bb12806b54ec42baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:40 +0000
Subject: [PATCH 34/60] fix: bandwidths of shape (1,), or matrices given as
 lists, raised errors although documented

---
 kalepy/kde.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kalepy/kde.py b/kalepy/kde.py
index 0873089..46dc384 100644
--- a/kalepy/kde.py
+++ b/kalepy/kde.py
@@ -704,8 +704,8 @@ class KDE:
         ndim = self.ndim
         bandwidth = np.zeros((ndim, ndim))
 
-        if len(np.atleast_1d(bw_input)) == 1:
-            _bw, method = self._compute_bandwidth(bw_input)
+        if np.size(bw_input) == 1:
+            _bw, method = self._compute_bandwidth(np.ravel(bw_input)[0])
             if not self._diagonal:
                 bandwidth[...] = _bw
             else:
@@ -721,7 +721,7 @@ class KDE:
             elif np.shape(bw_input) == (ndim, ndim):
                 for ii, jj in np.ndindex(ndim, ndim):
                     bandwidth[ii, jj], *_ = self._compute_bandwidth(
-                        bw_input[ii, jj], param=(ii, jj))
+                        bw_input[ii][jj], param=(ii, jj))
                 method = 'matrix'
             else:
                 err = "`bandwidth` must have shape (1,), (N,) or (N,N,) for `N` dimensions!"
-- 
2.43.0


From 242ec950c545ac983017e80020f68f07d6da31cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:40 +0000
Subject: [PATCH 35/60] fix: extrema (or reflect) of None in every dimension
 raised ValueError, except in two dimensions

---
 kalepy/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index 050a7fc..446ac64 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -1251,7 +1251,7 @@ def _parse_extrema(data, extrema=None, params=None, warn=True):
             pass
         # If jagged (D,) array
         elif len(extrema) == npars:
-            if really1d(extrema) or not np.all([(ee is None) or (len(ee) == 2) for ee in extrema]):
+            if not np.all([(ee is None) or (np.iterable(ee) and len(ee) == 2) for ee in extrema]):
                 err = "Each element of jagged `extrema` must be `None` or have length 2!"
                 raise ValueError(err)
         # Otherwise bad
-- 
2.43.0


From abeb72d4878d9bdecebb1458611e14e44b8e34a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:09 +0000
Subject: [PATCH 36/60] fix: True in a 1D `reflect` pair, e.g. (0.5, True), was
 converted to a boundary at 1.0

---
 kalepy/kde.py     | 2 +-
 kalepy/kernels.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/kalepy/kde.py b/kalepy/kde.py
index 46dc384..f080ffb 100644
--- a/kalepy/kde.py
+++ b/kalepy/kde.py
@@ -359,7 +359,7 @@ class KDE:
         if (reflect is not None) and (reflect is not True) and (len(reflect) != np.shape(data)[0]):
             # If the data is 1D, and `reflect` is (2,) --- that's okay, convert `reflect` to (1, 2)
             if (ndim == 1) and (np.shape(reflect) == (2,)) and utils.really1d(reflect):
-                reflect = np.atleast_2d(reflect)
+                reflect = [reflect]
             else:
                 err = (
                     "length of `reflect` ({}) ".format(reflect) +
diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index daf2eac..9e6e4ac 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -682,8 +682,8 @@ def _check_reflect(reflect, data, weights=None, helper=False):
     if reflect is True:
         reflect = [True for ii in range(ndim)]
 
-    if (len(reflect) == 2) and (ndim == 1):
-        reflect = np.atleast_2d(reflect)
+    if (len(reflect) == 2) and (ndim == 1) and utils.really1d(reflect):
+        reflect = [reflect]
 
     if (len(reflect) != ndim):  # and not ((len(reflect) == 2) and (ndim == 1)):
         err = "`reflect` ({},) must match the data with shape ({}) parameters!".format(
-- 
2.43.0


From 6bcef5356fc5d651811327d7b5fdc343cb531b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:06 +0000
Subject: [PATCH 37/60] fix: cumtrapz() along one axis prepended zeros along
 all of them

---
 kalepy/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index 446ac64..4a6e5e9 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -288,7 +288,7 @@ def cumtrapz(pdf, edges, prepend=True, axis=None):
     if prepend:
         ndim = _ndim(cdf)
         temp = [1, 0] if axis is None else [0, 0]
-        padding = [temp for ii in range(ndim)]
+        padding = [list(temp) for ii in range(ndim)]
         if axis is not None:
             padding[axis][0] = 1
         # cdf = _pre_pad_zero(cdf, axis=axis)
-- 
2.43.0


From a1eeaebc5cda082ea60fc235a2807b169e9ec785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:55 +0000
Subject: [PATCH 38/60] fix: utils.really1d() (so flatten(), flatlen()) raised
 ValueError for arrays jagged at deeper levels

---
 kalepy/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index 4a6e5e9..a787a60 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -561,7 +561,7 @@ def really1d(arr):
     if len(arr) == 0:
         return True
     # Each element must be a scalar
-    if np.any([np.shape(tt) != () for tt in arr]):
+    if np.any([_ndim(tt) != 0 for tt in arr]):
         return False
 
     return True
-- 
2.43.0


From cf4d3fbc784c9333cbacb7c59254ec143db3ec9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:54 +0000
Subject: [PATCH 39/60] fix: hist1d(joints=False) raised ValueError for integer
 counts or edges

---
 kalepy/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index ab88a2a..6dfb8e4 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -1805,7 +1805,7 @@ def draw_hist1d(ax, edges, hist, renormalize=False, nonzero=False, positive=Fals
 
         outs = []
         for zz in [xval, yval]:
-            zz = np.atleast_2d(zz).T
+            zz = np.atleast_2d(zz).T.astype(float)
             zz = np.reshape(zz, [half, 2], order='C')
             zz = np.pad(zz, [[0, 0], [0, 1]], constant_values=np.nan)
             zz = zz.reshape(size + half)
-- 
2.43.0


From 016ca6d2eee1232bb14678129ed117d03fe863a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:54 +0000
Subject: [PATCH 40/60] fix: weights given as a list raised TypeError in
 parse_edges() and carpet(limit=...)

---
 kalepy/plot.py  | 2 +-
 kalepy/utils.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index 6dfb8e4..d2096d7 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -993,7 +993,7 @@ def carpet(xx, weights=None, ax=None, ystd=None, yave=None, shift=0.0, limit=Non
         logging.debug("limiting carpet points from {:.2e} ==> {:.2e}".format(xx.size, limit))
         sel = np.random.choice(xx.size, limit, replace=False)
         xx = xx[sel]
-        weights = weights if (weights is None) else weights[sel]
+        weights = weights if (weights is None) else np.asarray(weights)[sel]
 
     if ax is None:
         ax = plt.gca()
diff --git a/kalepy/utils.py b/kalepy/utils.py
index a787a60..f1d3da6 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -1093,7 +1093,7 @@ def _guess_edges(data, extrema=None, ndim=None, weights=None, num_min=None, num_
                 np.shape(weights), np.shape(data))
             raise ValueError(err)
 
-        num_eff = np.sum(weights)**2 / np.sum(weights**2)
+        num_eff = np.sum(weights)**2 / np.sum(np.square(weights))
 
     if (ndim is not None) and (num_eff > 100):
         # num_eff = np.power(num_eff, 1.0 / ndim)
-- 
2.43.0


From 98a90119bfe754fc35403dec4bedf638d9bfb8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:31 +0000
Subject: [PATCH 41/60] fix: contours raised ValueError if quantiles have the
 same level (or for integer histograms), as did masks of uniform histograms

---
 kalepy/plot.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index d2096d7..d0441c9 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -1623,8 +1623,9 @@ def dist2d(kde_data, ax=None, edges=None, weights=None, params=[0, 1], quantiles
             _, levels, quantiles = _dfm_levels(hh, quantiles=quantiles)
             span = [levels.min(), hh.max()]
             mask_cmap = mpl.colors.ListedColormap('white')
-            # Draw
-            ax.contourf(*ee, hh, span, cmap=mask_cmap, antialiased=True, zorder=9, alpha=mask_alpha)
+            # Draw (unless all of the plotted bins have the same value, or are masked)
+            if span[0] < span[1]:
+                ax.contourf(*ee, hh, span, cmap=mask_cmap, antialiased=True, zorder=9, alpha=mask_alpha)
 
     return handle
 
@@ -2097,7 +2098,7 @@ def _dfm_levels(data, quantiles=None, sigmas=None):
     quantiles, sigmas = _default_quantiles(quantiles=quantiles, sigmas=sigmas)
 
     # Compute the density levels.
-    data = np.asarray(data).flatten()
+    data = np.asarray(data, dtype=float).flatten()
     inds = np.argsort(data)[::-1]
     data = data[inds]
     sm = np.cumsum(data)
@@ -2109,7 +2110,8 @@ def _dfm_levels(data, quantiles=None, sigmas=None):
         except:
             levels[i] = data[0]
 
-    levels.sort()
+    # levels of several quantiles can be the same, but must be increasing to be drawn
+    levels = np.unique(levels)
 
     # -- Remove Bad Levels
     # bad = (np.diff(levels) == 0)
-- 
2.43.0


From 585b9bd805909253166cd6f4b6125181d1b3a4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:01 +0000
Subject: [PATCH 42/60] fix: minmax() of integers truncated the stretched,
 previous and limiting extrema (so Corner limits excluded data)

---
 kalepy/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index f1d3da6..4711a02 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -386,7 +386,8 @@ def minmax(data, positive=False, prev=None, stretch=None, log_stretch=None, limi
 
     # Find extrema
     idx = (data > 0.0) if positive else slice(None)
-    minmax = np.array([np.min(data[idx]), np.max(data[idx])])
+    # (float, so that stretched and previous extrema are not truncated for integers)
+    minmax = np.array([np.min(data[idx]), np.max(data[idx])], dtype=float)
 
     # Add stretch (relative to center point)
     if (stretch is not None) or (log_stretch is not None):
-- 
2.43.0


From df7227f0cfa32de42fe8d8648af5c8526d2e3e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:59 +0000
Subject: [PATCH 43/60] fix: dist2d() and Corner.plot_data() raised
 AttributeError for data given as lists

---
 kalepy/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index d0441c9..02ab5ea 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -1505,7 +1505,7 @@ def dist2d(kde_data, ax=None, edges=None, weights=None, params=[0, 1], quantiles
         weights = None if kde._weights_uniform else kde.weights
     else:
         try:
-            data = kde_data
+            data = np.asarray(kde_data)
             kde = kale.KDE(data, weights=weights)
         except:
             err = "Failed to construct KDE from given data!"
@@ -2059,7 +2059,7 @@ def _parse_kde_data(kde_data, weights=None):
     # If the raw data is given, construct a KDE from it
     else:
         try:
-            data = kde_data
+            data = np.asarray(kde_data)
             kde = kale.KDE(kde_data, weights=weights)
         except:
             err = "Failed to construct `KDE` instance from given data!"
-- 
2.43.0


From f77c004ddeb33f5a5ffd6746365dc4e80f5a1baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:37 +0000
Subject: [PATCH 44/60] fix: `mass` with the wrong number of dimensions was
 accepted, and samples placed in the wrong bins

---
 kalepy/sample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/sample.py b/kalepy/sample.py
index d0e9267..361aa85 100644
--- a/kalepy/sample.py
+++ b/kalepy/sample.py
@@ -79,7 +79,7 @@ class Sample_Grid:
         #         raise ValueError(err)
         if mass is not None:
             mass = np.asarray(mass)
-        if (mass is not None) and np.any(np.shape(mass) != np.array(shape_bins)):
+        if (mass is not None) and (np.shape(mass) != tuple(shape_bins)):
             err = "Shape of `mass` ({}) inconsistent with shape of edges ({})!".format(np.shape(mass), shape_edges)
             raise ValueError(err)
 
-- 
2.43.0


From 041babce42b73e09ce69cb7553982be97a594c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:37 +0000
Subject: [PATCH 45/60] fix: scalars with a shape other than the grid's were
 accepted, returning values of the wrong bins

---
 kalepy/sample.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/kalepy/sample.py b/kalepy/sample.py
index 361aa85..783054a 100644
--- a/kalepy/sample.py
+++ b/kalepy/sample.py
@@ -83,6 +83,15 @@ class Sample_Grid:
             err = "Shape of `mass` ({}) inconsistent with shape of edges ({})!".format(np.shape(mass), shape_edges)
             raise ValueError(err)
 
+        # scalars have to be given at the same locations (edges or bins), or values would be from other bins
+        if (scalar_dens is not None) and (np.shape(scalar_dens) != tuple(shape_edges)):
+            err = "Shape of `scalar_dens` ({}) inconsistent with `dens` ({})!".format(np.shape(scalar_dens), shape)
+            raise ValueError(err)
+        if (scalar_mass is not None) and (np.shape(scalar_mass) != tuple(shape_bins)):
+            err = "Shape of `scalar_mass` ({}) inconsistent with shape of edges ({})!".format(
+                np.shape(scalar_mass), shape_edges)
+            raise ValueError(err)
+
         self._edges = edges
         self._dens = dens
         self._mass = mass
-- 
2.43.0


From 84dece10ef3e341611115a67efbd7a8123822e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:37 +0000
Subject: [PATCH 46/60] fix: quantiles() silently accepted more weights than
 values

---
 kalepy/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index 4711a02..48e4bbf 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -516,6 +516,9 @@ def quantiles(values, percs=None, sigmas=None, weights=None, axis=None, values_s
     if weights is None:
         weights = np.ones_like(values)
     weights = np.array(weights)
+    if weights.size != values.size:
+        err = "Shape of `weights` ({}) does not match `values` ({})!".format(weights.shape, values.shape)
+        raise ValueError(err)
     assert np.all(percs >= 0.0) and np.all(percs <= 1.0), 'percentiles must be in [0, 1]'
 
     if not values_sorted:
-- 
2.43.0


From f3ed8f308dfc38f3635ad036f68ac4958696e52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:37 +0000
Subject: [PATCH 47/60] fix: density() rejected params=[0] for 1D data

---
 kalepy/kde.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/kde.py b/kalepy/kde.py
index f080ffb..2dae3aa 100644
--- a/kalepy/kde.py
+++ b/kalepy/kde.py
@@ -332,7 +332,7 @@ class KDE:
         squeeze = False
         if params is not None:
             if (ndim == 1):
-                if params == 0:
+                if np.array_equal(np.atleast_1d(params), [0]):
                     params = None
                 else:
                     err = "Cannot specify `params` ('{}') > 0 for 1D data!".format(params)
-- 
2.43.0


From 5e0981879409b5ba9acb7367e4e59ee323eddb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:37 +0000
Subject: [PATCH 48/60] fix: confidence() silently accepted more weights than
 data points

---
 kalepy/plot.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index 02ab5ea..25364b6 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -1113,6 +1113,9 @@ def confidence(data, ax=None, weights=None, quantiles=[0.5, 0.9],
         data = np.sort(data)
         cdf = np.arange(data.size) / (data.size - 1)
     else:
+        if np.shape(weights) != np.shape(data):
+            err = "Shape of `weights` ({}) does not match `data` ({})!".format(np.shape(weights), np.shape(data))
+            raise ValueError(err)
         idx = np.argsort(data)
         data = np.asarray(data)[idx]
         weights = np.asarray(weights)[idx]
-- 
2.43.0


From 7261aa5c45a7368985ea9e41b4b6f841e882f58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:29 +0000
Subject: [PATCH 49/60] fix: rem_cov() without a covariance failed, or used the
 wrong one, for data not two-dimensional

---
 kalepy/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/utils.py b/kalepy/utils.py
index 48e4bbf..0d92bd8 100644
--- a/kalepy/utils.py
+++ b/kalepy/utils.py
@@ -653,7 +653,7 @@ def jshape(arr, level=0, printout=False, prepend="", indent="  "):
 
 def rem_cov(data, cov=None):
     if cov is None:
-        cov = np.cov(*data)
+        cov = np.atleast_2d(np.cov(data))
     color_mat = sp.linalg.cholesky(cov)
     uncolor_mat = np.linalg.inv(color_mat)
     white_data = np.dot(uncolor_mat.T, data)
-- 
2.43.0


From 443f02315d39215fd4253bcb3541053dea0002a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:21 +0000
Subject: [PATCH 50/60] fix: inside() of the kernel distributions raised errors
 for 1D points, and always for the Gaussian

---
 kalepy/kernels.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kalepy/kernels.py b/kalepy/kernels.py
index 9e6e4ac..89be71f 100644
--- a/kalepy/kernels.py
+++ b/kalepy/kernels.py
@@ -460,9 +460,9 @@ class Gaussian(_Distribution):
         return samps
 
     @staticmethod
-    def inside(cls, points):
+    def inside(points):
         if np.ndim(points) == 1:
-            shape = points.size
+            shape = np.size(points)
         else:
             ndim, *shape = np.shape(points)
         return np.ones(shape, dtype=bool)
@@ -634,7 +634,7 @@ def get_distribution_class(arg=None):
 
 def _inside_unit_nball(points):
     if np.ndim(points) == 1:
-        idx = (-1.0 < points < 1.0)
+        idx = (np.fabs(points) < 1.0)
     else:
         points = np.linalg.norm(points, axis=0)
         idx = (points < 1.0)
-- 
2.43.0


From e5388aff9f4392bd05b94f3c5bc736e2f71f95ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:21 +0000
Subject: [PATCH 51/60] fix: Corner modified the limits it was given, and
 target() failed for limits shared by all parameters

---
 kalepy/plot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index 25364b6..030352e 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -247,7 +247,8 @@ class Corner:
         # If axes limits are given, set axes to them
         if limits is not None:
             limit_flag = False
-            _set_corner_axes_extrema(self.axes, limits, rotate)
+            # This has one entry for each parameter; copy to not modify the caller's argument
+            limits = list(_set_corner_axes_extrema(self.axes, limits, rotate))
         # Otherwise, prepare to calculate limits during plotting
         else:
             limits = [None] * size
-- 
2.43.0


From 21b7a45bee87bb4bc253e6bcf824a2507defe14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:39 +0000
Subject: [PATCH 52/60] fix: the colormap given to plots was ignored whenever a
 color was also given, and in all Corner plots

---
 kalepy/plot.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index 030352e..31680e5 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -2190,15 +2190,16 @@ def _parse_color_cmap(ax=None, color=None, cmap=None):
             ax = plt.gca()
         color = _get_next_color(ax)
         cmap = _color_to_cmap(color)
-    elif (color is None):
+    elif (cmap is None):
+        cmap = _color_to_cmap(color)
+    else:
         try:
             cmap = plt.get_cmap(cmap)
         except ValueError:
             cmap = mpl.colors.ListedColormap(cmap)
 
-        color = cmap(0.5)
-    else:
-        cmap = _color_to_cmap(color)
+        if color is None:
+            color = cmap(0.5)
 
     return color, cmap
 
-- 
2.43.0


From adc981824f089fbd3c9d6301b706da713bf58f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:39 +0000
Subject: [PATCH 53/60] fix: carpet() and confidence() advanced the color cycle
 even when they were given a color

---
 kalepy/plot.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index 31680e5..caa10d9 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -1049,7 +1049,9 @@ def carpet(xx, weights=None, ax=None, ystd=None, yave=None, shift=0.0, limit=Non
         size = (size / 1.5) * (1.5 + dev)
 
     # Set parameters
-    color = kwargs.pop('color', _get_next_color(ax))
+    color = kwargs.pop('color', None)
+    if color is None:
+        color = _get_next_color(ax)
     kwargs.setdefault('facecolor', color)
     kwargs.setdefault('edgecolor', 'none')
     kwargs.setdefault('marker', '.')
@@ -1104,7 +1106,9 @@ def confidence(data, ax=None, weights=None, quantiles=[0.5, 0.9],
     if ax is None:
         ax = plt.gca()
 
-    color = kwargs.pop('color', _get_next_color(ax))
+    color = kwargs.pop('color', None)
+    if color is None:
+        color = _get_next_color(ax)
     kwargs['facecolor'] = color
     kwargs['edgecolor'] = 'none'
     kwargs.setdefault('alpha', 0.1)
-- 
2.43.0


From f6f68f4231030bcb57fee0a07b97e8912a3e699b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:19 +0000
Subject: [PATCH 54/60] fix: Corner.legend() ignored the bounding box it was
 given, and its location

---
 kalepy/plot.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index caa10d9..70501de 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -777,24 +777,28 @@ class Corner:
                 size = self.size
                 if size in [2, 3, 4]:
                     index = (0, -1)
-                    loc = 'lower left'
+                    def_loc = 'lower left'
                 elif size == 1:
                     index = (0, 0)
-                    loc = 'upper right'
+                    def_loc = 'upper right'
                 elif size % 2 == 0:
                     index = size // 2
                     index = (1, index)
-                    loc = 'lower left'
+                    def_loc = 'lower left'
                 else:
                     index = (size // 2) + 1
-                    loc = 'lower left'
+                    def_loc = 'lower left'
                     index = (size-index-1, index)
 
+                if loc is None:
+                    loc = def_loc
+
             bbox = self.axes[index].get_position()
             bbox = (bbox.x0, bbox.y0)
-            kwargs['bbox_to_anchor'] = bbox
             kwargs.setdefault('bbox_transform', fig.transFigure)
 
+        kwargs['bbox_to_anchor'] = bbox
+
         # Set other defaults
         leg = fig.legend(handles, labels, fancybox=fancybox,
                          borderaxespad=borderaxespad, loc=loc, **kwargs)
-- 
2.43.0


From ad1eabbd7455c4c42ddee8d1e9c92aee18897a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:54 +0000
Subject: [PATCH 55/60] fix: carpet() failed on axes with a negative upper
 limit, such as after another carpet

---
 kalepy/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index 70501de..66a68ad 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -1007,7 +1007,7 @@ def carpet(xx, weights=None, ax=None, ystd=None, yave=None, shift=0.0, limit=Non
     if ystd is None:
         if yave is None:
             get_lim_func = ax.get_xlim if rotate else ax.get_ylim
-            ystd = get_lim_func()[1] * 0.02
+            ystd = np.fabs(get_lim_func()[1]) * 0.02
         else:
             ystd = np.fabs(yave) / 5.0
 
-- 
2.43.0


From 76b8085d84a9449b05490840e0fd166543a40ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:27 +0000
Subject: [PATCH 56/60] fix: default points did not resolve the kernel (and
 CDFs were NaN) for data in small units, the relative bandwidth being taken
 for a width

---
 kalepy/kde.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kalepy/kde.py b/kalepy/kde.py
index 2dae3aa..8c1d13f 100644
--- a/kalepy/kde.py
+++ b/kalepy/kde.py
@@ -658,9 +658,11 @@ class KDE:
         # `extrema` is already set to include preset `reflect` values and takes into account
         #   whether the kernel is finite or not (see `KDE.__init__`)
         extrema = self.extrema
+        # Widths of the kernel in each dimension, in the units of the data (`bandwidth` is relative to its covariance)
+        widths = np.diag(np.sqrt(self.kernel.matrix.diagonal()))
         points = utils.parse_edges(
             self.dataset, edges=self._points, extrema=extrema, weights=self.weights,
-            nmin=3, nmax=200, pad=0, refine=self._EDGE_REFINEMENT, bw=self.bandwidth)
+            nmin=3, nmax=200, pad=0, refine=self._EDGE_REFINEMENT, bw=widths)
 
         # If input `data` to KDE is given as 1D array, then give 1D points (instead of `(1, E)`)
         if self._squeeze:
-- 
2.43.0


From 72d8a1223db024c73f13e935972ab759b5f50203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:02 +0000
Subject: [PATCH 57/60] fix: dist2d() and corners failed for contours of a
 single level, without histogram and scatter

---
 kalepy/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index 66a68ad..b20d89d 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -1599,7 +1599,7 @@ def dist2d(kde_data, ax=None, edges=None, weights=None, params=[0, 1], quantiles
             cmap=contour_cmap, zorder=20, ls=ls, outline=outline,
         )
         if handle is None:
-            hi = 1 if len(_handle.collections) > 0 else 0
+            hi = 1 if len(_handle.collections) > 1 else 0
             handle = _handle.collections[hi]
             # for some reason the above handle is not showing up on legends... create a dummy line
             # to get a better handle
-- 
2.43.0


From f3f101aa686e015a87a0b52faf57ce2f599d9ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:02 +0000
Subject: [PATCH 58/60] fix: Corner(fig=) adjusted the layout of the current
 figure, instead of the one given

---
 kalepy/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index b20d89d..715796d 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -2023,7 +2023,7 @@ def _figax(size, fig=None, grid=True, left=None, bottom=None, right=None, top=No
 
     axes = fig.subplots(squeeze=False, ncols=size, nrows=size, **kwargs)
 
-    plt.subplots_adjust(
+    fig.subplots_adjust(
         left=left, bottom=bottom, right=right, top=top, hspace=hspace, wspace=wspace
     )
     if grid is True:
-- 
2.43.0


From 34338b67c9adc8b46e06eb8b5f57e236499be8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:41 +0000
Subject: [PATCH 59/60] fix: the handle returned by dist1d() for a carpet only
 was a tuple including the extrema, and failed in legends

---
 kalepy/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index 715796d..2b689d0 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -1391,7 +1391,7 @@ def dist1d(kde_data, ax=None, edges=None, weights=None, probability=True, param=
 
     # Draw Carpet Plot
     if carpet is not None:
-        hh = _carpet(data, weights=weights, ax=ax, color=color, rotate=rotate, limit=carpet)
+        hh, _ = _carpet(data, weights=weights, ax=ax, color=color, rotate=rotate, limit=carpet)
         if handle is None:
             handle = hh
 
-- 
2.43.0


From 3c24779f1000cfa931b14af9afd8f7ced54f8d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:01 +0000
Subject: [PATCH 60/60] fix: Corner(grid=False) had no effect, the grid being
 turned on again

---
 kalepy/plot.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kalepy/plot.py b/kalepy/plot.py
index 2b689d0..01849fb 100644
--- a/kalepy/plot.py
+++ b/kalepy/plot.py
@@ -151,6 +151,7 @@ class Corner:
         origin = _parse_origin(origin)
 
         # -- Construct figure and axes
+        grid = (axes is not None)
         if axes is None:
             fig, axes = _figax(size, **kwfig)
             self.fig = fig
@@ -182,7 +183,9 @@ class Corner:
                 ax.set_visible(False)
                 continue
 
-            ax.grid(True)
+            # NOTE: without given axes, `_figax()` takes care of the grid
+            if grid:
+                ax.grid(True)
 
             # Bottom row
             if ii == last:
-- 
2.43.0

