From d525fc1da885da2ababe6bd6500fce090cd40904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:03 +0000
Subject: [PATCH 01/10] fix: find the permutation when scores are all infinite
 or of both signs

---
 fast_bss_eval/numpy/helpers.py | 19 ++++++++-----------
 fast_bss_eval/torch/helpers.py | 28 +++++++++-------------------
 2 files changed, 17 insertions(+), 30 deletions(-)

diff --git a/fast_bss_eval/numpy/helpers.py b/fast_bss_eval/numpy/helpers.py
index 0519398..0493233 100644
--- a/fast_bss_eval/numpy/helpers.py
+++ b/fast_bss_eval/numpy/helpers.py
@@ -125,25 +125,22 @@ def _linear_sum_assignment_with_inf(
     to handle infinite entries in the cost matrix.
     """
     cost_matrix = np.asarray(cost_matrix)
-    min_inf = np.isneginf(cost_matrix).any()
-    max_inf = np.isposinf(cost_matrix).any()
-    if min_inf and max_inf:
-        raise ValueError("matrix contains both inf and -inf")
+    min_inf = np.isneginf(cost_matrix)
+    max_inf = np.isposinf(cost_matrix)
 
-    if min_inf or max_inf:
+    if min_inf.any() or max_inf.any():
         cost_matrix = cost_matrix.copy()
         values = cost_matrix[~np.isinf(cost_matrix)]
+        if values.size == 0:
+            # all the entries are infinite
+            values = np.zeros_like(cost_matrix, shape=(1,))
         m = values.min()
         M = values.max()
         n = min(cost_matrix.shape)
         # strictly positive constant even when added
         # to elements of the cost matrix
         positive = n * (M - m + np.abs(M) + np.abs(m) + 1)
-        if max_inf:
-            place_holder = (M + (n - 1) * (M - m)) + positive
-        if min_inf:
-            place_holder = (m + (n - 1) * (m - M)) - positive
-
-        cost_matrix[np.isinf(cost_matrix)] = place_holder
+        cost_matrix[max_inf] = (M + (n - 1) * (M - m)) + positive
+        cost_matrix[min_inf] = (m + (n - 1) * (m - M)) - positive
 
     return linear_sum_assignment(cost_matrix)
diff --git a/fast_bss_eval/torch/helpers.py b/fast_bss_eval/torch/helpers.py
index 6e32e05..9bbf2aa 100644
--- a/fast_bss_eval/torch/helpers.py
+++ b/fast_bss_eval/torch/helpers.py
@@ -124,33 +124,23 @@ def _linear_sum_assignment_with_inf(
 
     # we don't need to keep track of the gradient while solving the permutation
     with torch.no_grad():
-        try:
-            min_inf = torch.isneginf(cost_matrix).any()
-            max_inf = torch.isposinf(cost_matrix).any()
-        except AttributeError:
-            # compat. with pytorch<=1.6
-            min_inf = torch.isinf(torch.clamp(cost_matrix, max=0.0)).any()
-            max_inf = torch.isinf(torch.clamp(cost_matrix, min=0.0)).any()
-
-        if min_inf and max_inf:
-            print(cost_matrix)
-            raise ValueError("matrix contains both inf and -inf")
-
-        if min_inf or max_inf:
+        min_inf = cost_matrix == -float("inf")
+        max_inf = cost_matrix == float("inf")
+
+        if min_inf.any() or max_inf.any():
             cost_matrix = cost_matrix.clone()
             values = cost_matrix[~torch.isinf(cost_matrix)]
+            if values.numel() == 0:
+                # all the entries are infinite
+                values = cost_matrix.new_zeros(1)
             m = values.min()
             M = values.max()
             n = min(cost_matrix.shape)
             # strictly positive constant even when added
             # to elements of the cost matrix
             positive = n * (M - m + torch.abs(M) + torch.abs(m) + 1)
-            if max_inf:
-                place_holder = (M + (n - 1) * (M - m)) + positive
-            if min_inf:
-                place_holder = (m + (n - 1) * (m - M)) - positive
-
-            cost_matrix[torch.isinf(cost_matrix)] = place_holder
+            cost_matrix[max_inf] = (M + (n - 1) * (M - m)) + positive
+            cost_matrix[min_inf] = (m + (n - 1) * (m - M)) - positive
 
         ret = linear_sum_assignment(cost_matrix)
 
-- 
2.43.0


From bc15e56b971fa0c740bcb7250242200b32d8c694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:03 +0000
Subject: [PATCH 02/10] fix: enforce the range of clamp_db in single precision

---
 fast_bss_eval/numpy/helpers.py | 5 +++++
 fast_bss_eval/torch/helpers.py | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/fast_bss_eval/numpy/helpers.py b/fast_bss_eval/numpy/helpers.py
index 0493233..920f5f6 100644
--- a/fast_bss_eval/numpy/helpers.py
+++ b/fast_bss_eval/numpy/helpers.py
@@ -65,6 +65,11 @@ def _coherence_to_neg_sdr(
 
     ratio = (1 - coh) / coh
 
+    if clamp_db is not None:
+        # in low precision, the rounding of 1 - eps may let the ratio escape the range
+        e = 10.0 ** (-clamp_db / 10.0)
+        ratio = clamp(ratio, min=e, max=1.0 / e)
+
     # apply the SDR mapping
     return 10.0 * np.log10(ratio)
 
diff --git a/fast_bss_eval/torch/helpers.py b/fast_bss_eval/torch/helpers.py
index 9bbf2aa..1bf93d9 100644
--- a/fast_bss_eval/torch/helpers.py
+++ b/fast_bss_eval/torch/helpers.py
@@ -59,6 +59,11 @@ def _coherence_to_neg_sdr(
 
     ratio = (1 - coh) / coh
 
+    if clamp_db is not None:
+        # in low precision, the rounding of 1 - eps may let the ratio escape the range
+        e = 10.0 ** (-clamp_db / 10.0)
+        ratio = torch.clamp(ratio, min=e, max=1.0 / e)
+
     # apply the SDR mapping
     return 10.0 * torch.log10(ratio)
 
-- 
2.43.0


From 7b102fe0de1600a968d9ed522a52ee76d610dbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:03 +0000
Subject: [PATCH 03/10] fix: avoid aliasing of the statistics when the filter
 is longer than the signals

---
 fast_bss_eval/numpy/metrics.py | 6 ++++--
 fast_bss_eval/torch/metrics.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/fast_bss_eval/numpy/metrics.py b/fast_bss_eval/numpy/metrics.py
index ac9dcd5..38a4d84 100644
--- a/fast_bss_eval/numpy/metrics.py
+++ b/fast_bss_eval/numpy/metrics.py
@@ -113,7 +113,8 @@ def compute_stats(
     if length is None:
         length = x.shape[-1]
 
-    max_len = max(x.shape[-1], y.shape[-1])
+    # the FFT has to be long enough to avoid aliasing at all the lags we keep
+    max_len = max(x.shape[-1], y.shape[-1], length)
     n_fft = 2 ** math.ceil(math.log2(x.shape[-1] + max_len - 1))
 
     X = fft.rfft(x, n=n_fft, axis=-1)
@@ -163,7 +164,8 @@ def compute_stats_2(
     if length is None:
         length = x.shape[-1]
 
-    max_len = max(x.shape[-1], y.shape[-1])
+    # the FFT has to be long enough to avoid aliasing at all the lags we keep
+    max_len = max(x.shape[-1], y.shape[-1], length)
     n_fft = 2 ** math.ceil(math.log2(x.shape[-1] + max_len - 1))
 
     X = fft.rfft(x, n=n_fft, axis=-1)
diff --git a/fast_bss_eval/torch/metrics.py b/fast_bss_eval/torch/metrics.py
index 003e274..8901706 100644
--- a/fast_bss_eval/torch/metrics.py
+++ b/fast_bss_eval/torch/metrics.py
@@ -108,7 +108,8 @@ def compute_stats(
     if length is None:
         length = x.shape[-1]
 
-    max_len = max(x.shape[-1], y.shape[-1])
+    # the FFT has to be long enough to avoid aliasing at all the lags we keep
+    max_len = max(x.shape[-1], y.shape[-1], length)
     n_fft = 2 ** math.ceil(math.log2(x.shape[-1] + max_len - 1))
 
     X = rfft(x, n=n_fft, dim=-1)
@@ -159,7 +160,8 @@ def compute_stats_2(
     if length is None:
         length = x.shape[-1]
 
-    max_len = max(x.shape[-1], y.shape[-1])
+    # the FFT has to be long enough to avoid aliasing at all the lags we keep
+    max_len = max(x.shape[-1], y.shape[-1], length)
     n_fft = 2 ** math.ceil(math.log2(x.shape[-1] + max_len - 1))
 
     X = rfft(x, n=n_fft, dim=-1)
-- 
2.43.0


From 01d314f1928821ccd0dc6bed91fa243953d4dc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:25 +0000
Subject: [PATCH 04/10] fix: make all functions available on numpy arrays
 without pytorch

---
 fast_bss_eval/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fast_bss_eval/__init__.py b/fast_bss_eval/__init__.py
index 5a62d0d..32f2859 100644
--- a/fast_bss_eval/__init__.py
+++ b/fast_bss_eval/__init__.py
@@ -292,6 +292,11 @@ except ImportError:
         bss_eval_sources = None
         sdr = None
         sdr_loss = None
+        sdr_pit_loss = None
+        si_bss_eval_sources = None
+        si_sdr = None
+        si_sdr_loss = None
+        si_sdr_pit_loss = None
 
 
 from . import numpy as numpy
-- 
2.43.0


From f49ae363275f4bb68532247db9bc794e642949b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:25 +0000
Subject: [PATCH 05/10] fix: catch the missing packaging module

---
 fast_bss_eval/torch/compatibility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fast_bss_eval/torch/compatibility.py b/fast_bss_eval/torch/compatibility.py
index b3f2764..cc6c819 100644
--- a/fast_bss_eval/torch/compatibility.py
+++ b/fast_bss_eval/torch/compatibility.py
@@ -29,7 +29,7 @@ For torch<=1.5 the torch_complex library is used.
 """
 try:
     from packaging.version import Version
-except [ImportError, ModuleNotFoundError]:
+except ImportError:
     from distutils.version import LooseVersion as Version
 
 import torch
-- 
2.43.0


From 4294ee38a207d8916604b67ba86ca4961334888a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:25 +0000
Subject: [PATCH 06/10] fix: use the dtype and device of the inputs for helper
 tensors

---
 fast_bss_eval/torch/cgd.py     | 5 +++--
 fast_bss_eval/torch/metrics.py | 4 +++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/fast_bss_eval/torch/cgd.py b/fast_bss_eval/torch/cgd.py
index 80e10d1..d0b0417 100644
--- a/fast_bss_eval/torch/cgd.py
+++ b/fast_bss_eval/torch/cgd.py
@@ -35,7 +35,8 @@ def optimal_symmetric_circulant_precond_column(
     Froebenius norm
     """
     n = col_toeplitz.shape[-1]
-    b = torch.arange(1, n, device=col_toeplitz.device) / float(n)
+    b = torch.arange(1, n, dtype=col_toeplitz.dtype, device=col_toeplitz.device)
+    b = b / float(n)
     w = col_toeplitz[..., 1:] * b.flip(dims=(-1,))
     col_circ = torch.cat((col_toeplitz[..., :1], w + w.flip(dims=(-1,))), dim=-1)
     return col_circ
@@ -63,7 +64,7 @@ def optimal_nonsymmetric_circulant_precond_column(
     if n is None:
         n = (r.shape[-1] + 1) // 2
 
-    b = torch.arange(1, n, device=r.device) / float(n)
+    b = torch.arange(1, n, dtype=r.dtype, device=r.device) / float(n)
 
     # s2 = r[..., 1:n]
     # s1 = r[..., -n + 1 :]
diff --git a/fast_bss_eval/torch/metrics.py b/fast_bss_eval/torch/metrics.py
index 8901706..bc3f1cd 100644
--- a/fast_bss_eval/torch/metrics.py
+++ b/fast_bss_eval/torch/metrics.py
@@ -60,7 +60,9 @@ def square_cosine_metrics_length_one_filter(
     if with_coh_sar:
         acm = torch.einsum("...cn,...dn->...cd", ref, ref)
         if load_diag is not None:
-            acm = acm + torch.eye(acm.shape[-1]) * load_diag
+            acm = acm + torch.eye(
+                acm.shape[-1], dtype=acm.dtype, device=acm.device
+            ) * load_diag
         sol = solve(acm, xcorr)
         coh_sar = torch.einsum("...lc,...lc->...c", xcorr, sol)
 
-- 
2.43.0


From d7b570397ade8b0764187fd4340e5f990a27ac55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:25 +0000
Subject: [PATCH 07/10] fix: keep single precision with the iterative solver
 and loading in numpy

---
 fast_bss_eval/numpy/cgd.py     | 3 +++
 fast_bss_eval/numpy/metrics.py | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/fast_bss_eval/numpy/cgd.py b/fast_bss_eval/numpy/cgd.py
index c0df900..eb8c47e 100644
--- a/fast_bss_eval/numpy/cgd.py
+++ b/fast_bss_eval/numpy/cgd.py
@@ -354,6 +354,9 @@ def conjugate_gradient(
         if x_true is not None:
             errors.append(np.mean(np.linalg.norm(x - x_true, axis=-2)))
 
+    # numpy's FFT always computes in double precision
+    x = x.astype(b.dtype, copy=False)
+
     if add_axis:
         x = x[..., 0]
 
diff --git a/fast_bss_eval/numpy/metrics.py b/fast_bss_eval/numpy/metrics.py
index 38a4d84..9dbb8ad 100644
--- a/fast_bss_eval/numpy/metrics.py
+++ b/fast_bss_eval/numpy/metrics.py
@@ -65,7 +65,7 @@ def square_cosine_metrics_length_one_filter(
     if with_coh_sar:
         acm = np.einsum("...cn,...dn->...cd", ref, ref)
         if load_diag is not None:
-            acm = acm + np.eye(acm.shape[-1]) * load_diag
+            acm = acm + np.eye(acm.shape[-1], dtype=acm.dtype) * load_diag
         sol = np.linalg.solve(acm, xcorr)
         coh_sar = np.einsum("...lc,...lc->...c", xcorr, sol)
 
-- 
2.43.0


From 05519e1f309c304dff3148de27faf57f3c1d2761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:25 +0000
Subject: [PATCH 08/10] fix: apply load_diag to the SDR as to the SAR for
 filters of length one

---
 fast_bss_eval/numpy/metrics.py | 6 +++++-
 fast_bss_eval/torch/metrics.py | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/fast_bss_eval/numpy/metrics.py b/fast_bss_eval/numpy/metrics.py
index 9dbb8ad..c663b3a 100644
--- a/fast_bss_eval/numpy/metrics.py
+++ b/fast_bss_eval/numpy/metrics.py
@@ -62,6 +62,10 @@ def square_cosine_metrics_length_one_filter(
         coh_sdr = np.einsum("...n,...n->...", ref, est)
     coh_sdr = np.square(coh_sdr)
 
+    if load_diag is not None:
+        diag = np.einsum("...n,...n->...", ref, ref) + load_diag
+        coh_sdr = coh_sdr / (diag[..., None] if pairwise else diag)
+
     if with_coh_sar:
         acm = np.einsum("...cn,...dn->...cd", ref, ref)
         if load_diag is not None:
@@ -242,7 +246,7 @@ def sdr_loss(
             ref,
             est,
             zero_mean=zero_mean,
-            load_diag=None,
+            load_diag=load_diag,
             pairwise=pairwise,
             with_coh_sar=False,
         )
diff --git a/fast_bss_eval/torch/metrics.py b/fast_bss_eval/torch/metrics.py
index bc3f1cd..f0c7339 100644
--- a/fast_bss_eval/torch/metrics.py
+++ b/fast_bss_eval/torch/metrics.py
@@ -57,6 +57,10 @@ def square_cosine_metrics_length_one_filter(
         coh_sdr = torch.einsum("...n,...n->...", ref, est)
     coh_sdr = coh_sdr**2
 
+    if load_diag is not None:
+        diag = torch.einsum("...n,...n->...", ref, ref) + load_diag
+        coh_sdr = coh_sdr / (diag[..., None] if pairwise else diag)
+
     if with_coh_sar:
         acm = torch.einsum("...cn,...dn->...cd", ref, ref)
         if load_diag is not None:
@@ -240,7 +244,7 @@ def sdr_loss(
             ref,
             est,
             zero_mean=zero_mean,
-            load_diag=None,
+            load_diag=load_diag,
             pairwise=pairwise,
             with_coh_sar=False,
         )
-- 
2.43.0


From 00b6c855238ea56a644bd7f2edade0ee62891e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:30 +0000
Subject: [PATCH 09/10] fix: accurate single precision sums for long and for
 non-contiguous signals

---
 fast_bss_eval/numpy/helpers.py | 4 ++++
 fast_bss_eval/numpy/metrics.py | 9 +++++----
 fast_bss_eval/torch/helpers.py | 5 ++++-
 fast_bss_eval/torch/metrics.py | 4 ++--
 4 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/fast_bss_eval/numpy/helpers.py b/fast_bss_eval/numpy/helpers.py
index 920f5f6..7a4e620 100644
--- a/fast_bss_eval/numpy/helpers.py
+++ b/fast_bss_eval/numpy/helpers.py
@@ -36,12 +36,16 @@ def clamp(x, min=None, max=None):
 
 
 def _remove_mean(x: np.ndarray, axis: Optional[int] = -1) -> np.ndarray:
+    # numpy sums accurately only along contiguous elements
+    x = np.ascontiguousarray(x)
     return x - x.mean(axis=axis, keepdims=True)
 
 
 def _normalize(
     x: np.ndarray, eps: Optional[float] = 1e-6, axis: Optional[int] = None
 ) -> np.ndarray:
+    # numpy sums accurately only along contiguous elements
+    x = np.ascontiguousarray(x)
     x = x / clamp(np.linalg.norm(x, axis=axis, keepdims=True), min=eps)
     return x
 
diff --git a/fast_bss_eval/numpy/metrics.py b/fast_bss_eval/numpy/metrics.py
index c663b3a..d836a9c 100644
--- a/fast_bss_eval/numpy/metrics.py
+++ b/fast_bss_eval/numpy/metrics.py
@@ -54,20 +54,21 @@ def square_cosine_metrics_length_one_filter(
     est = _normalize(est, axis=-1)
 
     if pairwise or with_coh_sar:
-        xcorr = np.einsum("...cn,...dn->...cd", ref, est)
+        # the rounding errors of einsum grow with the number of samples
+        xcorr = ref @ est.swapaxes(-2, -1)
 
     if pairwise:
         coh_sdr = xcorr
     else:
-        coh_sdr = np.einsum("...n,...n->...", ref, est)
+        coh_sdr = (ref * est).sum(axis=-1)
     coh_sdr = np.square(coh_sdr)
 
     if load_diag is not None:
-        diag = np.einsum("...n,...n->...", ref, ref) + load_diag
+        diag = (ref * ref).sum(axis=-1) + load_diag
         coh_sdr = coh_sdr / (diag[..., None] if pairwise else diag)
 
     if with_coh_sar:
-        acm = np.einsum("...cn,...dn->...cd", ref, ref)
+        acm = ref @ ref.swapaxes(-2, -1)
         if load_diag is not None:
             acm = acm + np.eye(acm.shape[-1], dtype=acm.dtype) * load_diag
         sol = np.linalg.solve(acm, xcorr)
diff --git a/fast_bss_eval/torch/helpers.py b/fast_bss_eval/torch/helpers.py
index 1bf93d9..2cfd58d 100644
--- a/fast_bss_eval/torch/helpers.py
+++ b/fast_bss_eval/torch/helpers.py
@@ -34,7 +34,10 @@ def _remove_mean(x: torch.Tensor, dim: Optional[int] = -1) -> torch.Tensor:
 def _normalize(
     x: torch.Tensor, eps: Optional[float] = 1e-6, dim: Optional[int] = None
 ) -> torch.Tensor:
-    x = x / torch.clamp(x.norm(dim=dim, keepdim=True), min=eps)
+    # the rounding errors of norm grow with the number of samples, those of sum do not
+    y = x.to(torch.promote_types(x.dtype, torch.float32))
+    norm = (y * y).sum(dim=dim, keepdim=True).clamp(min=eps**2).sqrt()
+    x = x / norm.to(x.dtype)
     return x
 
 
diff --git a/fast_bss_eval/torch/metrics.py b/fast_bss_eval/torch/metrics.py
index f0c7339..03dffae 100644
--- a/fast_bss_eval/torch/metrics.py
+++ b/fast_bss_eval/torch/metrics.py
@@ -54,11 +54,11 @@ def square_cosine_metrics_length_one_filter(
     if pairwise:
         coh_sdr = xcorr
     else:
-        coh_sdr = torch.einsum("...n,...n->...", ref, est)
+        coh_sdr = (ref * est).sum(dim=-1)
     coh_sdr = coh_sdr**2
 
     if load_diag is not None:
-        diag = torch.einsum("...n,...n->...", ref, ref) + load_diag
+        diag = (ref * ref).sum(dim=-1) + load_diag
         coh_sdr = coh_sdr / (diag[..., None] if pairwise else diag)
 
     if with_coh_sar:
-- 
2.43.0


From 8f29342671a4384fbb0f278d201c188f6f452608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:05 +0000
Subject: [PATCH 10/10] fix: sum the inner products of long signals blockwise
 in the length one case

---
 fast_bss_eval/numpy/helpers.py | 15 +++++++++++++++
 fast_bss_eval/numpy/metrics.py |  6 +++---
 fast_bss_eval/torch/helpers.py | 15 +++++++++++++++
 fast_bss_eval/torch/metrics.py | 12 +++++++++---
 4 files changed, 42 insertions(+), 6 deletions(-)

diff --git a/fast_bss_eval/numpy/helpers.py b/fast_bss_eval/numpy/helpers.py
index 7a4e620..b4c5062 100644
--- a/fast_bss_eval/numpy/helpers.py
+++ b/fast_bss_eval/numpy/helpers.py
@@ -50,6 +50,21 @@ def _normalize(
     return x
 
 
+def _inner_products(x: np.ndarray, y: np.ndarray, block: Optional[int] = 1024) -> np.ndarray:
+    """
+    Inner products of the rows of x, (..., c, n), with those of y, (..., d, n).
+    The blocks of samples are summed separately so that the rounding errors do
+    not grow with the number of samples.
+    """
+    n = x.shape[-1] // block * block
+    prod = x[..., n:] @ y[..., n:].swapaxes(-2, -1)
+    if n > 0:
+        x = x[..., :n].reshape(x.shape[:-1] + (-1, block)).swapaxes(-3, -2)
+        y = y[..., :n].reshape(y.shape[:-1] + (-1, block)).swapaxes(-3, -2)
+        prod = prod + (x @ y.swapaxes(-2, -1)).sum(axis=-3)
+    return prod
+
+
 def _db_clamp_eps(db_max: float) -> float:
     e = 10.0 ** (-db_max / 10.0)
     eps = e / (1.0 + e)
diff --git a/fast_bss_eval/numpy/metrics.py b/fast_bss_eval/numpy/metrics.py
index d836a9c..de257d6 100644
--- a/fast_bss_eval/numpy/metrics.py
+++ b/fast_bss_eval/numpy/metrics.py
@@ -27,6 +27,7 @@ from scipy import fft
 from .cgd import block_toeplitz_conjugate_gradient, toeplitz_conjugate_gradient
 from .helpers import (
     _coherence_to_neg_sdr,
+    _inner_products,
     _normalize,
     _remove_mean,
     _solve_permutation,
@@ -54,8 +55,7 @@ def square_cosine_metrics_length_one_filter(
     est = _normalize(est, axis=-1)
 
     if pairwise or with_coh_sar:
-        # the rounding errors of einsum grow with the number of samples
-        xcorr = ref @ est.swapaxes(-2, -1)
+        xcorr = _inner_products(ref, est)
 
     if pairwise:
         coh_sdr = xcorr
@@ -68,7 +68,7 @@ def square_cosine_metrics_length_one_filter(
         coh_sdr = coh_sdr / (diag[..., None] if pairwise else diag)
 
     if with_coh_sar:
-        acm = ref @ ref.swapaxes(-2, -1)
+        acm = _inner_products(ref, ref)
         if load_diag is not None:
             acm = acm + np.eye(acm.shape[-1], dtype=acm.dtype) * load_diag
         sol = np.linalg.solve(acm, xcorr)
diff --git a/fast_bss_eval/torch/helpers.py b/fast_bss_eval/torch/helpers.py
index 2cfd58d..30096a2 100644
--- a/fast_bss_eval/torch/helpers.py
+++ b/fast_bss_eval/torch/helpers.py
@@ -41,6 +41,21 @@ def _normalize(
     return x
 
 
+def _inner_products(x: torch.Tensor, y: torch.Tensor, block: Optional[int] = 1024) -> torch.Tensor:
+    """
+    Inner products of the rows of x, (..., c, n), with those of y, (..., d, n).
+    The blocks of samples are summed separately so that the rounding errors do
+    not grow with the number of samples.
+    """
+    n = x.shape[-1] // block * block
+    prod = x[..., n:] @ y[..., n:].transpose(-2, -1)
+    if n > 0:
+        x = x[..., :n].reshape(x.shape[:-1] + (-1, block)).transpose(-3, -2)
+        y = y[..., :n].reshape(y.shape[:-1] + (-1, block)).transpose(-3, -2)
+        prod = prod + (x @ y.transpose(-2, -1)).sum(dim=-3)
+    return prod
+
+
 def _db_clamp_eps(db_max: float) -> float:
     e = 10.0 ** (-db_max / 10.0)
     eps = e / (1.0 + e)
diff --git a/fast_bss_eval/torch/metrics.py b/fast_bss_eval/torch/metrics.py
index 03dffae..50e4234 100644
--- a/fast_bss_eval/torch/metrics.py
+++ b/fast_bss_eval/torch/metrics.py
@@ -25,7 +25,13 @@ import torch
 
 from .cgd import block_toeplitz_conjugate_gradient, toeplitz_conjugate_gradient
 from .compatibility import einsum, irfft, rfft, solve
-from .helpers import _coherence_to_neg_sdr, _normalize, _remove_mean, _solve_permutation
+from .helpers import (
+    _coherence_to_neg_sdr,
+    _inner_products,
+    _normalize,
+    _remove_mean,
+    _solve_permutation,
+)
 from .linalg import block_toeplitz, toeplitz
 
 
@@ -49,7 +55,7 @@ def square_cosine_metrics_length_one_filter(
     est = _normalize(est, dim=-1)
 
     if pairwise or with_coh_sar:
-        xcorr = torch.einsum("...cn,...dn->...cd", ref, est)
+        xcorr = _inner_products(ref, est)
 
     if pairwise:
         coh_sdr = xcorr
@@ -62,7 +68,7 @@ def square_cosine_metrics_length_one_filter(
         coh_sdr = coh_sdr / (diag[..., None] if pairwise else diag)
 
     if with_coh_sar:
-        acm = torch.einsum("...cn,...dn->...cd", ref, ref)
+        acm = _inner_products(ref, ref)
         if load_diag is not None:
             acm = acm + torch.eye(
                 acm.shape[-1], dtype=acm.dtype, device=acm.device
-- 
2.43.0

