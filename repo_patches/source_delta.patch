From 22d26967ae1124ecd9d93f4ab9c518efe223e9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:52 +0000
Subject: [PATCH 1/4] fix: numpy inputs work with every public function when
 torch is missing

The stand-in torch namespace lacked five of the eight functions the dispatchers
look up, so they raised AttributeError on numpy arrays without torch.
---
 fast_bss_eval/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fast_bss_eval/__init__.py b/fast_bss_eval/__init__.py
index 5a62d0d..32f2859 100644
--- a/fast_bss_eval/__init__.py
+++ b/fast_bss_eval/__init__.py
@@ -292,6 +292,11 @@ except ImportError:
         bss_eval_sources = None
         sdr = None
         sdr_loss = None
+        sdr_pit_loss = None
+        si_bss_eval_sources = None
+        si_sdr = None
+        si_sdr_loss = None
+        si_sdr_pit_loss = None
 
 
 from . import numpy as numpy
-- 
2.43.0


From 6eb5bc1709bf5b83a54281188cd7c4a2b73b44cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:53 +0000
Subject: [PATCH 2/4] fix: fall back to distutils when packaging is missing

A list is not a valid except clause, so a missing packaging module raised
TypeError on import instead of taking the fallback.
---
 fast_bss_eval/torch/compatibility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fast_bss_eval/torch/compatibility.py b/fast_bss_eval/torch/compatibility.py
index b3f2764..cc6c819 100644
--- a/fast_bss_eval/torch/compatibility.py
+++ b/fast_bss_eval/torch/compatibility.py
@@ -29,7 +29,7 @@ For torch<=1.5 the torch_complex library is used.
 """
 try:
     from packaging.version import Version
-except [ImportError, ModuleNotFoundError]:
+except ImportError:
     from distutils.version import LooseVersion as Version
 
 import torch
-- 
2.43.0


From a1b424b64d8b85b90f65b71e4f392cb26c87ce2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:53 +0000
Subject: [PATCH 3/4] fix: create constants with the dtype and device of the
 input

The conjugate gradient preconditioner weights and the diagonal loading matrix
used torch's process-wide default dtype (and, for the latter, device), so that
results changed or calls failed after torch.set_default_dtype.
---
 fast_bss_eval/torch/cgd.py     | 6 ++++--
 fast_bss_eval/torch/metrics.py | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/fast_bss_eval/torch/cgd.py b/fast_bss_eval/torch/cgd.py
index 80e10d1..537c500 100644
--- a/fast_bss_eval/torch/cgd.py
+++ b/fast_bss_eval/torch/cgd.py
@@ -35,7 +35,9 @@ def optimal_symmetric_circulant_precond_column(
     Froebenius norm
     """
     n = col_toeplitz.shape[-1]
-    b = torch.arange(1, n, device=col_toeplitz.device) / float(n)
+    b = torch.arange(
+        1, n, dtype=col_toeplitz.dtype, device=col_toeplitz.device
+    ) / float(n)
     w = col_toeplitz[..., 1:] * b.flip(dims=(-1,))
     col_circ = torch.cat((col_toeplitz[..., :1], w + w.flip(dims=(-1,))), dim=-1)
     return col_circ
@@ -63,7 +65,7 @@ def optimal_nonsymmetric_circulant_precond_column(
     if n is None:
         n = (r.shape[-1] + 1) // 2
 
-    b = torch.arange(1, n, device=r.device) / float(n)
+    b = torch.arange(1, n, dtype=r.dtype, device=r.device) / float(n)
 
     # s2 = r[..., 1:n]
     # s1 = r[..., -n + 1 :]
diff --git a/fast_bss_eval/torch/metrics.py b/fast_bss_eval/torch/metrics.py
index 003e274..b0db775 100644
--- a/fast_bss_eval/torch/metrics.py
+++ b/fast_bss_eval/torch/metrics.py
@@ -60,7 +60,8 @@ def square_cosine_metrics_length_one_filter(
     if with_coh_sar:
         acm = torch.einsum("...cn,...dn->...cd", ref, ref)
         if load_diag is not None:
-            acm = acm + torch.eye(acm.shape[-1]) * load_diag
+            eye = torch.eye(acm.shape[-1], dtype=acm.dtype, device=acm.device)
+            acm = acm + eye * load_diag
         sol = solve(acm, xcorr)
         coh_sar = torch.einsum("...lc,...lc->...c", xcorr, sol)
 
-- 
2.43.0


From c9b4c7d7ff24b1b72c2fd82b477d4fd3e5be52d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:53 +0000
Subject: [PATCH 4/4] fix: do not print the cost matrix before raising

A left-over debug print wrote to stdout, and replaced the documented ValueError
when stdout is closed or broken.
---
 fast_bss_eval/torch/helpers.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/fast_bss_eval/torch/helpers.py b/fast_bss_eval/torch/helpers.py
index 6e32e05..fbf0595 100644
--- a/fast_bss_eval/torch/helpers.py
+++ b/fast_bss_eval/torch/helpers.py
@@ -133,7 +133,6 @@ def _linear_sum_assignment_with_inf(
             max_inf = torch.isinf(torch.clamp(cost_matrix, min=0.0)).any()
 
         if min_inf and max_inf:
-            print(cost_matrix)
             raise ValueError("matrix contains both inf and -inf")
 
         if min_inf or max_inf:
-- 
2.43.0

