From 133f6e7df712ea53ccd3731f80e21cf0eaacca20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:24 +0000
Subject: [PATCH 01/51] fix: extract_ridges: don't wrap the removed band around
 the top edge

For a ridge closer than `bw` to row 0 the slice start was negative, so the
slice was empty (or took rows from the other end) and the same ridge was
extracted again.
---
 ssqueezepy/ridge_extraction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssqueezepy/ridge_extraction.py b/ssqueezepy/ridge_extraction.py
index 2fbbf93..a9ad744 100644
--- a/ssqueezepy/ridge_extraction.py
+++ b/ssqueezepy/ridge_extraction.py
@@ -140,7 +140,7 @@ def extract_ridges(Tf, scales, penalty=2., n_ridges=1, bw=15, transform='cwt',
 
         for time_idx in range(n_timeshifts):
             ridx = ridge_idxs[time_idx, i]
-            energy[int(ridx - bw):int(ridx + bw), time_idx] = 0
+            energy[max(int(ridx - bw), 0):int(ridx + bw), time_idx] = 0
 
     return ((ridge_idxs, ridge_f, ridge_e) if get_params else
             ridge_idxs)
-- 
2.43.0


From d822b4f7b96991871ad4de8b3869a5a390dfe3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:24 +0000
Subject: [PATCH 02/51] fix: extract_ridges: forward ridge index with more rows
 than columns

argmin along axis 0 already is the row index; unravelling it over the 2D
shape took it modulo the number of columns.
---
 ssqueezepy/ridge_extraction.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ssqueezepy/ridge_extraction.py b/ssqueezepy/ridge_extraction.py
index a9ad744..9e08f07 100644
--- a/ssqueezepy/ridge_extraction.py
+++ b/ssqueezepy/ridge_extraction.py
@@ -161,8 +161,7 @@ def _accumulated_penalty_energy_fw(energy_to_track, penalty_matrix, parallel):
     fn = (__accumulated_penalty_energy_fwp if parallel else
           __accumulated_penalty_energy_fw)
     fn(penalized_energy, penalty_matrix)
-    ridge_idxs = np.unravel_index(np.argmin(penalized_energy, axis=0),
-                                  penalized_energy.shape)[1]
+    ridge_idxs = np.argmin(penalized_energy, axis=0)
     return penalized_energy, ridge_idxs
 
 
-- 
2.43.0


From a25c43e85a85922b9c521e0631b108b69bc3b84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:03 +0000
Subject: [PATCH 03/51] fix: ridge tracking: parallel backward pass races on
 ties

Threads wrote the selected row of the same time step concurrently, so when
several rows matched within eps the outcome depended on scheduling (and
differed from the serial variant). Threads now fill one flag each; the row is
selected sequentially.
---
 ssqueezepy/ridge_extraction.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ssqueezepy/ridge_extraction.py b/ssqueezepy/ridge_extraction.py
index 9e08f07..3b6dd58 100644
--- a/ssqueezepy/ridge_extraction.py
+++ b/ssqueezepy/ridge_extraction.py
@@ -218,6 +218,7 @@ def __accumulated_penalty_energy_bwp(e, penalty_matrix, pen_e, ridge_idxs_fw,
                                      eps):
     # adding `prange` to `tidx` makes whole computation much faster (x3-4),
     # but breaks it on *some* inputs (unpredictably)
+    is_match = np.zeros(e.shape[0], dtype=np.bool_)
     for tidx in range(e.shape[1] - 1):
         # `prange` only supports a step size of 1, so we use a trick
         # actually can't `prange` `tidx`, not thread-safe
@@ -227,5 +228,10 @@ def __accumulated_penalty_energy_bwp(e, penalty_matrix, pen_e, ridge_idxs_fw,
         for idx_freq in prange(e.shape[0]):
             new_penalty = penalty_matrix[ridge_idxs_fw[idx_time + 1], idx_freq]
 
-            if abs(val - (pen_e[idx_freq, idx_time] + new_penalty)) < eps:
+            is_match[idx_freq] = abs(
+                val - (pen_e[idx_freq, idx_time] + new_penalty)) < eps
+
+        # several may match; select sequentially, as threads can't agree on order
+        for idx_freq in range(e.shape[0]):
+            if is_match[idx_freq]:
                 ridge_idxs_fw[idx_time] = idx_freq
-- 
2.43.0


From c766b240c4853293fe7b2297193a19d3faba3178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:43 +0000
Subject: [PATCH 04/51] fix: find_closest: bound bins by `v`, not by rows of
 `a`

---
 ssqueezepy/algos.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ssqueezepy/algos.py b/ssqueezepy/algos.py
index 770589a..2b87f6c 100644
--- a/ssqueezepy/algos.py
+++ b/ssqueezepy/algos.py
@@ -376,7 +376,7 @@ def _get_params_find_closest_log(v):
 def find_closest_log(a, v, parallel=True):
     idx, params = _get_params_find_closest_log(v)
     out = np.zeros(a.shape, dtype=np.int32)
-    params['omax'] = len(out) - 1
+    params['omax'] = len(v) - 1
 
     if idx is None:
         fn = _find_closest_log_par if parallel else _find_closest_log
@@ -433,7 +433,7 @@ def find_closest_lin(a, v, parallel=True):
     out = np.zeros(a.shape, dtype=np.int32)
 
     fn = _find_closest_lin_par if parallel else _find_closest_lin
-    fn(a, out, vmin, dv, omax=len(out) - 1)
+    fn(a, out, vmin, dv, omax=len(v) - 1)
     return out
 
 @jit(nopython=True, cache=True)
-- 
2.43.0


From 2d1b1ec1a27cbe11ec641edce9c2b674390730de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:47 +0000
Subject: [PATCH 05/51] fix: serial piecewise find_closest: skip infs as in
 parallel variant

---
 ssqueezepy/algos.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ssqueezepy/algos.py b/ssqueezepy/algos.py
index 2b87f6c..5d36a59 100644
--- a/ssqueezepy/algos.py
+++ b/ssqueezepy/algos.py
@@ -405,6 +405,8 @@ def _find_closest_log_piecewise(a, out, vlmin0, vlmin1, dvl0, dvl1, idx1,
                                 omax):
     for i in range(a.shape[0]):
         for j in range(a.shape[1]):
+            if np.isinf(a[i, j]):
+                continue
             al = np.log2(a[i, j])
             if al > vlmin1:
                 out[i, j] = min(round((al - vlmin1) / dvl1) + idx1, omax)
-- 
2.43.0


From e85f9df997c2bb0619b25c1c8c72dd886ef94f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:51 +0000
Subject: [PATCH 06/51] fix: ssqueeze: reverse returned ssq_freqs only when Tx
 was filled flipped

---
 ssqueezepy/ssqueezing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ssqueezepy/ssqueezing.py b/ssqueezepy/ssqueezing.py
index 1dd7ce9..e533fad 100644
--- a/ssqueezepy/ssqueezing.py
+++ b/ssqueezepy/ssqueezing.py
@@ -213,8 +213,8 @@ def ssqueeze(Wx, w=None, ssq_freqs=None, scales=None, Sfs=None, fs=None, t=None,
         for _Tx, _w, _Wx, _dWx in zip(Tx, w, Wx, dWx):
             _ssqueeze(_Tx, _w, _Wx, _dWx, *args)
 
-    # `scales` go high -> low
-    if (transform == 'cwt' and not flipud) or flipud:
+    # `Tx`'s rows were filled in reverse order
+    if flipud:
         if not isinstance(ssq_freqs, np.ndarray):
             import torch
             ssq_freqs = torch.flip(ssq_freqs, (0,))
-- 
2.43.0


From 0fc7934ba121a1441cfe90c33972c9acea4e19a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:16 +0000
Subject: [PATCH 07/51] fix: let SSQ_PARALLEL='1' override `parallel=0` of
 configs.ini, as documented

---
 ssqueezepy/configs.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ssqueezepy/configs.py b/ssqueezepy/configs.py
index 8153ff6..2113dac 100644
--- a/ssqueezepy/configs.py
+++ b/ssqueezepy/configs.py
@@ -128,9 +128,9 @@ def IS_PARALLEL():
     """Returns False if 'SSQ_PARALLEL' environment flag was set to '0', or
     if `parallel` in `configs.ini` is set to `0`; former overrides latter.
     """
-    not_par_env = (os.environ.get('SSQ_PARALLEL', '1') == '0')
-    if not_par_env:
-        return False
+    env_flag = os.environ.get('SSQ_PARALLEL', None)
+    if env_flag in ('0', '1'):
+        return env_flag == '1'
 
     not_par_config = (gdefaults('configs.IS_PARALLEL', parallel=None) == 0)
     if not_par_config:
-- 
2.43.0


From 3337847a5e9ea65071c11ce8003e00391e8701f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:16 +0000
Subject: [PATCH 08/51] fix: honor explicit `parallel=False` in ssqueezing,
 phase transforms and `buffer`

---
 ssqueezepy/algos.py            | 10 +++++++---
 ssqueezepy/utils/stft_utils.py |  3 ++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/ssqueezepy/algos.py b/ssqueezepy/algos.py
index 5d36a59..2aec1db 100644
--- a/ssqueezepy/algos.py
+++ b/ssqueezepy/algos.py
@@ -45,7 +45,9 @@ def _process_ssq_params(Wx, w_or_dWx, ssq_freqs, const, logscale, flipud, out,
                         gamma, parallel, complex_out=True, Sfs=None):
     S.warn_if_tensor_and_par(Wx, parallel)
     gpu = S.is_tensor(Wx)
-    parallel = (parallel or IS_PARALLEL()) and not gpu
+    if parallel is None:
+        parallel = IS_PARALLEL()
+    parallel = parallel and not gpu
 
     # process `Wx`, `w_or_dWx`, `out`
     if out is None:
@@ -714,7 +716,8 @@ def phase_cwt_cpu(Wx, dWx, gamma, parallel=None):
     out = np.zeros(Wx.shape, dtype=dtype)
     gamma = np.asarray(gamma, dtype=dtype)
 
-    parallel = parallel or IS_PARALLEL()
+    if parallel is None:
+        parallel = IS_PARALLEL()
     fn = _phase_cwt_par if parallel else _phase_cwt
     fn(Wx, dWx, out, gamma)
     return out
@@ -788,7 +791,8 @@ def phase_stft_cpu(Wx, dWx, Sfs, gamma, parallel=None):
     out = np.zeros(Wx.shape, dtype=dtype)
     gamma = np.asarray(gamma, dtype=dtype)
 
-    parallel = parallel or IS_PARALLEL()
+    if parallel is None:
+        parallel = IS_PARALLEL()
     fn = _phase_stft_par if parallel else _phase_stft
     fn(Wx, dWx, Sfs, out, gamma)
     return out
diff --git a/ssqueezepy/utils/stft_utils.py b/ssqueezepy/utils/stft_utils.py
index 208d424..67eaff6 100644
--- a/ssqueezepy/utils/stft_utils.py
+++ b/ssqueezepy/utils/stft_utils.py
@@ -52,7 +52,8 @@ def buffer(x, seg_len, n_overlap, modulated=False, parallel=None):
             for _x, _out in zip(x, out):
                 _buffer_gpu(_x,  *args, out=_out)
     else:
-        parallel = parallel or IS_PARALLEL()
+        if parallel is None:
+            parallel = IS_PARALLEL()
         fn = _buffer_par if parallel else _buffer
 
         if x.ndim == 1:
-- 
2.43.0


From 6267786a1df656db4aa3f24756e671f54ce7cd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:16 +0000
Subject: [PATCH 09/51] fix: use the parallel kernel for STFT in
 `ssqueeze_fast`

---
 ssqueezepy/algos.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ssqueezepy/algos.py b/ssqueezepy/algos.py
index 2aec1db..e16b081 100644
--- a/ssqueezepy/algos.py
+++ b/ssqueezepy/algos.py
@@ -132,8 +132,10 @@ def ssqueeze_fast(Wx, dWx, ssq_freqs, const, logscale=False, flipud=False,
     `help(algos.find_closest)` on how `k` is computed.
     """
     def fn_name(transform, ssq_scaletype):
-        return ('ssq_stft' if transform == 'stft' else
-                f'ssq_cwt_{ssq_scaletype}')
+        if transform == 'stft':
+            return ('ssq_stft_par' if ssq_scaletype.endswith('_par') else
+                    'ssq_stft')
+        return f'ssq_cwt_{ssq_scaletype}'
 
     outs = _process_ssq_params(Wx, dWx, ssq_freqs, const, logscale, flipud, out,
                                gamma, parallel, complex_out=True, Sfs=Sfs)
-- 
2.43.0


From 8de83fc49454b5651411e1eda5e119082027fa01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:16 +0000
Subject: [PATCH 10/51] fix: `find_closest(smart=False)` follows the
 parallelism flags when `parallel` is unset

---
 ssqueezepy/algos.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ssqueezepy/algos.py b/ssqueezepy/algos.py
index e16b081..a78e925 100644
--- a/ssqueezepy/algos.py
+++ b/ssqueezepy/algos.py
@@ -306,6 +306,8 @@ def find_closest(a, v, logscale=False, parallel=None, smart=None):
     assert not S.is_tensor(a), "`find_closest` doesn't support GPU execution"
     if smart is None and parallel is None:
         smart = True
+    elif parallel is None:
+        parallel = IS_PARALLEL()
     elif parallel and smart:
         WARN("find_closest: `smart` overrides `parallel`")
 
-- 
2.43.0


From 837513d668acc890eb3780628bc05e4677bc6f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:14 +0000
Subject: [PATCH 11/51] fix: gmw: accept integer-valued float `order`, as read
 from configs.ini

---
 ssqueezepy/_gmw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssqueezepy/_gmw.py b/ssqueezepy/_gmw.py
index 6997d77..9ac6878 100644
--- a/ssqueezepy/_gmw.py
+++ b/ssqueezepy/_gmw.py
@@ -118,7 +118,7 @@ def gmw(gamma=None, beta=None, norm=None, order=None, centered_scale=None,
     _check_args(gamma=gamma, beta=beta, norm=norm, order=order)
     kw = gdefaults('_gmw.gmw', gamma=gamma, beta=beta, norm=norm, order=order,
                    centered_scale=centered_scale, dtype=dtype, as_dict=True)
-    norm, k = kw.pop('norm'), kw.pop('order')
+    norm, k = kw.pop('norm'), int(kw.pop('order'))
     if norm == 'energy'and dtype in ('float32', np.float32):
         raise ValueError("`norm='energy'` w/ `dtype='float32'` is unsupported; "
                          "use 'float64' instead.")
-- 
2.43.0


From d7eb93eedc430306b5029ac6a6dd4ef5a076d0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:19 +0000
Subject: [PATCH 12/51] fix: gmw: don't zero negative frequencies in caller's
 `w` in place

---
 ssqueezepy/_gmw.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/ssqueezepy/_gmw.py b/ssqueezepy/_gmw.py
index 9ac6878..3516ffe 100644
--- a/ssqueezepy/_gmw.py
+++ b/ssqueezepy/_gmw.py
@@ -205,7 +205,7 @@ def _gmw_l1(w, gamma, beta, wc, wcl):
     # NOTE: numba.jit, unlike numpy & torch, will promote to float64 with
     # array float32 and scalar float64
     w_nonneg = (w >= 0)
-    w *= w_nonneg  # zero negative `w` to avoid nans
+    w = w * w_nonneg  # zero negative `w` to avoid nans
     return 2 * np.exp(- beta * wcl + wc**gamma
                       + beta * np.log(w) - w**gamma) * w_nonneg
 
@@ -214,13 +214,13 @@ def _gmw_l1_par(w, gamma, beta, wc, wcl):
     # NOTE: numba.jit, unlike numpy & torch, will promote to float64 with
     # array float32 and scalar float64
     w_nonneg = (w >= 0)
-    w *= w_nonneg  # zero negative `w` to avoid nans
+    w = w * w_nonneg  # zero negative `w` to avoid nans
     return 2 * np.exp(- beta * wcl + wc**gamma
                       + beta * np.log(w) - w**gamma) * w_nonneg
 
 def _gmw_l1_gpu(w, gamma, beta, wc, wcl):
     w_nonneg = (w >= 0)
-    w *= w_nonneg
+    w = w * w_nonneg
     return 2 * torch.exp(- beta * wcl + wc**gamma
                          + beta * torch.log(w) - w**gamma) * w_nonneg
 
@@ -246,20 +246,20 @@ def gmw_l2(gamma=3., beta=60., centered_scale=False, dtype='float64'):
 @jit(nopython=True, cache=True)
 def _gmw_l2(w, gamma, beta, wc, r, rgamma):
     w_nonneg = (w >= 0)
-    w *= w_nonneg  # zero negative `w` to avoid nans
+    w = w * w_nonneg  # zero negative `w` to avoid nans
     return np.sqrt(2.*pi * gamma * 2.**r / rgamma
                    ) * w**beta * np.exp(-w**gamma) * w_nonneg
 
 @jit(nopython=True, cache=True, parallel=True)
 def _gmw_l2_par(w, gamma, beta, wc, r, rgamma):
     w_nonneg = (w >= 0)
-    w *= w_nonneg  # zero negative `w` to avoid nans
+    w = w * w_nonneg  # zero negative `w` to avoid nans
     return np.sqrt(2.*pi * gamma * 2.**r / rgamma
                    ) * w**beta * np.exp(-w**gamma) * w_nonneg
 
 def _gmw_l2_gpu(w, gamma, beta, wc, r, rgamma):
     w_nonneg = (w >= 0)
-    w *= w_nonneg  # zero negative `w` to avoid nans
+    w = w * w_nonneg  # zero negative `w` to avoid nans
     return torch.sqrt(2.*pi * gamma * 2.**r / rgamma
                       ) * w**beta * torch.exp(-w**gamma) * w_nonneg
 
@@ -285,7 +285,7 @@ def gmw_l1_k(gamma=3., beta=60., k=1, centered_scale=False, dtype='float64'):
 @jit(nopython=True, cache=True)
 def _gmw_l1_k(w, gamma, beta, wc, k_consts):
     w_nonneg = (w >= 0)
-    w *= w_nonneg  # zero negative `w` to avoid nans
+    w = w * w_nonneg  # zero negative `w` to avoid nans
 
     C = np.zeros(w.shape, dtype=w.dtype)
     for m in range(len(k_consts)):
@@ -296,7 +296,7 @@ def _gmw_l1_k(w, gamma, beta, wc, k_consts):
 @jit(nopython=True, cache=True, parallel=True)
 def _gmw_l1_k_par(w, gamma, beta, wc, k_consts):
     w_nonneg = (w >= 0)
-    w *= w_nonneg  # zero negative `w` to avoid nans
+    w = w * w_nonneg  # zero negative `w` to avoid nans
 
     C = np.zeros(w.shape, dtype=w.dtype)
     for m in range(len(k_consts)):
@@ -306,7 +306,7 @@ def _gmw_l1_k_par(w, gamma, beta, wc, k_consts):
 
 def _gmw_l1_k_gpu(w, gamma, beta, wc, k_consts):
     w_nonneg = (w >= 0)
-    w *= w_nonneg  # zero negative `w` to avoid nans
+    w = w * w_nonneg  # zero negative `w` to avoid nans
 
     C = w.new_zeros(w.shape)
     for m in range(len(k_consts)):
@@ -336,7 +336,7 @@ def gmw_l2_k(gamma=3., beta=60., k=1, centered_scale=False, dtype='float64'):
 @jit(nopython=True, cache=True)
 def _gmw_l2_k(w, gamma, beta, wc, k_consts):
     w_nonneg = (w >= 0)
-    w *= w_nonneg  # zero negative `w` to avoid nans
+    w = w * w_nonneg  # zero negative `w` to avoid nans
 
     C = np.zeros(w.shape, dtype=w.dtype)
     for m in range(len(k_consts)):
@@ -346,7 +346,7 @@ def _gmw_l2_k(w, gamma, beta, wc, k_consts):
 @jit(nopython=True, cache=True, parallel=True)
 def _gmw_l2_k_par(w, gamma, beta, wc, k_consts):
     w_nonneg = (w >= 0)
-    w *= w_nonneg  # zero negative `w` to avoid nans
+    w = w * w_nonneg  # zero negative `w` to avoid nans
 
     C = np.zeros(w.shape, dtype=w.dtype)
     for m in range(len(k_consts)):
@@ -355,7 +355,7 @@ def _gmw_l2_k_par(w, gamma, beta, wc, k_consts):
 
 def _gmw_l2_k_gpu(w, gamma, beta, wc, k_consts):
     w_nonneg = (w >= 0)
-    w *= w_nonneg  # zero negative `w` to avoid nans
+    w = w * w_nonneg  # zero negative `w` to avoid nans
 
     C = w.new_zeros(w.shape)
     for m in range(len(k_consts)):
-- 
2.43.0


From 58606a6158cdaebe144158d6a72b5bac580f2bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:19 +0000
Subject: [PATCH 13/51] fix: cwt: zero NaN/inf in a copy of `x` instead of
 caller's array

---
 ssqueezepy/_cwt.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ssqueezepy/_cwt.py b/ssqueezepy/_cwt.py
index fc1a663..b8df679 100644
--- a/ssqueezepy/_cwt.py
+++ b/ssqueezepy/_cwt.py
@@ -212,6 +212,7 @@ def cwt(x, wavelet='gmw', scales='log-piecewise', fs=None, t=None, nv=32,
                 raise ValueError("`nan_checks=True` requires NumPy input.")
             elif np.isnan(x.max()) or np.isinf(x.max()) or np.isinf(x.min()):
                 WARN("found NaN or inf values in `x`; will zero")
+                x = x.copy()  # don't modify caller's array
                 replace_at_inf_or_nan(x, replacement=0.)
 
         if cache_wavelet:
@@ -233,7 +234,7 @@ def cwt(x, wavelet='gmw', scales='log-piecewise', fs=None, t=None, nv=32,
         N = x.shape[-1]
         dt, *_ = _process_fs_and_t(fs, t, N=N)
         is_2D = (x.ndim == 2)
-        return N, nv, dt, is_2D, cache_wavelet
+        return x, N, nv, dt, is_2D, cache_wavelet
 
     if isinstance(order, (tuple, list, range)) or order > 0:
         kw = dict(wavelet=wavelet, scales=scales, fs=fs, t=t, nv=nv,
@@ -243,7 +244,7 @@ def cwt(x, wavelet='gmw', scales='log-piecewise', fs=None, t=None, nv=32,
         return cwt_higher_order(x, order=order, average=average,
                                 astensor=astensor, **kw)
 
-    (N, nv, dt, is_2D, cache_wavelet
+    (x, N, nv, dt, is_2D, cache_wavelet
      ) = _process_args(x, scales, nv, fs, t, nan_checks, wavelet, cache_wavelet)
 
     # process `wavelet`, get its `dtype`
-- 
2.43.0


From e8748063ad74b17ce9e8bd5ac39162de48ea72fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:19 +0000
Subject: [PATCH 14/51] fix: cwt: don't store 'norm' in caller's wavelet
 options dict

---
 ssqueezepy/_cwt.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ssqueezepy/_cwt.py b/ssqueezepy/_cwt.py
index b8df679..96094ff 100644
--- a/ssqueezepy/_cwt.py
+++ b/ssqueezepy/_cwt.py
@@ -504,8 +504,7 @@ def _process_gmw_wavelet(wavelet, l1_norm):
 
     elif isinstance(wavelet, tuple) and wavelet[0].lower()[:3] == 'gmw':
         wavelet, wavopts = wavelet
-        wavopts['norm'] = wavopts.get('norm', norm)
-        wavelet = (wavelet, wavopts)
+        wavelet = (wavelet, {**wavopts, 'norm': wavopts.get('norm', norm)})
 
     elif isinstance(wavelet, Wavelet):
         if wavelet.name == 'GMW L2' and l1_norm:
-- 
2.43.0


From ccc560ad9887090de4cfc4fd5dccfaa632ced9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:19 +0000
Subject: [PATCH 15/51] fix: visuals: don't store title defaults in caller's
 dict

---
 ssqueezepy/visuals.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ssqueezepy/visuals.py b/ssqueezepy/visuals.py
index 885a996..9211929 100644
--- a/ssqueezepy/visuals.py
+++ b/ssqueezepy/visuals.py
@@ -977,6 +977,7 @@ def _maybe_title(title, ax=None):
 
     title, kw = (title if isinstance(title, tuple) else
                  (title, {}))
+    kw = dict(kw)  # don't modify caller's dict
     defaults = gdefaults('visuals._maybe_title', get_all=True, as_dict=True)
     for name in defaults:
         kw[name] = kw.get(name, defaults[name])
-- 
2.43.0


From 15cea303e48dc11ec45402f895e51de64e50a2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:19 +0000
Subject: [PATCH 16/51] fix: TestSignals: don't store defaults in caller's
 parameter dicts

---
 ssqueezepy/_test_signals.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ssqueezepy/_test_signals.py b/ssqueezepy/_test_signals.py
index 4071b77..f8efb1f 100644
--- a/ssqueezepy/_test_signals.py
+++ b/ssqueezepy/_test_signals.py
@@ -142,8 +142,8 @@ class TestSignals():
                  warn_alias=True, seed=None):
         self.N = N    or DEFAULT_N
         self.snr = snr or DEFAULT_SNR
-        self.default_args = default_args or DEFAULT_ARGS
-        self.default_tkw  = default_tkw  or DEFAULT_TKW
+        self.default_args = dict(default_args or DEFAULT_ARGS)
+        self.default_tkw  = dict(default_tkw  or DEFAULT_TKW)
         self.warn_alias   = warn_alias
         self.seed = seed or DEFAULT_SEED
 
@@ -729,6 +729,8 @@ class TestSignals():
                     fparams, aparams = params
                 else:
                     fparams, aparams = params, {}
+                # don't modify caller's dicts
+                fparams, aparams = dict(fparams), dict(aparams)
             else:
                 name, fparams, aparams = signal, {}, {}
 
-- 
2.43.0


From 4194e9c4f30980599e15dcc1ca3a59230c7ee0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:19 +0000
Subject: [PATCH 17/51] fix: cwt: restore `wavelet.N` and FFT patience also if
 the transform raises

---
 ssqueezepy/_cwt.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/ssqueezepy/_cwt.py b/ssqueezepy/_cwt.py
index 96094ff..ac62ced 100644
--- a/ssqueezepy/_cwt.py
+++ b/ssqueezepy/_cwt.py
@@ -277,19 +277,20 @@ def cwt(x, wavelet='gmw', scales='log-piecewise', fs=None, t=None, nv=32,
 
     # temporarily adjust `wavelet.N` & `FFT_GLOBAL.patience`
     wavelet_N_orig = wavelet.N
-    wavelet.N = xp.shape[-1]
     patience_orig = (FFT_GLOBAL.patience, FFT_GLOBAL.planning_timelimit)
-    FFT_GLOBAL.patience = patience
+    try:
+        wavelet.N = xp.shape[-1]
+        FFT_GLOBAL.patience = patience
 
-    # take CWT
-    if vectorized:
-        Wx, dWx = _vectorized(xh, scales, wavelet, derivative, cache_wavelet)
-    else:
-        Wx, dWx = _for_loop(xh, scales, wavelet, derivative, is_2D)
-
-    # restore
-    wavelet.N = wavelet_N_orig
-    FFT_GLOBAL.patience = patience_orig
+        # take CWT
+        if vectorized:
+            Wx, dWx = _vectorized(xh, scales, wavelet, derivative, cache_wavelet)
+        else:
+            Wx, dWx = _for_loop(xh, scales, wavelet, derivative, is_2D)
+    finally:
+        # restore
+        wavelet.N = wavelet_N_orig
+        FFT_GLOBAL.patience = patience_orig
 
     # handle unpadding, normalization
     if not rpadded and padtype is not None:
-- 
2.43.0


From 2eaa08406e50826a055f6f94ee4a22e96dac1b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:31 +0000
Subject: [PATCH 18/51] fix: FFT: save wisdom to the documented directory if
 `wisdom_dir=''`

---
 ssqueezepy/utils/fft_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssqueezepy/utils/fft_utils.py b/ssqueezepy/utils/fft_utils.py
index 7ae6656..64c4a0e 100644
--- a/ssqueezepy/utils/fft_utils.py
+++ b/ssqueezepy/utils/fft_utils.py
@@ -116,7 +116,7 @@ class FFT():
     def __init__(self, planning_timelimit=120, wisdom_dir=UTILS_DIR, threads=None,
                  patience=0, cache_fft_objects=False, verbose=1):
         self.planning_timelimit = planning_timelimit
-        self.wisdom_dir = wisdom_dir
+        self.wisdom_dir = wisdom_dir if wisdom_dir != '' else UTILS_DIR
         self._user_threads = threads
         self._patience = patience  # default patience
         self._process_patience(patience)  # error if !=0 and pyfftw not installed
-- 
2.43.0


From c15e97dfd3ac26b6ef962da4a7f602000baffa9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:55 +0000
Subject: [PATCH 19/51] fix: TestSignals: don't ignore `seed=0`

---
 ssqueezepy/_test_signals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssqueezepy/_test_signals.py b/ssqueezepy/_test_signals.py
index f8efb1f..6fe5e13 100644
--- a/ssqueezepy/_test_signals.py
+++ b/ssqueezepy/_test_signals.py
@@ -145,7 +145,7 @@ class TestSignals():
         self.default_args = dict(default_args or DEFAULT_ARGS)
         self.default_tkw  = dict(default_tkw  or DEFAULT_TKW)
         self.warn_alias   = warn_alias
-        self.seed = seed or DEFAULT_SEED
+        self.seed = seed if seed is not None else DEFAULT_SEED
 
         # set defaults on unspecified
         for k, v in DEFAULT_ARGS.items():
-- 
2.43.0


From 35d1e36b60defc3afbcdad062fe54fc603ce52f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:55 +0000
Subject: [PATCH 20/51] fix: TestSignals: don't ignore `snr=0`

---
 ssqueezepy/_test_signals.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ssqueezepy/_test_signals.py b/ssqueezepy/_test_signals.py
index 6fe5e13..5cc0ba5 100644
--- a/ssqueezepy/_test_signals.py
+++ b/ssqueezepy/_test_signals.py
@@ -141,7 +141,7 @@ class TestSignals():
     def __init__(self, N=None, snr=None, default_args=None, default_tkw=None,
                  warn_alias=True, seed=None):
         self.N = N    or DEFAULT_N
-        self.snr = snr or DEFAULT_SNR
+        self.snr = snr if snr is not None else DEFAULT_SNR
         self.default_args = dict(default_args or DEFAULT_ARGS)
         self.default_tkw  = dict(default_tkw  or DEFAULT_TKW)
         self.warn_alias   = warn_alias
@@ -572,7 +572,7 @@ class TestSignals():
 
             if name[0] == '#':
                 x += x[::-1]
-            if snr:
+            if snr is not None:
                 noise_var = x.var() / 10**(snr/10)
                 if self.seed is not None:
                     np.random.seed(self.seed)
@@ -595,7 +595,7 @@ class TestSignals():
         fparams = self._process_varname_alias(signal, N, fparams)
         snr = fparams.pop('snr', None)
 
-        if snr:
+        if snr is not None:
             snr = "{:.1f}dB".format(snr)
             fparams = dict(N=N, SNR=snr, **fparams)
         else:
-- 
2.43.0


From 9201549f0967aa0373518e086e7803bc337a7aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:45 +0000
Subject: [PATCH 21/51] fix: ssqueeze: reassign per the original transform also
 if `squeezing` isn't 'sum'

---
 ssqueezepy/ssqueezing.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ssqueezepy/ssqueezing.py b/ssqueezepy/ssqueezing.py
index e533fad..6a58703 100644
--- a/ssqueezepy/ssqueezing.py
+++ b/ssqueezepy/ssqueezing.py
@@ -193,7 +193,14 @@ def ssqueeze(Wx, w=None, ssq_freqs=None, scales=None, Sfs=None, fs=None, t=None,
     else:
         ssq_scaletype, _ = infer_scaletype(ssq_freqs)
 
-    # transform `Wx` if needed
+    # transform `Wx` if needed; reassignment is per the original `Wx`
+    if w is None and squeezing != 'sum':
+        if transform == 'cwt':
+            from ._ssq_cwt import phase_cwt
+            w = phase_cwt(Wx, dWx, gamma=gamma)
+        else:
+            from ._ssq_stft import phase_stft
+            w = phase_stft(Wx, dWx, Sfs, gamma)
     if isinstance(squeezing, FunctionType):
         Wx = squeezing(Wx)
     elif squeezing == 'lebesgue':  # from reference [3]
-- 
2.43.0


From 03aef667395a336fca2332a6569c16054196ccf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:31 +0000
Subject: [PATCH 22/51] fix: icwt: handle `rpadded=True`

---
 ssqueezepy/_cwt.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ssqueezepy/_cwt.py b/ssqueezepy/_cwt.py
index ac62ced..816c255 100644
--- a/ssqueezepy/_cwt.py
+++ b/ssqueezepy/_cwt.py
@@ -2,7 +2,7 @@
 import numpy as np
 from .utils import fft, ifft, ifftshift, FFT_GLOBAL
 from .utils import WARN, adm_cwt, adm_ssq, _process_fs_and_t, is_array_or_tensor
-from .utils import padsignal, process_scales, logscale_transition_idx
+from .utils import p2up, padsignal, process_scales, logscale_transition_idx
 from .utils import backend as S
 from .utils.backend import Q
 from .algos import replace_at_inf_or_nan
@@ -433,6 +433,10 @@ def icwt(Wx, wavelet='gmw', scales='log-piecewise', nv=None, one_int=True,
 
     #### Invert ##############################################################
     if one_int:
+        if rpadded and x_len != n:
+            # drop `cwt`'s padding
+            _, n1, _ = p2up(x_len)
+            Wx = Wx[..., n1:n1 + x_len]
         x = _icwt_1int(Wx, scales, scaletype, l1_norm)
     else:
         if Wx.ndim == 3:
@@ -461,6 +465,9 @@ def _icwt_2int(Wx, scales, scaletype, l1_norm, wavelet, x_len,
     # add CWT padding if it doesn't exist
     if not rpadded:
         Wx, n_up, n1, _ = padsignal(Wx, padtype=padtype, get_params=True)
+    else:
+        n_up = Wx.shape[-1]
+        n1 = p2up(x_len)[1] if x_len != n_up else 0
 
     # see help(cwt) on `norm` and `pn`
     norm = _icwt_norm(scaletype, l1_norm)
-- 
2.43.0


From 21180fd5159c79c72bd4e67314d54d78515d0651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:31 +0000
Subject: [PATCH 23/51] fix: icwt: add `x_mean` once with piecewise scales

---
 ssqueezepy/_cwt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ssqueezepy/_cwt.py b/ssqueezepy/_cwt.py
index 816c255..ff97b47 100644
--- a/ssqueezepy/_cwt.py
+++ b/ssqueezepy/_cwt.py
@@ -422,11 +422,11 @@ def icwt(Wx, wavelet='gmw', scales='log-piecewise', nv=None, one_int=True,
     # `nv` must be left unspecified so it's inferred automatically from `scales`
     # in `process_scales` for each piecewise case
     if scaletype == 'log-piecewise':
-        kw = dict(wavelet=wavelet, one_int=one_int, x_len=x_len, x_mean=x_mean,
+        kw = dict(wavelet=wavelet, one_int=one_int, x_len=x_len,
                   padtype=padtype, rpadded=rpadded, l1_norm=l1_norm)
 
         idx = logscale_transition_idx(scales)
-        x  = icwt(Wx[..., :idx, :], scales=scales[:idx], **kw)
+        x  = icwt(Wx[..., :idx, :], scales=scales[:idx], x_mean=x_mean, **kw)
         x += icwt(Wx[..., idx:, :], scales=scales[idx:], **kw)
         return x
     ##########################################################################
-- 
2.43.0


From 457e4b68ee849f897abd150368d31ce6af43fb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:35 +0000
Subject: [PATCH 24/51] fix: icwt: add each signal's own mean with batched `Wx`

---
 ssqueezepy/_cwt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ssqueezepy/_cwt.py b/ssqueezepy/_cwt.py
index ff97b47..3f763d0 100644
--- a/ssqueezepy/_cwt.py
+++ b/ssqueezepy/_cwt.py
@@ -455,7 +455,8 @@ def icwt(Wx, wavelet='gmw', scales='log-piecewise', nv=None, one_int=True,
         # unclear why the `pi/4` here but it improves inversion
         x *= (2 / Cpsi) * np.pi / 4
 
-    x += x_mean  # CWT doesn't capture mean (infinite scale)
+    # CWT doesn't capture mean (infinite scale)
+    x += x_mean if getattr(x_mean, 'ndim', 0) == 0 else x_mean[:, None]
     return x
 
 
-- 
2.43.0


From cebc111963957d2caca7860bc161a3003cd54a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:55 +0000
Subject: [PATCH 25/51] fix: ssq_stft: handle `ssq_freqs='linear'`

---
 ssqueezepy/_ssq_stft.py  | 7 ++++---
 ssqueezepy/ssqueezing.py | 8 +++++---
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/ssqueezepy/_ssq_stft.py b/ssqueezepy/_ssq_stft.py
index 05b6fc9..fc27f76 100644
--- a/ssqueezepy/_ssq_stft.py
+++ b/ssqueezepy/_ssq_stft.py
@@ -80,8 +80,9 @@ def ssq_stft(x, window=None, n_fft=None, win_len=None, hop_len=1, fs=None, t=Non
     _, fs, _ = _process_fs_and_t(fs, t, x.shape[-1])
     _check_ssqueezing_args(squeezing)
     # assert ssq_freqs, if array, is linear
-    if (isinstance(ssq_freqs, np.ndarray) and
-            infer_scaletype(ssq_freqs)[0] != 'linear'):
+    if ((isinstance(ssq_freqs, np.ndarray) and
+            infer_scaletype(ssq_freqs)[0] != 'linear') or
+            (isinstance(ssq_freqs, str) and ssq_freqs != 'linear')):
         raise ValueError("`ssq_freqs` must be linearly distributed "
                          "for `ssq_stft`")
 
@@ -119,7 +120,7 @@ def ssq_stft(x, window=None, n_fft=None, win_len=None, hop_len=1, fs=None, t=Non
         ssq_freqs = Sfs
     Tx, ssq_freqs = ssqueeze(_Sx, w, squeezing=squeezing, ssq_freqs=ssq_freqs,
                              Sfs=Sfs, flipud=flipud, gamma=gamma, dWx=_dSx,
-                             maprange='maximal', transform='stft')
+                             fs=fs, maprange='maximal', transform='stft')
     # return
     if not astensor and S.is_tensor(Tx):
         Tx, Sx, ssq_freqs, Sfs, w, dSx = [
diff --git a/ssqueezepy/ssqueezing.py b/ssqueezepy/ssqueezing.py
index 6a58703..47a4f0d 100644
--- a/ssqueezepy/ssqueezing.py
+++ b/ssqueezepy/ssqueezing.py
@@ -185,7 +185,7 @@ def ssqueeze(Wx, w=None, ssq_freqs=None, scales=None, Sfs=None, fs=None, t=None,
                              "(got %s)" % str(maprange))
         ssq_freqs = _compute_associated_frequencies(
             scales, N, wavelet, ssq_scaletype, maprange, was_padded, dt,
-            transform)
+            transform, na=Wx.shape[-2])
     elif transform == 'stft':
         # removes warning per issue with `infer_scaletype`
         # future TODO: shouldn't need this
@@ -252,10 +252,12 @@ def _ssq_freqrange(maprange, dt, N, wavelet, scales, was_padded):
 
 
 def _compute_associated_frequencies(scales, N, wavelet, ssq_scaletype, maprange,
-                                    was_padded=True, dt=1, transform='cwt'):
+                                    was_padded=True, dt=1, transform='cwt',
+                                    na=None):
     fm, fM = _ssq_freqrange(maprange, dt, N, wavelet, scales, was_padded)
 
-    na = len(scales)
+    if na is None:
+        na = len(scales)
     # frequency divisions `w_l` to reassign to in Synchrosqueezing
     if ssq_scaletype == 'log':
         # [fm, ..., fM]
-- 
2.43.0


From 6b20f64e705edb639a78b726a5b3a42a14dd9801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:06 +0000
Subject: [PATCH 26/51] fix: ssqueeze: handle `maprange` given as list

---
 ssqueezepy/ssqueezing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ssqueezepy/ssqueezing.py b/ssqueezepy/ssqueezing.py
index 47a4f0d..65b749a 100644
--- a/ssqueezepy/ssqueezing.py
+++ b/ssqueezepy/ssqueezing.py
@@ -178,7 +178,7 @@ def ssqueeze(Wx, w=None, ssq_freqs=None, scales=None, Sfs=None, fs=None, t=None,
             # default to same scheme used by `scales`
             ssq_scaletype = cwt_scaletype
 
-        if ((maprange == 'maximal' or isinstance(maprange, tuple)) and
+        if ((maprange == 'maximal' or isinstance(maprange, (tuple, list))) and
                 ssq_scaletype == 'log-piecewise'):
             raise ValueError("can't have `ssq_scaletype = log-piecewise` or "
                              "tuple with `maprange = 'maximal'` "
@@ -233,7 +233,7 @@ def ssqueeze(Wx, w=None, ssq_freqs=None, scales=None, Sfs=None, fs=None, t=None,
 
 #### `ssqueeze` utils ########################################################
 def _ssq_freqrange(maprange, dt, N, wavelet, scales, was_padded):
-    if isinstance(maprange, tuple):
+    if isinstance(maprange, (tuple, list)):
         fm, fM = maprange
     elif maprange == 'maximal':
         dT = dt * N
-- 
2.43.0


From 998e83760c857852ecd24f9e8134032ffe72f551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:33 +0000
Subject: [PATCH 27/51] fix: issq_cwt, issq_stft: refuse `cc` without `cw`

---
 ssqueezepy/_ssq_cwt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ssqueezepy/_ssq_cwt.py b/ssqueezepy/_ssq_cwt.py
index 43cb021..05e7274 100644
--- a/ssqueezepy/_ssq_cwt.py
+++ b/ssqueezepy/_ssq_cwt.py
@@ -406,6 +406,8 @@ def _invert_components(Tx, cc, cw):
 def _process_component_inversion_args(cc, cw):
     if (cc is None) and (cw is None):
         full_inverse = True
+    elif (cc is None) or (cw is None):
+        raise ValueError("`cc` and `cw` must be passed together")
     else:
         full_inverse = False
         if cc.ndim == 1:
-- 
2.43.0


From 4efa1bf311fc1175ec7df3f4b93613ac767d710b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:40 +0000
Subject: [PATCH 28/51] fix: extract_ridges: refuse unsupported `transform`

---
 ssqueezepy/ridge_extraction.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ssqueezepy/ridge_extraction.py b/ssqueezepy/ridge_extraction.py
index 3b6dd58..469e40a 100644
--- a/ssqueezepy/ridge_extraction.py
+++ b/ssqueezepy/ridge_extraction.py
@@ -5,7 +5,7 @@ Ridge extraction from time-frequency representations (STFT, CWT, synchrosqueezed
 """
 import numpy as np
 from numba import jit, prange
-from .utils import EPS32, EPS64
+from .utils import EPS32, EPS64, assert_is_one_of
 
 
 def extract_ridges(Tf, scales, penalty=2., n_ridges=1, bw=15, transform='cwt',
@@ -110,6 +110,8 @@ def extract_ridges(Tf, scales, penalty=2., n_ridges=1, bw=15, transform='cwt',
 
         return ridge_idxs_fw_bw
 
+    assert_is_one_of(transform, 'transform', ('cwt', 'stft'))
+
     eps   = EPS64      if Tf.dtype == np.complex128 else EPS32
     dtype = np.float64 if Tf.dtype == np.complex128 else np.float32
     scales, eps, penalty = [np.asarray(x, dtype=dtype)
-- 
2.43.0


From 74691c322f30e7b66d16a855117ddc9052d26ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:33 +0000
Subject: [PATCH 29/51] fix: ssqueeze: divide by the number of rows in batched
 squeezing='lebesgue'

---
 ssqueezepy/ssqueezing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssqueezepy/ssqueezing.py b/ssqueezepy/ssqueezing.py
index 65b749a..89e37cb 100644
--- a/ssqueezepy/ssqueezing.py
+++ b/ssqueezepy/ssqueezing.py
@@ -204,7 +204,7 @@ def ssqueeze(Wx, w=None, ssq_freqs=None, scales=None, Sfs=None, fs=None, t=None,
     if isinstance(squeezing, FunctionType):
         Wx = squeezing(Wx)
     elif squeezing == 'lebesgue':  # from reference [3]
-        Wx = S.ones(Wx.shape, dtype=Wx.dtype) / len(Wx)
+        Wx = S.ones(Wx.shape, dtype=Wx.dtype) / Wx.shape[-2]
     elif squeezing == 'abs':
         Wx = Q.abs(Wx)
 
-- 
2.43.0


From 5013eb4472255e263f35c3066ef99b722da500a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:25 +0000
Subject: [PATCH 30/51] fix: cwt_higher_order: make scales from the signal
 length, not the batch size

---
 ssqueezepy/_cwt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssqueezepy/_cwt.py b/ssqueezepy/_cwt.py
index 3f763d0..2a9f157 100644
--- a/ssqueezepy/_cwt.py
+++ b/ssqueezepy/_cwt.py
@@ -582,7 +582,7 @@ def cwt_higher_order(x, wavelet='gmw', order=1, average=None, astensor=True,
         scales = kw.get('scales', 'log-piecewise')
         if isinstance(scales, str):
             wav = Wavelet(('gmw', dict(order=0, **wavopts)))
-            scales = process_scales(scales, len(x), wavelet=wav,
+            scales = process_scales(scales, x.shape[-1], wavelet=wav,
                                     nv=kw.get('nv', 32))
             scales = S.asarray(scales, wav.dtype)
         kw['scales'] = scales
-- 
2.43.0


From c3c91ae569328027cba7182121c9ad57d8b4adee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:25 +0000
Subject: [PATCH 31/51] fix: ssq_cwt(order > 0): unpad time axis for batched
 and unpadded input

---
 ssqueezepy/_ssq_cwt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ssqueezepy/_ssq_cwt.py b/ssqueezepy/_ssq_cwt.py
index 05e7274..66ca419 100644
--- a/ssqueezepy/_ssq_cwt.py
+++ b/ssqueezepy/_ssq_cwt.py
@@ -231,12 +231,12 @@ def ssq_cwt(x, wavelet='gmw', scales='log-piecewise', nv=None, fs=None, t=None,
                   l1_norm=True, derivative=False, padtype=padtype, rpadded=True,
                   vectorized=vectorized, astensor=True,
                   cache_wavelet=cache_wavelet, nan_checks=nan_checks)
-        _, n1, _ = p2up(N)
+        n1 = p2up(N)[1] if padtype is not None else 0
         average = isinstance(order, (tuple, list, range))
 
         Wx, scales = cwt(x, order=order, average=average, **kw)
         dWx = trigdiff(Wx, fs, rpadded=True, N=N, n1=n1)
-        Wx = Wx[:, n1:n1 + N]
+        Wx = Wx[..., n1:n1 + N]
         if S.is_tensor(Wx):
             Wx = Wx.contiguous()
 
-- 
2.43.0


From d7d2afa012db352f88276b8075ebb0675c95d5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:48 +0000
Subject: [PATCH 32/51] fix: trigdiff: trim padded input to its original length
 if `N` isn't passed

---
 ssqueezepy/utils/common.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ssqueezepy/utils/common.py b/ssqueezepy/utils/common.py
index ea68fe6..644122e 100644
--- a/ssqueezepy/utils/common.py
+++ b/ssqueezepy/utils/common.py
@@ -212,6 +212,7 @@ def trigdiff(A, fs=1., padtype=None, rpadded=None, N=None, n1=None, window=None,
     rpadded, padtype = _process_args(A, rpadded, padtype, N, transform, window)
 
     if padtype is not None:
+        N = A.shape[-1] if N is None else N
         A, _, n1, *_ = padsignal(A, padtype, get_params=True)
 
     if transform == 'cwt':
-- 
2.43.0


From 30b95a87286d02f1c28e4745f21fa9968817c483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:48 +0000
Subject: [PATCH 33/51] fix: padsignal: honor zero or long pad lengths with
 padtype='symmetric'

---
 ssqueezepy/utils/common.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/ssqueezepy/utils/common.py b/ssqueezepy/utils/common.py
index 644122e..64d56ee 100644
--- a/ssqueezepy/utils/common.py
+++ b/ssqueezepy/utils/common.py
@@ -143,10 +143,7 @@ def padsignal(x, padtype='reflect', padlength=None, get_params=False):
             xp = np.pad(x, pad_width, mode='wrap')
         elif padtype == 'symmetric':
             # [1,2,3,4] -> [4,3,2,1, 1,2,3,4, 4,3,2]
-            if x.ndim == 1:
-                xp = np.hstack([x[::-1][-n1:], x, x[::-1][:n2]])
-            elif x.ndim == 2:
-                xp = np.hstack([x[:, ::-1][:, -n1:], x, x[:, ::-1][:, :n2]])
+            xp = np.pad(x, pad_width, mode='symmetric')
     else:
         import torch
         mode = 'constant' if padtype == 'zero' else 'reflect'
-- 
2.43.0


From b631fcafbcb24b5f57a70e4bfeca156ca4b83f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:44 +0000
Subject: [PATCH 34/51] fix: ssq_cwt(difftype='numeric'): return Wx and dWx of
 the signal's length

---
 ssqueezepy/_ssq_cwt.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ssqueezepy/_ssq_cwt.py b/ssqueezepy/_ssq_cwt.py
index 66ca419..a950a0e 100644
--- a/ssqueezepy/_ssq_cwt.py
+++ b/ssqueezepy/_ssq_cwt.py
@@ -236,7 +236,8 @@ def ssq_cwt(x, wavelet='gmw', scales='log-piecewise', nv=None, fs=None, t=None,
 
         Wx, scales = cwt(x, order=order, average=average, **kw)
         dWx = trigdiff(Wx, fs, rpadded=True, N=N, n1=n1)
-        Wx = Wx[..., n1:n1 + N]
+        if difftype != 'numeric':
+            Wx = Wx[..., n1:n1 + N]
         if S.is_tensor(Wx):
             Wx = Wx.contiguous()
 
@@ -290,7 +291,9 @@ def ssq_cwt(x, wavelet='gmw', scales='log-piecewise', nv=None, fs=None, t=None,
 
     # postprocessing & return
     if difftype == 'numeric':
-        Wx = Wx[:, 4:-4]
+        n1 = p2up(N)[1]
+        Wx, dWx = [g[:, n1:n1 + N] if g is not None and g.shape[-1] > N else g
+                   for g in (Wx, dWx)]
         Tx = Tx[:, 4:-4]
         w  = w[:,  4:-4] if w is not None else None
 
-- 
2.43.0


From a7d6cc14af9977cb55f00f7c5d7739c026a04beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:48 +0000
Subject: [PATCH 35/51] fix: ssq_cwt(difftype='numeric', padtype=None): don't
 trim padding that isn't there

---
 ssqueezepy/_ssq_cwt.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ssqueezepy/_ssq_cwt.py b/ssqueezepy/_ssq_cwt.py
index a950a0e..84cd2a8 100644
--- a/ssqueezepy/_ssq_cwt.py
+++ b/ssqueezepy/_ssq_cwt.py
@@ -214,8 +214,9 @@ def ssq_cwt(x, wavelet='gmw', scales='log-piecewise', nv=None, fs=None, t=None,
         elif difftype == 'numeric':
             # !!! tested to be very inaccurate for small scales
             # calculate derivative numerically
-            _, n1, _ = p2up(N)
-            Wx = Wx[:, (n1 - 4):(n1 + N + 4)]
+            if padtype is not None:
+                _, n1, _ = p2up(N)
+                Wx = Wx[:, (n1 - 4):(n1 + N + 4)]
             w = phase_cwt_num(Wx, dt, difforder, gamma)
         return Wx, w
 
@@ -290,7 +291,7 @@ def ssq_cwt(x, wavelet='gmw', scales='log-piecewise', nv=None, fs=None, t=None,
                              flipud=flipud, dWx=_dWx, transform='cwt')
 
     # postprocessing & return
-    if difftype == 'numeric':
+    if difftype == 'numeric' and padtype is not None:
         n1 = p2up(N)[1]
         Wx, dWx = [g[:, n1:n1 + N] if g is not None and g.shape[-1] > N else g
                    for g in (Wx, dWx)]
-- 
2.43.0


From 1e6b3dd163e82cc6a553218617be36bdb310b568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:36 +0000
Subject: [PATCH 36/51] fix: ssqueeze: take phase per signal for batched
 squeezing other than 'sum'

---
 ssqueezepy/ssqueezing.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/ssqueezepy/ssqueezing.py b/ssqueezepy/ssqueezing.py
index 89e37cb..d210904 100644
--- a/ssqueezepy/ssqueezing.py
+++ b/ssqueezepy/ssqueezing.py
@@ -195,12 +195,15 @@ def ssqueeze(Wx, w=None, ssq_freqs=None, scales=None, Sfs=None, fs=None, t=None,
 
     # transform `Wx` if needed; reassignment is per the original `Wx`
     if w is None and squeezing != 'sum':
-        if transform == 'cwt':
-            from ._ssq_cwt import phase_cwt
-            w = phase_cwt(Wx, dWx, gamma=gamma)
-        else:
+        def _phase(Wx, dWx):
+            if transform == 'cwt':
+                from ._ssq_cwt import phase_cwt
+                return phase_cwt(Wx, dWx, gamma=gamma)
             from ._ssq_stft import phase_stft
-            w = phase_stft(Wx, dWx, Sfs, gamma)
+            return phase_stft(Wx, dWx, Sfs, gamma)
+
+        w = (_phase(Wx, dWx) if Wx.ndim == 2 else
+             [_phase(_Wx, _dWx) for _Wx, _dWx in zip(Wx, dWx)])
     if isinstance(squeezing, FunctionType):
         Wx = squeezing(Wx)
     elif squeezing == 'lebesgue':  # from reference [3]
-- 
2.43.0


From 631c497da757151778c1382e1222f2def6a62d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:54 +0000
Subject: [PATCH 37/51] fix: cwt(order>0): honour nan_checks

---
 ssqueezepy/_cwt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssqueezepy/_cwt.py b/ssqueezepy/_cwt.py
index 2a9f157..57e847e 100644
--- a/ssqueezepy/_cwt.py
+++ b/ssqueezepy/_cwt.py
@@ -240,7 +240,7 @@ def cwt(x, wavelet='gmw', scales='log-piecewise', fs=None, t=None, nv=32,
         kw = dict(wavelet=wavelet, scales=scales, fs=fs, t=t, nv=nv,
                   l1_norm=l1_norm, derivative=derivative, padtype=padtype,
                   rpadded=rpadded, vectorized=vectorized, patience=patience,
-                  cache_wavelet=cache_wavelet)
+                  cache_wavelet=cache_wavelet, nan_checks=nan_checks)
         return cwt_higher_order(x, order=order, average=average,
                                 astensor=astensor, **kw)
 
-- 
2.43.0


From de809891093d49ade5da2c1216fb580898e9b2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:54 +0000
Subject: [PATCH 38/51] fix: ssq_cwt(order>0): honour patience

---
 ssqueezepy/_ssq_cwt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssqueezepy/_ssq_cwt.py b/ssqueezepy/_ssq_cwt.py
index 84cd2a8..6f1af0b 100644
--- a/ssqueezepy/_ssq_cwt.py
+++ b/ssqueezepy/_ssq_cwt.py
@@ -230,7 +230,7 @@ def ssq_cwt(x, wavelet='gmw', scales='log-piecewise', nv=None, fs=None, t=None,
         # keep padding for `trigdiff`
         kw = dict(wavelet=wavelet, scales=scales, fs=fs, nv=nv,
                   l1_norm=True, derivative=False, padtype=padtype, rpadded=True,
-                  vectorized=vectorized, astensor=True,
+                  vectorized=vectorized, astensor=True, patience=patience,
                   cache_wavelet=cache_wavelet, nan_checks=nan_checks)
         n1 = p2up(N)[1] if padtype is not None else 0
         average = isinstance(order, (tuple, list, range))
-- 
2.43.0


From da8c9124880ae2ca752a7a1a66c90c7c3e3c850e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:51 +0000
Subject: [PATCH 39/51] fix: istft: n_fft of 1 or 2 trimmed the whole signal
 away

---
 ssqueezepy/_stft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssqueezepy/_stft.py b/ssqueezepy/_stft.py
index 63728a0..3cd3726 100644
--- a/ssqueezepy/_stft.py
+++ b/ssqueezepy/_stft.py
@@ -251,7 +251,7 @@ def istft(Sx, window=None, n_fft=None, win_len=None, hop_len=1, N=None,
         x /= wn
 
     # unpad
-    x = x[n_fft//2 : -((n_fft - 1)//2)]
+    x = x[n_fft//2 : n_fft//2 + N]
 
     return x
 
-- 
2.43.0


From 0776d9f46e039ca4b234100e5fb53d3eb39bedbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:51 +0000
Subject: [PATCH 40/51] fix: istft: default win_len as stft does, so a window
 shorter than n_fft inverts

---
 ssqueezepy/_stft.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ssqueezepy/_stft.py b/ssqueezepy/_stft.py
index 3cd3726..bfefffa 100644
--- a/ssqueezepy/_stft.py
+++ b/ssqueezepy/_stft.py
@@ -227,7 +227,8 @@ def istft(Sx, window=None, n_fft=None, win_len=None, hop_len=1, N=None,
     """
     ### process args #####################################
     n_fft = n_fft or (Sx.shape[0] - 1) * 2
-    win_len = win_len or n_fft
+    win_len = win_len or (len(window) if isinstance(window, np.ndarray) else
+                          n_fft)
     N = N or hop_len * Sx.shape[1]  # assume largest possible N if not given
     dtype = 'float32' if str(Sx.dtype) == 'complex64' else 'float64'
 
-- 
2.43.0


From bba18537806785b39f7c6729d195461028631515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:08 +0000
Subject: [PATCH 41/51] fix: stft: scale the derivative by fs for
 modulated=False too

---
 ssqueezepy/_stft.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ssqueezepy/_stft.py b/ssqueezepy/_stft.py
index bfefffa..774d8a7 100644
--- a/ssqueezepy/_stft.py
+++ b/ssqueezepy/_stft.py
@@ -129,10 +129,12 @@ def stft(x, window=None, n_fft=None, win_len=None, hop_len=1, fs=None, t=None,
         if derivative:
             dSx = buffer(xp, n_fft, n_fft - hop_len, modulated)
 
+        if derivative:
+            diff_window = diff_window * fs
         if modulated:
             window = ifftshift(window, astensor=True)
             if derivative:
-                diff_window = ifftshift(diff_window, astensor=True) * fs
+                diff_window = ifftshift(diff_window, astensor=True)
 
         reshape = (-1, 1) if xp.ndim == 1 else (1, -1, 1)
         Sx *= window.reshape(*reshape)
-- 
2.43.0


From 2571cac186d0e603e5eaf4b0f52a310502e62976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:46 +0000
Subject: [PATCH 42/51] fix: ssq_stft: frequencies of the rows of Sx for odd
 n_fft

---
 ssqueezepy/_ssq_stft.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ssqueezepy/_ssq_stft.py b/ssqueezepy/_ssq_stft.py
index fc27f76..337d5b7 100644
--- a/ssqueezepy/_ssq_stft.py
+++ b/ssqueezepy/_ssq_stft.py
@@ -86,6 +86,7 @@ def ssq_stft(x, window=None, n_fft=None, win_len=None, hop_len=1, fs=None, t=Non
         raise ValueError("`ssq_freqs` must be linearly distributed "
                          "for `ssq_stft`")
 
+    n_fft = n_fft or min(x.shape[-1]//hop_len, 512)  # `stft`'s default
     Sx, dSx = stft(x, window, n_fft=n_fft, win_len=win_len, hop_len=hop_len,
                    fs=fs, padtype=padtype, modulated=modulated, derivative=True,
                    dtype=dtype)
@@ -100,7 +101,7 @@ def ssq_stft(x, window=None, n_fft=None, win_len=None, hop_len=1, fs=None, t=Non
         _Sx = Sx
 
     # make `Sfs`
-    Sfs = _make_Sfs(Sx, fs)
+    Sfs = _make_Sfs(Sx, fs, n_fft)
     # gamma
     if gamma is None:
         gamma = 10 * (EPS64 if S.is_dtype(Sx, 'complex128') else EPS32)
@@ -247,12 +248,14 @@ def phase_stft(Sx, dSx, Sfs, gamma=None, parallel=None):
     return phase_stft_cpu(Sx, dSx, Sfs, gamma, parallel)
 
 
-def _make_Sfs(Sx, fs):
+def _make_Sfs(Sx, fs, n_fft=None):
     dtype = 'float32' if 'complex64' in str(Sx.dtype) else 'float64'
     n_rows = len(Sx) if Sx.ndim == 2 else Sx.shape[1]
+    # last row is Nyquist only if `n_fft` is even
+    fmax = .5*fs if (n_fft is None or n_fft % 2 == 0) else (n_rows - 1)*fs/n_fft
     if S.is_tensor(Sx):
-        Sfs = torch.linspace(0, .5*fs, n_rows, device=Sx.device,
+        Sfs = torch.linspace(0, fmax, n_rows, device=Sx.device,
                              dtype=getattr(torch, dtype))
     else:
-        Sfs = np.linspace(0, .5*fs, n_rows, dtype=dtype)
+        Sfs = np.linspace(0, fmax, n_rows, dtype=dtype)
     return Sfs
-- 
2.43.0


From 10efa68ea0e7ab303ad2d27cfef5ecae82396027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:22 +0000
Subject: [PATCH 43/51] fix: FFT: cached pyfftw objects ignored direction and
 patience

---
 ssqueezepy/utils/fft_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ssqueezepy/utils/fft_utils.py b/ssqueezepy/utils/fft_utils.py
index 64c4a0e..ba0eefc 100644
--- a/ssqueezepy/utils/fft_utils.py
+++ b/ssqueezepy/utils/fft_utils.py
@@ -237,7 +237,8 @@ class FFT():
 
     def get_fft_object(self, x, axis, patience=1, real=False, inverse=False,
                        n=None):
-        combo = (x.shape, x.dtype, axis, real, n)
+        combo = (x.shape, x.dtype, axis, real, inverse, n, patience,
+                 self.planning_timelimit, self.threads)
         if self.cache_fft_objects and combo in self._input_history:
             fft_object = self._input_history[combo]
         else:
-- 
2.43.0


From 15bcd8b3a595d8bbffad40416c8b3235d54465b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:23 +0000
Subject: [PATCH 44/51] fix: FFT: don't hand out the output array of a cached
 pyfftw object

---
 ssqueezepy/utils/fft_utils.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/ssqueezepy/utils/fft_utils.py b/ssqueezepy/utils/fft_utils.py
index ba0eefc..70b5984 100644
--- a/ssqueezepy/utils/fft_utils.py
+++ b/ssqueezepy/utils/fft_utils.py
@@ -164,7 +164,7 @@ class FFT():
             return sfft(x, axis=axis, workers=self.threads)
 
         fft_object = self._get_save_fill(x, axis, patience, real=False)
-        return fft_object()
+        return self._execute(fft_object)
 
     def rfft(self, x, axis=-1, patience=None, astensor=False):
         """See `help(ssqueezepy.utils.FFT)`."""
@@ -177,7 +177,7 @@ class FFT():
             return srfft(x, axis=axis, workers=self.threads)
 
         fft_object = self._get_save_fill(x, axis, patience, real=True)
-        return fft_object()
+        return self._execute(fft_object)
 
     def ifft(self, x, axis=-1, patience=None, astensor=False):
         """See `help(ssqueezepy.utils.FFT)`."""
@@ -191,7 +191,7 @@ class FFT():
 
         fft_object = self._get_save_fill(x, axis, patience, real=False,
                                          inverse=True)
-        return fft_object()
+        return self._execute(fft_object)
 
     def irfft(self, x, axis=-1, patience=None, astensor=False, n=None):
         """See `help(ssqueezepy.utils.FFT)`."""
@@ -205,7 +205,7 @@ class FFT():
 
         fft_object = self._get_save_fill(x, axis, patience, real=True,
                                          inverse=True, n=n)
-        return fft_object()
+        return self._execute(fft_object)
 
     def fftshift(self, x, axes=-1, astensor=False):
         out = self._maybe_gpu('fftshift', x, dim=axes, astensor=astensor)
@@ -235,6 +235,11 @@ class FFT():
         fft_object.input_array[:] = x
         return fft_object
 
+    def _execute(self, fft_object):
+        out = fft_object()
+        # a cached object's output array is overwritten by its next call
+        return out.copy() if self.cache_fft_objects else out
+
     def get_fft_object(self, x, axis, patience=1, real=False, inverse=False,
                        n=None):
         combo = (x.shape, x.dtype, axis, real, inverse, n, patience,
-- 
2.43.0


From 1408d677716026a9bc4b602901920b700e360d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:41 +0000
Subject: [PATCH 45/51] fix: Wavelet.Psih: hit the cache only for the same
 nohalf and exactly the same scales

---
 ssqueezepy/wavelets.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/ssqueezepy/wavelets.py b/ssqueezepy/wavelets.py
index 72564bb..45a80c0 100644
--- a/ssqueezepy/wavelets.py
+++ b/ssqueezepy/wavelets.py
@@ -140,12 +140,17 @@ class Wavelet():
 
         If both `scale` & `N` are None, will return previously computed `Psih`.
         """
-        pN = getattr(self, '_Psih_N', S.array([-1]))
-        ps = getattr(self, '_Psih_scale', S.array([-1]))
-        N_is_None = N is None
+        def _same_scale(a, b):
+            if type(a) is not type(b) or not hasattr(a, 'shape'):
+                return type(a) is type(b) and a == b
+            return a.shape == b.shape and bool((a == b).all())
+
+        if scale is None and N is None:
+            return self._Psih
         N = N or self.N
-        if ((scale is None and N_is_None) or
-                (N == pN and (len(scale) == len(ps) and S.allclose(scale, ps)))):
+        if (getattr(self, '_Psih', None) is not None and N == self._Psih_N and
+                nohalf == self._Psih_nohalf and
+                _same_scale(scale, self._Psih_scale)):
             return self._Psih
 
         # first empty existing to free memory
@@ -155,8 +160,10 @@ class Wavelet():
 
         self._Psih = self(scale=scale, N=N, nohalf=nohalf)
         self._Psih_N = N
+        self._Psih_nohalf = nohalf
         # store independent of external copy
-        self._Psih_scale = scale.clone() if S.is_tensor(scale) else scale.copy()
+        self._Psih_scale = (scale.clone() if S.is_tensor(scale) else
+                            getattr(scale, 'copy', lambda: scale)())
         return self._Psih
 
     @property
-- 
2.43.0


From 2b74a8e0346cf428fa57f52f4fb66162e6aaf8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:18 +0000
Subject: [PATCH 46/51] fix: center_frequency: honour force_int=False

---
 ssqueezepy/wavelets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssqueezepy/wavelets.py b/ssqueezepy/wavelets.py
index 45a80c0..f947cdf 100644
--- a/ssqueezepy/wavelets.py
+++ b/ssqueezepy/wavelets.py
@@ -745,7 +745,7 @@ def center_frequency(wavelet, scale=None, N=1024, kind='energy', force_int=None,
 
     wavelet = Wavelet._init_if_not_isinstance(wavelet)
     if kind == 'energy':
-        force_int = force_int or True
+        force_int = True if force_int is None else force_int
         wc, params = _energy_wc(wavelet, scale, N, force_int)
     elif kind == 'peak':
         wc, params = _peak_wc(wavelet, scale, N)
-- 
2.43.0


From 18a73496045ea059cc19392df2fff96ad84ac2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:18 +0000
Subject: [PATCH 47/51] fix: center_frequency: accept wavelet names with
 scale=None

---
 ssqueezepy/wavelets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssqueezepy/wavelets.py b/ssqueezepy/wavelets.py
index f947cdf..4d8584f 100644
--- a/ssqueezepy/wavelets.py
+++ b/ssqueezepy/wavelets.py
@@ -738,12 +738,12 @@ def center_frequency(wavelet, scale=None, N=1024, kind='energy', force_int=None,
     if kind == 'peak-ct' and scale is not None:
         NOTE("`scale` ignored with `peak = 'peak-ct'`")
 
+    wavelet = Wavelet._init_if_not_isinstance(wavelet)
     if scale is None and kind != 'peak-ct':
         # see _peak_ct_wc
         wc, _ = find_maximum(wavelet.fn)
         scale = (4/pi) * wc
 
-    wavelet = Wavelet._init_if_not_isinstance(wavelet)
     if kind == 'energy':
         force_int = True if force_int is None else force_int
         wc, params = _energy_wc(wavelet, scale, N, force_int)
-- 
2.43.0


From bc699456b0de41780b8f9e4863979fcf9564284c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:18 +0000
Subject: [PATCH 48/51] fix: freq_resolution: center frequency at the same N

---
 ssqueezepy/wavelets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ssqueezepy/wavelets.py b/ssqueezepy/wavelets.py
index 4d8584f..21dd9fe 100644
--- a/ssqueezepy/wavelets.py
+++ b/ssqueezepy/wavelets.py
@@ -799,7 +799,7 @@ def freq_resolution(wavelet, scale=10, N=1024, nondim=True, force_int=True,
 
     w = aifftshift(_xifn(1, N))
     psih = asnumpy(wavelet(scale * w))
-    wce = center_frequency(wavelet, scale, force_int=force_int, kind='energy')
+    wce = center_frequency(wavelet, scale, N, force_int=force_int, kind='energy')
 
     apsih2 = np.abs(psih)**2
     var_w = (integrate.trapezoid((w - wce)**2 * apsih2, w) /
@@ -810,7 +810,7 @@ def freq_resolution(wavelet, scale=10, N=1024, nondim=True, force_int=True,
         std_w *= (scale / scale_orig)
         scale = scale_orig
     if nondim:
-        wcp = center_frequency(wavelet, scale, kind='peak')
+        wcp = center_frequency(wavelet, scale, N, kind='peak')
         std_w /= wcp
     if viz:
         _viz()
-- 
2.43.0


From 80eacaa089dca61beb7bd4fc97e0cd4b2e2d241b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:18 +0000
Subject: [PATCH 49/51] fix: phase_cwt_num: honour gamma=0

---
 ssqueezepy/_ssq_cwt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ssqueezepy/_ssq_cwt.py b/ssqueezepy/_ssq_cwt.py
index 6f1af0b..89038f3 100644
--- a/ssqueezepy/_ssq_cwt.py
+++ b/ssqueezepy/_ssq_cwt.py
@@ -587,7 +587,8 @@ def phase_cwt_num(Wx, dt, difforder=4, gamma=None):
 
     # epsilon from Daubechies, H-T Wu, et al.
     # gamma from Brevdo, H-T Wu, et al.
-    gamma = gamma or 10 * (EPS64 if Wx.dtype == np.complex128 else EPS32)
+    if gamma is None:
+        gamma = 10 * (EPS64 if Wx.dtype == np.complex128 else EPS32)
     w[np.abs(Wx) < gamma] = np.inf
 
     # see `phase_cwt`, though negatives may no longer be in minority
-- 
2.43.0


From eb8ddfded49a705f1f5a2e76803b5b5da236eb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:34 +0000
Subject: [PATCH 50/51] fix: ssqueeze: weigh STFT bins relative to the sampling
 rate

The width of a bin in Hz made ssq_stft scale with fs, and issq_stft wrong by fs.
---
 ssqueezepy/ssqueezing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ssqueezepy/ssqueezing.py b/ssqueezepy/ssqueezing.py
index d210904..a27a587 100644
--- a/ssqueezepy/ssqueezing.py
+++ b/ssqueezepy/ssqueezing.py
@@ -131,7 +131,8 @@ def ssqueeze(Wx, w=None, ssq_freqs=None, scales=None, Sfs=None, fs=None, t=None,
                 # omit /dw since it's cancelled by *dw in inversion anyway
                 const = ((scales[1] - scales[0]) / scales).squeeze()
         elif transform == 'stft':
-            const = (ssq_freqs[1] - ssq_freqs[0])  # 'alpha' from [3]
+            # 'alpha' from [3], with `ssq_freqs` as fraction of `fs`
+            const = (ssq_freqs[1] - ssq_freqs[0]) * dt
 
         ssq_logscale = ssq_scaletype.startswith('log')
         # do squeezing by finding which frequency bin each phase transform point
-- 
2.43.0


From f0d3dbda83fdea7c2691e4b5a67cd544e9207f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:34 +0000
Subject: [PATCH 51/51] fix: ssq_cwt: difftype='phase' frequencies in the unit
 of ssq_freqs

They were in cycles per sample, whatever fs.
---
 ssqueezepy/_ssq_cwt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ssqueezepy/_ssq_cwt.py b/ssqueezepy/_ssq_cwt.py
index 89038f3..48237b8 100644
--- a/ssqueezepy/_ssq_cwt.py
+++ b/ssqueezepy/_ssq_cwt.py
@@ -210,7 +210,8 @@ def ssq_cwt(x, wavelet='gmw', scales='log-piecewise', nv=None, fs=None, t=None,
         elif difftype == 'phase':
             # !!! bad; yields negatives, and forcing abs(w) doesn't help
             # calculate inst. freq. from unwrapped phase of CWT
-            w = phase_cwt(Wx, None, difftype, gamma)
+            # in cycles per sample; convert to same units as `ssq_freqs`
+            w = phase_cwt(Wx, None, difftype, gamma) / dt
         elif difftype == 'numeric':
             # !!! tested to be very inaccurate for small scales
             # calculate derivative numerically
-- 
2.43.0

