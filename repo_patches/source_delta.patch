From b8869b098bf36ec42f0d84cc80e5217ff1f2ed7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:51 +0000
Subject: [PATCH 01/87] fix: cwt/icwt no longer write 'norm' into the caller's
 wavelet options dict

---
 ssqueezepy/_cwt.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ssqueezepy/_cwt.py b/ssqueezepy/_cwt.py
index fc1a663..34c4665 100644
--- a/ssqueezepy/_cwt.py
+++ b/ssqueezepy/_cwt.py
@@ -503,8 +503,7 @@ def _process_gmw_wavelet(wavelet, l1_norm):
 
     elif isinstance(wavelet, tuple) and wavelet[0].lower()[:3] == 'gmw':
         wavelet, wavopts = wavelet
-        wavopts['norm'] = wavopts.get('norm', norm)
-        wavelet = (wavelet, wavopts)
+        wavelet = (wavelet, {**wavopts, 'norm': wavopts.get('norm', norm)})
 
     elif isinstance(wavelet, Wavelet):
         if wavelet.name == 'GMW L2' and l1_norm:
-- 
2.43.0


From 161e8c3dda258c257eebea2492ccef4cf6bf903e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:51 +0000
Subject: [PATCH 02/87] fix: cwt's NaN/inf zeroing no longer overwrites the
 caller's input

---
 ssqueezepy/_cwt.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ssqueezepy/_cwt.py b/ssqueezepy/_cwt.py
index 34c4665..cbdcbe1 100644
--- a/ssqueezepy/_cwt.py
+++ b/ssqueezepy/_cwt.py
@@ -212,7 +212,7 @@ def cwt(x, wavelet='gmw', scales='log-piecewise', fs=None, t=None, nv=32,
                 raise ValueError("`nan_checks=True` requires NumPy input.")
             elif np.isnan(x.max()) or np.isinf(x.max()) or np.isinf(x.min()):
                 WARN("found NaN or inf values in `x`; will zero")
-                replace_at_inf_or_nan(x, replacement=0.)
+                x = replace_at_inf_or_nan(x.copy(), replacement=0.)
 
         if cache_wavelet:
             if isinstance(wavelet, (str, tuple)):
@@ -233,7 +233,7 @@ def cwt(x, wavelet='gmw', scales='log-piecewise', fs=None, t=None, nv=32,
         N = x.shape[-1]
         dt, *_ = _process_fs_and_t(fs, t, N=N)
         is_2D = (x.ndim == 2)
-        return N, nv, dt, is_2D, cache_wavelet
+        return x, N, nv, dt, is_2D, cache_wavelet
 
     if isinstance(order, (tuple, list, range)) or order > 0:
         kw = dict(wavelet=wavelet, scales=scales, fs=fs, t=t, nv=nv,
@@ -243,7 +243,7 @@ def cwt(x, wavelet='gmw', scales='log-piecewise', fs=None, t=None, nv=32,
         return cwt_higher_order(x, order=order, average=average,
                                 astensor=astensor, **kw)
 
-    (N, nv, dt, is_2D, cache_wavelet
+    (x, N, nv, dt, is_2D, cache_wavelet
      ) = _process_args(x, scales, nv, fs, t, nan_checks, wavelet, cache_wavelet)
 
     # process `wavelet`, get its `dtype`
-- 
2.43.0


From da44b3d90ba775798aebbf6b90154f996a58ec29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:51 +0000
Subject: [PATCH 03/87] fix: cwt restores the wavelet's length and FFT settings
 when it fails

---
 ssqueezepy/_cwt.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/ssqueezepy/_cwt.py b/ssqueezepy/_cwt.py
index cbdcbe1..6dc4c83 100644
--- a/ssqueezepy/_cwt.py
+++ b/ssqueezepy/_cwt.py
@@ -278,17 +278,18 @@ def cwt(x, wavelet='gmw', scales='log-piecewise', fs=None, t=None, nv=32,
     wavelet_N_orig = wavelet.N
     wavelet.N = xp.shape[-1]
     patience_orig = (FFT_GLOBAL.patience, FFT_GLOBAL.planning_timelimit)
-    FFT_GLOBAL.patience = patience
 
     # take CWT
-    if vectorized:
-        Wx, dWx = _vectorized(xh, scales, wavelet, derivative, cache_wavelet)
-    else:
-        Wx, dWx = _for_loop(xh, scales, wavelet, derivative, is_2D)
-
-    # restore
-    wavelet.N = wavelet_N_orig
-    FFT_GLOBAL.patience = patience_orig
+    try:
+        FFT_GLOBAL.patience = patience
+        if vectorized:
+            Wx, dWx = _vectorized(xh, scales, wavelet, derivative, cache_wavelet)
+        else:
+            Wx, dWx = _for_loop(xh, scales, wavelet, derivative, is_2D)
+    finally:
+        # restore
+        wavelet.N = wavelet_N_orig
+        FFT_GLOBAL.patience = patience_orig
 
     # handle unpadding, normalization
     if not rpadded and padtype is not None:
-- 
2.43.0


From b6cbe54bcfedf9981b8f9b56725fa27cffdb441e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:57 +0000
Subject: [PATCH 04/87] fix: Wavelet.Psih cache distinguishes nohalf and
 nearby-but-different scales

---
 ssqueezepy/wavelets.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ssqueezepy/wavelets.py b/ssqueezepy/wavelets.py
index 72564bb..dcf8747 100644
--- a/ssqueezepy/wavelets.py
+++ b/ssqueezepy/wavelets.py
@@ -145,7 +145,8 @@ class Wavelet():
         N_is_None = N is None
         N = N or self.N
         if ((scale is None and N_is_None) or
-                (N == pN and (len(scale) == len(ps) and S.allclose(scale, ps)))):
+                (N == pN and nohalf == getattr(self, '_Psih_nohalf', None) and
+                 scale.shape == ps.shape and bool((scale == ps).all()))):
             return self._Psih
 
         # first empty existing to free memory
@@ -155,6 +156,7 @@ class Wavelet():
 
         self._Psih = self(scale=scale, N=N, nohalf=nohalf)
         self._Psih_N = N
+        self._Psih_nohalf = nohalf
         # store independent of external copy
         self._Psih_scale = scale.clone() if S.is_tensor(scale) else scale.copy()
         return self._Psih
-- 
2.43.0


From 6e2185579dcf4e21e9004c801c578463ebc893f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:57 +0000
Subject: [PATCH 05/87] fix: icwt with piecewise scales (short pieces, x_mean,
 batches) and with rpadded=True

---
 ssqueezepy/_cwt.py | 63 ++++++++++++++++++++++++++++------------------
 1 file changed, 39 insertions(+), 24 deletions(-)

diff --git a/ssqueezepy/_cwt.py b/ssqueezepy/_cwt.py
index 6dc4c83..e23484c 100644
--- a/ssqueezepy/_cwt.py
+++ b/ssqueezepy/_cwt.py
@@ -2,7 +2,7 @@
 import numpy as np
 from .utils import fft, ifft, ifftshift, FFT_GLOBAL
 from .utils import WARN, adm_cwt, adm_ssq, _process_fs_and_t, is_array_or_tensor
-from .utils import padsignal, process_scales, logscale_transition_idx
+from .utils import padsignal, process_scales, logscale_transition_idx, p2up
 from .utils import backend as S
 from .utils.backend import Q
 from .algos import replace_at_inf_or_nan
@@ -418,38 +418,50 @@ def icwt(Wx, wavelet='gmw', scales='log-piecewise', nv=None, one_int=True,
     assert (len(scales) == na), "%s != %s" % (len(scales), na)
 
     #### Handle piecewise scales case ########################################
-    # `nv` must be left unspecified so it's inferred automatically from `scales`
-    # in `process_scales` for each piecewise case
+    idx = None
     if scaletype == 'log-piecewise':
-        kw = dict(wavelet=wavelet, one_int=one_int, x_len=x_len, x_mean=x_mean,
-                  padtype=padtype, rpadded=rpadded, l1_norm=l1_norm)
-
+        scaletype = 'log'
         idx = logscale_transition_idx(scales)
-        x  = icwt(Wx[..., :idx, :], scales=scales[:idx], **kw)
-        x += icwt(Wx[..., idx:, :], scales=scales[idx:], **kw)
-        return x
-    ##########################################################################
 
-    #### Invert ##############################################################
-    if one_int:
-        x = _icwt_1int(Wx, scales, scaletype, l1_norm)
+    if idx is None:
+        pieces = [(slice(None), nv)]
     else:
-        if Wx.ndim == 3:
-            raise NotImplementedError("batched `Wx` requires `one_int=True`.")
-        x = _icwt_2int(Wx, scales, scaletype, l1_norm,
-                       wavelet, x_len, padtype, rpadded)
+        # invert each piece with its own `nv`; the second piece is spaced at its
+        # own `nv` also from the end of the first (see `make_scales`)
+        log2s = np.log2(scales.squeeze())
+        pieces = [(slice(0, idx), (idx - 1) / (log2s[idx - 1] - log2s[0])),
+                  (slice(idx, na), (na - idx) / (log2s[-1] - log2s[idx - 1]))]
+    ##########################################################################
 
+    #### Invert ##############################################################
     # admissibility coefficient
     Cpsi = (adm_ssq(wavelet) if one_int else
             adm_cwt(wavelet))
-    if scaletype == 'log':
-        # Eq 4.67 in [3]; Theorem 4.5 in [3]; below Eq 14 in [5]
-        # ln(2**(1/nv)) == ln(2)/nv == diff(ln(scales))[0]
-        x *= (2 / Cpsi) * np.log(2 ** (1 / nv))
-    else:
-        # unclear why the `pi/4` here but it improves inversion
-        x *= (2 / Cpsi) * np.pi / 4
+    x = 0
+    for piece, nv in pieces:
+        _Wx, _scales = Wx[..., piece, :], scales[piece]
+        if one_int:
+            _x = _icwt_1int(_Wx, _scales, scaletype, l1_norm)
+            if rpadded and x_len != n:
+                _, n1, _ = p2up(x_len)
+                _x = _x[..., n1:n1 + x_len]  # keep the unpadded part
+        else:
+            if Wx.ndim == 3:
+                raise NotImplementedError("batched `Wx` requires `one_int=True`.")
+            _x = _icwt_2int(_Wx, _scales, scaletype, l1_norm,
+                            wavelet, x_len, padtype, rpadded)
 
+        if scaletype == 'log':
+            # Eq 4.67 in [3]; Theorem 4.5 in [3]; below Eq 14 in [5]
+            # ln(2**(1/nv)) == ln(2)/nv == diff(ln(scales))[0]
+            _x *= (2 / Cpsi) * np.log(2 ** (1 / nv))
+        else:
+            # unclear why the `pi/4` here but it improves inversion
+            _x *= (2 / Cpsi) * np.pi / 4
+        x = x + _x
+
+    if getattr(x_mean, 'ndim', 0) == 1 and Wx.ndim == 3:
+        x_mean = x_mean[:, None]  # one mean per input
     x += x_mean  # CWT doesn't capture mean (infinite scale)
     return x
 
@@ -460,6 +472,9 @@ def _icwt_2int(Wx, scales, scaletype, l1_norm, wavelet, x_len,
     # add CWT padding if it doesn't exist
     if not rpadded:
         Wx, n_up, n1, _ = padsignal(Wx, padtype=padtype, get_params=True)
+    else:
+        n_up = Wx.shape[-1]
+        _, n1, _ = p2up(x_len)
 
     # see help(cwt) on `norm` and `pn`
     norm = _icwt_norm(scaletype, l1_norm)
-- 
2.43.0


From 7e4dbbc559842cebc8be1d55ec5c0df0c012b2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:12 +0000
Subject: [PATCH 06/87] fix: ssqueeze returns ssq_freqs in the order of Tx's
 rows with transform='cwt', flipud=False

---
 ssqueezepy/ssqueezing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ssqueezepy/ssqueezing.py b/ssqueezepy/ssqueezing.py
index 1dd7ce9..fa7bb9c 100644
--- a/ssqueezepy/ssqueezing.py
+++ b/ssqueezepy/ssqueezing.py
@@ -213,8 +213,8 @@ def ssqueeze(Wx, w=None, ssq_freqs=None, scales=None, Sfs=None, fs=None, t=None,
         for _Tx, _w, _Wx, _dWx in zip(Tx, w, Wx, dWx):
             _ssqueeze(_Tx, _w, _Wx, _dWx, *args)
 
-    # `scales` go high -> low
-    if (transform == 'cwt' and not flipud) or flipud:
+    # rows of `Tx` are reversed w.r.t. `ssq_freqs` only if `flipud`
+    if flipud:
         if not isinstance(ssq_freqs, np.ndarray):
             import torch
             ssq_freqs = torch.flip(ssq_freqs, (0,))
-- 
2.43.0


From 4655ab72ebf34b07137fc26cf22afd18f464739d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:21 +0000
Subject: [PATCH 07/87] fix: ssq kernels no longer write out of bounds upon NaN
 or very large frequencies

---
 ssqueezepy/algos.py | 40 ++++++++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/ssqueezepy/algos.py b/ssqueezepy/algos.py
index 770589a..3eaa853 100644
--- a/ssqueezepy/algos.py
+++ b/ssqueezepy/algos.py
@@ -173,7 +173,7 @@ def indexed_sum_onfly(Wx, w, ssq_freqs, const=1, logscale=False, flipud=False,
 def _indexed_sum_log(Wx, w, out, const, vlmin, dvl, omax, flipud=False):
     for i in range(Wx.shape[0]):
         for j in range(Wx.shape[1]):
-            if np.isinf(w[i, j]):
+            if not np.isfinite(w[i, j]):
                 continue
             k = int(min(round(max((np.log2(w[i, j]) - vlmin) / dvl, 0)), omax))
             if flipud:
@@ -184,7 +184,7 @@ def _indexed_sum_log(Wx, w, out, const, vlmin, dvl, omax, flipud=False):
 def _indexed_sum_log_par(Wx, w, out, const, vlmin, dvl, omax, flipud=False):
     for j in prange(Wx.shape[1]):
         for i in range(Wx.shape[0]):
-            if np.isinf(w[i, j]):
+            if not np.isfinite(w[i, j]):
                 continue
             k = int(min(round(max((np.log2(w[i, j]) - vlmin) / dvl, 0)), omax))
             if flipud:
@@ -197,7 +197,7 @@ def _indexed_sum_log_piecewise(Wx, w, out, const, vlmin0, vlmin1, dvl0, dvl1,
                                idx1, omax, flipud=False):
     for i in range(Wx.shape[0]):
         for j in range(Wx.shape[1]):
-            if np.isinf(w[i, j]):
+            if not np.isfinite(w[i, j]):
                 continue
             wl = np.log2(w[i, j])
             if wl > vlmin1:
@@ -215,7 +215,7 @@ def _indexed_sum_log_piecewise_par(Wx, w, out, const, vlmin0, vlmin1, dvl0, dvl1
     # of `vlmin`, `dvl`, and `idx`, which generalizes to any number of transitions
     for j in prange(Wx.shape[1]):
         for i in range(Wx.shape[0]):
-            if np.isinf(w[i, j]):
+            if not np.isfinite(w[i, j]):
                 continue
             wl = np.log2(w[i, j])
             if wl > vlmin1:
@@ -231,9 +231,9 @@ def _indexed_sum_log_piecewise_par(Wx, w, out, const, vlmin0, vlmin1, dvl0, dvl1
 def _indexed_sum_lin(Wx, w, out, const, vmin, dv, omax, flipud=False):
     for i in range(Wx.shape[0]):
         for j in range(Wx.shape[1]):
-            if np.isinf(w[i, j]):
+            if not np.isfinite(w[i, j]):
                 continue
-            k = int(min(round(max((w[i, j] - vmin) / dv, 0)), omax))
+            k = int(round(min(max((w[i, j] - vmin) / dv, 0), omax)))
             if flipud:
                 k = omax - k
             out[k, j] += Wx[i, j] * const[i]
@@ -242,9 +242,9 @@ def _indexed_sum_lin(Wx, w, out, const, vmin, dv, omax, flipud=False):
 def _indexed_sum_lin_par(Wx, w, out, const, vmin, dv, omax, flipud=False):
     for j in prange(Wx.shape[1]):
         for i in range(Wx.shape[0]):
-            if np.isinf(w[i, j]):
+            if not np.isfinite(w[i, j]):
                 continue
-            k = int(min(round(max((w[i, j] - vmin) / dv, 0)), omax))
+            k = int(round(min(max((w[i, j] - vmin) / dv, 0), omax)))
             if flipud:
                 k = omax - k
             out[k, j] += Wx[i, j] * const[i]
@@ -865,6 +865,8 @@ def _ssq_cwt_log_piecewise(Wx, dWx, out, const, gamma, vlmin0, vlmin1,
                 A, B = dWx[i, j].real, dWx[i, j].imag
                 C, D = Wx[i, j].real,  Wx[i, j].imag
                 w_ij = abs((B*C - A*D) / ((C**2 + D**2) * 6.283185307179586))
+                if not np.isfinite(w_ij):
+                    continue
 
                 wl = np.log2(w_ij)
                 if wl > vlmin1:
@@ -884,6 +886,8 @@ def _ssq_cwt_log_piecewise_par(Wx, dWx, out, const, gamma, vlmin0, vlmin1,
                 A, B = dWx[i, j].real, dWx[i, j].imag
                 C, D = Wx[i, j].real,  Wx[i, j].imag
                 w_ij = abs((B*C - A*D) / ((C**2 + D**2) * 6.283185307179586))
+                if not np.isfinite(w_ij):
+                    continue
 
                 wl = np.log2(w_ij)
                 if wl > vlmin1:
@@ -903,6 +907,8 @@ def _ssq_cwt_log(Wx, dWx, out, const, gamma, vlmin, dvl, omax, flipud=False):
                 A, B = dWx[i, j].real, dWx[i, j].imag
                 C, D = Wx[i, j].real,  Wx[i, j].imag
                 w_ij = abs((B*C - A*D) / ((C**2 + D**2) * 6.283185307179586))
+                if not np.isfinite(w_ij):
+                    continue
 
                 k = int(min(round(max((np.log2(w_ij) - vlmin) / dvl, 0)), omax))
                 if flipud:
@@ -917,6 +923,8 @@ def _ssq_cwt_log_par(Wx, dWx, out, const, gamma, vlmin, dvl, omax, flipud=False)
                 A, B = dWx[i, j].real, dWx[i, j].imag
                 C, D = Wx[i, j].real,  Wx[i, j].imag
                 w_ij = abs((B*C - A*D) / ((C**2 + D**2) * 6.283185307179586))
+                if not np.isfinite(w_ij):
+                    continue
 
                 k = int(min(round(max((np.log2(w_ij) - vlmin) / dvl, 0)), omax))
                 if flipud:
@@ -932,8 +940,10 @@ def _ssq_cwt_lin(Wx, dWx, out, const, gamma, vmin, dv, omax, flipud=False):
                 A, B = dWx[i, j].real, dWx[i, j].imag
                 C, D = Wx[i, j].real,  Wx[i, j].imag
                 w_ij = abs((B*C - A*D) / ((C**2 + D**2) * 6.283185307179586))
+                if not np.isfinite(w_ij):
+                    continue
 
-                k = int(min(round(max((w_ij - vmin) / dv, 0)), omax))
+                k = int(round(min(max((w_ij - vmin) / dv, 0), omax)))
                 if flipud:
                     k = omax - k
                 out[k, j] += Wx[i, j] * const[i]
@@ -946,8 +956,10 @@ def _ssq_cwt_lin_par(Wx, dWx, out, const, gamma, vmin, dv, omax, flipud=False):
                 A, B = dWx[i, j].real, dWx[i, j].imag
                 C, D = Wx[i, j].real,  Wx[i, j].imag
                 w_ij = abs((B*C - A*D) / ((C**2 + D**2) * 6.283185307179586))
+                if not np.isfinite(w_ij):
+                    continue
 
-                k = int(min(round(max((w_ij - vmin) / dv, 0)), omax))
+                k = int(round(min(max((w_ij - vmin) / dv, 0), omax)))
                 if flipud:
                     k = omax - k
                 out[k, j] += Wx[i, j] * const[i]
@@ -962,8 +974,10 @@ def _ssq_stft(Wx, dWx, Sfs, out, const, gamma, vmin, dv, omax, flipud=False):
                 C, D = Wx[i, j].real,  Wx[i, j].imag
                 w_ij = abs(
                     Sfs[i] - (B*C - A*D) / ((C**2 + D**2) * 6.283185307179586))
+                if not np.isfinite(w_ij):
+                    continue
 
-                k = int(min(round(max((w_ij - vmin) / dv, 0)), omax))
+                k = int(round(min(max((w_ij - vmin) / dv, 0), omax)))
                 if flipud:
                     k = omax - k
                 out[k, j] += Wx[i, j] * const[i]
@@ -977,8 +991,10 @@ def _ssq_stft_par(Wx, dWx, Sfs, out, const, gamma, vmin, dv, omax, flipud=False)
                 C, D = Wx[i, j].real,  Wx[i, j].imag
                 w_ij = abs(
                     Sfs[i] - (B*C - A*D) / ((C**2 + D**2) * 6.283185307179586))
+                if not np.isfinite(w_ij):
+                    continue
 
-                k = int(min(round(max((w_ij - vmin) / dv, 0)), omax))
+                k = int(round(min(max((w_ij - vmin) / dv, 0), omax)))
                 if flipud:
                     k = omax - k
                 out[k, j] += Wx[i, j] * const[i]
-- 
2.43.0


From bc1652e1ef503b1af17a39abfe504dfed3d1bd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:35 +0000
Subject: [PATCH 08/87] fix: find_closest bounds its output by len(v) and
 handles inf alike in all variants

---
 ssqueezepy/algos.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/ssqueezepy/algos.py b/ssqueezepy/algos.py
index 3eaa853..26dbb85 100644
--- a/ssqueezepy/algos.py
+++ b/ssqueezepy/algos.py
@@ -376,7 +376,7 @@ def _get_params_find_closest_log(v):
 def find_closest_log(a, v, parallel=True):
     idx, params = _get_params_find_closest_log(v)
     out = np.zeros(a.shape, dtype=np.int32)
-    params['omax'] = len(out) - 1
+    params['omax'] = len(v) - 1
 
     if idx is None:
         fn = _find_closest_log_par if parallel else _find_closest_log
@@ -391,13 +391,13 @@ def find_closest_log(a, v, parallel=True):
 def _find_closest_log(a, out, vlmin, dvl, omax):
     for i in range(a.shape[0]):
         for j in range(a.shape[1]):
-            out[i, j] = min(round(max((np.log2(a[i, j]) - vlmin) / dvl, 0)), omax)
+            out[i, j] = round(min(max((np.log2(a[i, j]) - vlmin) / dvl, 0), omax))
 
 @jit(nopython=True, cache=True, parallel=True)
 def _find_closest_log_par(a, out, vlmin, dvl, omax):
     for i in prange(a.shape[0]):
         for j in prange(a.shape[1]):
-            out[i, j] = min(round(max((np.log2(a[i, j]) - vlmin) / dvl, 0)), omax)
+            out[i, j] = round(min(max((np.log2(a[i, j]) - vlmin) / dvl, 0), omax))
 
 
 @jit(nopython=True, cache=True)
@@ -407,7 +407,7 @@ def _find_closest_log_piecewise(a, out, vlmin0, vlmin1, dvl0, dvl1, idx1,
         for j in range(a.shape[1]):
             al = np.log2(a[i, j])
             if al > vlmin1:
-                out[i, j] = min(round((al - vlmin1) / dvl1) + idx1, omax)
+                out[i, j] = min(round(min((al - vlmin1) / dvl1, omax)) + idx1, omax)
             else:
                 out[i, j] = round(max((al - vlmin0) / dvl0, 0))
 
@@ -418,11 +418,9 @@ def _find_closest_log_piecewise_par(a, out, vlmin0, vlmin1, dvl0, dvl1, idx1,
     # of `vlmin`, `dvl`, and `idx`, which generalizes to any number of transitions
     for i in prange(a.shape[0]):
         for j in prange(a.shape[1]):
-            if np.isinf(a[i, j]):
-                continue
             al = np.log2(a[i, j])
             if al > vlmin1:
-                out[i, j] = min(round((al - vlmin1) / dvl1) + idx1, omax)
+                out[i, j] = min(round(min((al - vlmin1) / dvl1, omax)) + idx1, omax)
             else:
                 out[i, j] = round(max((al - vlmin0) / dvl0, 0))
 
@@ -433,20 +431,20 @@ def find_closest_lin(a, v, parallel=True):
     out = np.zeros(a.shape, dtype=np.int32)
 
     fn = _find_closest_lin_par if parallel else _find_closest_lin
-    fn(a, out, vmin, dv, omax=len(out) - 1)
+    fn(a, out, vmin, dv, omax=len(v) - 1)
     return out
 
 @jit(nopython=True, cache=True)
 def _find_closest_lin(a, out, vmin, dv, omax):
     for i in range(a.shape[0]):
         for j in range(a.shape[1]):
-            out[i, j] = min(round(max((a[i, j] - vmin) / dv, 0)), omax)
+            out[i, j] = round(min(max((a[i, j] - vmin) / dv, 0), omax))
 
 @jit(nopython=True, cache=True, parallel=True)
 def _find_closest_lin_par(a, out, vmin, dv, omax):
     for i in prange(a.shape[0]):
         for j in prange(a.shape[1]):
-            out[i, j] = min(round(max((a[i, j] - vmin) / dv, 0)), omax)
+            out[i, j] = round(min(max((a[i, j] - vmin) / dv, 0), omax))
 
 #### Replacers ###############################################################
 def _process_replace_fn_args(x, ref):
-- 
2.43.0


From 1276dae008668c220a28103cc7f9df525b7e5c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:04 +0000
Subject: [PATCH 09/87] fix: extract_ridges removes an extracted ridge also
 near the first row

---
 ssqueezepy/ridge_extraction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssqueezepy/ridge_extraction.py b/ssqueezepy/ridge_extraction.py
index 2fbbf93..a9ad744 100644
--- a/ssqueezepy/ridge_extraction.py
+++ b/ssqueezepy/ridge_extraction.py
@@ -140,7 +140,7 @@ def extract_ridges(Tf, scales, penalty=2., n_ridges=1, bw=15, transform='cwt',
 
         for time_idx in range(n_timeshifts):
             ridx = ridge_idxs[time_idx, i]
-            energy[int(ridx - bw):int(ridx + bw), time_idx] = 0
+            energy[max(int(ridx - bw), 0):int(ridx + bw), time_idx] = 0
 
     return ((ridge_idxs, ridge_f, ridge_e) if get_params else
             ridge_idxs)
-- 
2.43.0


From 2e864bf7a4943f3c83c05e1b7c69b56b350df185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:04 +0000
Subject: [PATCH 10/87] fix: extract_ridges forward indices with more rows than
 time shifts

---
 ssqueezepy/ridge_extraction.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ssqueezepy/ridge_extraction.py b/ssqueezepy/ridge_extraction.py
index a9ad744..9e08f07 100644
--- a/ssqueezepy/ridge_extraction.py
+++ b/ssqueezepy/ridge_extraction.py
@@ -161,8 +161,7 @@ def _accumulated_penalty_energy_fw(energy_to_track, penalty_matrix, parallel):
     fn = (__accumulated_penalty_energy_fwp if parallel else
           __accumulated_penalty_energy_fw)
     fn(penalized_energy, penalty_matrix)
-    ridge_idxs = np.unravel_index(np.argmin(penalized_energy, axis=0),
-                                  penalized_energy.shape)[1]
+    ridge_idxs = np.argmin(penalized_energy, axis=0)
     return penalized_energy, ridge_idxs
 
 
-- 
2.43.0


From b5d7162136d8419661d2b02c45951a1051f9b567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:04 +0000
Subject: [PATCH 11/87] fix: extract_ridges no longer yields NaN energies upon
 all-zero columns

---
 ssqueezepy/ridge_extraction.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ssqueezepy/ridge_extraction.py b/ssqueezepy/ridge_extraction.py
index 9e08f07..fa0967c 100644
--- a/ssqueezepy/ridge_extraction.py
+++ b/ssqueezepy/ridge_extraction.py
@@ -130,6 +130,7 @@ def extract_ridges(Tf, scales, penalty=2., n_ridges=1, bw=15, transform='cwt',
 
     for i in range(n_ridges):
         energy_max = energy.max(axis=0)
+        energy_max[energy_max == 0] = 1  # all-zero column
         energy_neg_log_norm = -np.log(energy / energy_max + eps)
 
         ridge_idxs[:, i] = fw_bw_ridge_tracking(energy_neg_log_norm,
-- 
2.43.0


From 1bf06c27449dac400ed2c40ff981b3cccbf160b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:04 +0000
Subject: [PATCH 12/87] fix: data race in extract_ridges(parallel=True)

---
 ssqueezepy/ridge_extraction.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ssqueezepy/ridge_extraction.py b/ssqueezepy/ridge_extraction.py
index fa0967c..ad11e42 100644
--- a/ssqueezepy/ridge_extraction.py
+++ b/ssqueezepy/ridge_extraction.py
@@ -225,8 +225,12 @@ def __accumulated_penalty_energy_bwp(e, penalty_matrix, pen_e, ridge_idxs_fw,
         idx_time = (e.shape[1] - 2) - tidx
         val = (pen_e[ridge_idxs_fw[idx_time + 1], idx_time + 1] -
                e[    ridge_idxs_fw[idx_time + 1], idx_time + 1])
+        # reduce then write once, as threads would race (last match is taken)
+        match = -1
         for idx_freq in prange(e.shape[0]):
             new_penalty = penalty_matrix[ridge_idxs_fw[idx_time + 1], idx_freq]
 
             if abs(val - (pen_e[idx_freq, idx_time] + new_penalty)) < eps:
-                ridge_idxs_fw[idx_time] = idx_freq
+                match = max(match, idx_freq)
+        if match >= 0:
+            ridge_idxs_fw[idx_time] = match
-- 
2.43.0


From 759b70244d012fd7a390ab90794a3eff7de90d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:38 +0000
Subject: [PATCH 13/87] fix: ssqueeze finds frequencies from Wx itself, rather
 than squeezing(Wx)

---
 ssqueezepy/ssqueezing.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/ssqueezepy/ssqueezing.py b/ssqueezepy/ssqueezing.py
index fa7bb9c..13274fe 100644
--- a/ssqueezepy/ssqueezing.py
+++ b/ssqueezepy/ssqueezing.py
@@ -2,6 +2,7 @@
 import numpy as np
 from types import FunctionType
 from .algos import indexed_sum_onfly, ssqueeze_fast
+from .algos import phase_cwt_cpu, phase_cwt_gpu, phase_stft_cpu, phase_stft_gpu
 from .utils import p2up, process_scales, infer_scaletype, _process_fs_and_t
 from .utils import NOTE, pi, logscale_transition_idx, assert_is_one_of
 from .utils.backend import Q
@@ -193,11 +194,15 @@ def ssqueeze(Wx, w=None, ssq_freqs=None, scales=None, Sfs=None, fs=None, t=None,
     else:
         ssq_scaletype, _ = infer_scaletype(ssq_freqs)
 
+    # find `w` from the original `Wx` if it's to be transformed
+    if w is None and squeezing != 'sum':
+        w = _phase_transform(Wx, dWx, Sfs, gamma)
+
     # transform `Wx` if needed
     if isinstance(squeezing, FunctionType):
         Wx = squeezing(Wx)
     elif squeezing == 'lebesgue':  # from reference [3]
-        Wx = S.ones(Wx.shape, dtype=Wx.dtype) / len(Wx)
+        Wx = S.ones(Wx.shape, dtype=Wx.dtype) / Wx.shape[-2]
     elif squeezing == 'abs':
         Wx = Q.abs(Wx)
 
@@ -225,6 +230,18 @@ def ssqueeze(Wx, w=None, ssq_freqs=None, scales=None, Sfs=None, fs=None, t=None,
 
 
 #### `ssqueeze` utils ########################################################
+def _phase_transform(Wx, dWx, Sfs, gamma):
+    if Wx.ndim == 3:
+        w = [_phase_transform(_Wx, _dWx, Sfs, gamma)
+             for _Wx, _dWx in zip(Wx, dWx)]
+        return Q.stack(w)
+    elif S.is_tensor(Wx):
+        return (phase_cwt_gpu(Wx, dWx, gamma) if Sfs is None else
+                phase_stft_gpu(Wx, dWx, Sfs, gamma))
+    return (phase_cwt_cpu(Wx, dWx, gamma) if Sfs is None else
+            phase_stft_cpu(Wx, dWx, Sfs, gamma))
+
+
 def _ssq_freqrange(maprange, dt, N, wavelet, scales, was_padded):
     if isinstance(maprange, tuple):
         fm, fM = maprange
-- 
2.43.0


From 0ea35d03c16b5cf8cc2937e1478b0159d683508b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:38 +0000
Subject: [PATCH 14/87] fix: Tx has one row per ssq_freqs when len(ssq_freqs)
 differs from len(scales)

---
 ssqueezepy/ssqueezing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ssqueezepy/ssqueezing.py b/ssqueezepy/ssqueezing.py
index 13274fe..c9407bc 100644
--- a/ssqueezepy/ssqueezing.py
+++ b/ssqueezepy/ssqueezing.py
@@ -207,7 +207,9 @@ def ssqueeze(Wx, w=None, ssq_freqs=None, scales=None, Sfs=None, fs=None, t=None,
         Wx = Q.abs(Wx)
 
     # synchrosqueeze
-    Tx = S.zeros(Wx.shape, dtype=Wx.dtype)
+    Tx_shape = (Wx.shape if S.is_tensor(Wx) else
+                (*Wx.shape[:-2], len(ssq_freqs), Wx.shape[-1]))
+    Tx = S.zeros(Tx_shape, dtype=Wx.dtype)
     args = (nv, ssq_freqs, scales, transform, ssq_scaletype,
             cwt_scaletype, flipud, gamma, Sfs)
     if Wx.ndim == 2:
-- 
2.43.0


From 75bbb562dc1aab6e4f9d033d65039d3eba417b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:38 +0000
Subject: [PATCH 15/87] fix: issq_stft inverts ssq_stft for any fs; Tx no
 longer scales with fs

---
 ssqueezepy/_ssq_stft.py  | 4 ++--
 ssqueezepy/ssqueezing.py | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/ssqueezepy/_ssq_stft.py b/ssqueezepy/_ssq_stft.py
index 05b6fc9..5b37222 100644
--- a/ssqueezepy/_ssq_stft.py
+++ b/ssqueezepy/_ssq_stft.py
@@ -118,8 +118,8 @@ def ssq_stft(x, window=None, n_fft=None, win_len=None, hop_len=1, fs=None, t=Non
     if ssq_freqs is None:
         ssq_freqs = Sfs
     Tx, ssq_freqs = ssqueeze(_Sx, w, squeezing=squeezing, ssq_freqs=ssq_freqs,
-                             Sfs=Sfs, flipud=flipud, gamma=gamma, dWx=_dSx,
-                             maprange='maximal', transform='stft')
+                             Sfs=Sfs, fs=fs, flipud=flipud, gamma=gamma,
+                             dWx=_dSx, maprange='maximal', transform='stft')
     # return
     if not astensor and S.is_tensor(Tx):
         Tx, Sx, ssq_freqs, Sfs, w, dSx = [
diff --git a/ssqueezepy/ssqueezing.py b/ssqueezepy/ssqueezing.py
index c9407bc..2b04225 100644
--- a/ssqueezepy/ssqueezing.py
+++ b/ssqueezepy/ssqueezing.py
@@ -132,7 +132,8 @@ def ssqueeze(Wx, w=None, ssq_freqs=None, scales=None, Sfs=None, fs=None, t=None,
                 # omit /dw since it's cancelled by *dw in inversion anyway
                 const = ((scales[1] - scales[0]) / scales).squeeze()
         elif transform == 'stft':
-            const = (ssq_freqs[1] - ssq_freqs[0])  # 'alpha' from [3]
+            # 'alpha' from [3], as fraction of sampling rate
+            const = (ssq_freqs[1] - ssq_freqs[0]) * dt
 
         ssq_logscale = ssq_scaletype.startswith('log')
         # do squeezing by finding which frequency bin each phase transform point
-- 
2.43.0


From 37332b8f962ef3cd0a5f8ee65c883aa0facf4844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:44 +0000
Subject: [PATCH 16/87] fix: cwt(order>0) with batched input, l1_norm=False and
 nan_checks

---
 ssqueezepy/_cwt.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ssqueezepy/_cwt.py b/ssqueezepy/_cwt.py
index e23484c..7eae5a4 100644
--- a/ssqueezepy/_cwt.py
+++ b/ssqueezepy/_cwt.py
@@ -239,7 +239,7 @@ def cwt(x, wavelet='gmw', scales='log-piecewise', fs=None, t=None, nv=32,
         kw = dict(wavelet=wavelet, scales=scales, fs=fs, t=t, nv=nv,
                   l1_norm=l1_norm, derivative=derivative, padtype=padtype,
                   rpadded=rpadded, vectorized=vectorized, patience=patience,
-                  cache_wavelet=cache_wavelet)
+                  cache_wavelet=cache_wavelet, nan_checks=nan_checks)
         return cwt_higher_order(x, order=order, average=average,
                                 astensor=astensor, **kw)
 
@@ -564,6 +564,7 @@ def cwt_higher_order(x, wavelet='gmw', order=1, average=None, astensor=True,
         OlhedeWaldenGenMorse.pdf
     """
     def _process_wavelet(wavelet, order):
+        wavelet = _process_gmw_wavelet(wavelet, kw.get('l1_norm', True))
         wavelet = Wavelet._init_if_not_isinstance(wavelet)
         if not wavelet.name.lower().startswith('gmw'):
             raise ValueError("`wavelet` must be GMW for higher-order transforms "
@@ -588,7 +589,7 @@ def cwt_higher_order(x, wavelet='gmw', order=1, average=None, astensor=True,
         scales = kw.get('scales', 'log-piecewise')
         if isinstance(scales, str):
             wav = Wavelet(('gmw', dict(order=0, **wavopts)))
-            scales = process_scales(scales, len(x), wavelet=wav,
+            scales = process_scales(scales, x.shape[-1], wavelet=wav,
                                     nv=kw.get('nv', 32))
             scales = S.asarray(scales, wav.dtype)
         kw['scales'] = scales
-- 
2.43.0


From 12c4f81c415d4cc8644db721901d314377094881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:44 +0000
Subject: [PATCH 17/87] fix: ssq_cwt unpadding with order>0 and
 difftype='numeric'; difftype='phase' accounts for fs

---
 ssqueezepy/_ssq_cwt.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/ssqueezepy/_ssq_cwt.py b/ssqueezepy/_ssq_cwt.py
index 43cb021..0550d07 100644
--- a/ssqueezepy/_ssq_cwt.py
+++ b/ssqueezepy/_ssq_cwt.py
@@ -210,19 +210,21 @@ def ssq_cwt(x, wavelet='gmw', scales='log-piecewise', nv=None, fs=None, t=None,
         elif difftype == 'phase':
             # !!! bad; yields negatives, and forcing abs(w) doesn't help
             # calculate inst. freq. from unwrapped phase of CWT
-            w = phase_cwt(Wx, None, difftype, gamma)
+            w = phase_cwt(Wx, None, difftype, gamma) * fs
         elif difftype == 'numeric':
             # !!! tested to be very inaccurate for small scales
             # calculate derivative numerically
-            _, n1, _ = p2up(N)
-            Wx = Wx[:, (n1 - 4):(n1 + N + 4)]
-            w = phase_cwt_num(Wx, dt, difforder, gamma)
+            m = min(4, n1, n2)
+            w = phase_cwt_num(Wx[:, (n1 - m):(n1 + N + m)], dt, difforder, gamma)
+            w, Wx = w[:, m:m + N], Wx[:, n1:n1 + N]
         return Wx, w
 
     N, dt, fs, difforder, nv = _process_args(x, scales, fs, t, nv, difftype,
                                              difforder, squeezing, maprange,
                                              wavelet, get_w)
     wavelet = Wavelet._init_if_not_isinstance(wavelet, N=N)
+    # left & right pad lengths
+    n1, n2 = p2up(N)[1:] if padtype is not None else (0, 0)
 
     # CWT with higher-order GMWs
     if isinstance(order, (tuple, list, range)) or order > 0:
@@ -231,12 +233,12 @@ def ssq_cwt(x, wavelet='gmw', scales='log-piecewise', nv=None, fs=None, t=None,
                   l1_norm=True, derivative=False, padtype=padtype, rpadded=True,
                   vectorized=vectorized, astensor=True,
                   cache_wavelet=cache_wavelet, nan_checks=nan_checks)
-        _, n1, _ = p2up(N)
         average = isinstance(order, (tuple, list, range))
 
         Wx, scales = cwt(x, order=order, average=average, **kw)
         dWx = trigdiff(Wx, fs, rpadded=True, N=N, n1=n1)
-        Wx = Wx[:, n1:n1 + N]
+        if difftype != 'numeric':
+            Wx = Wx[..., n1:n1 + N]
         if S.is_tensor(Wx):
             Wx = Wx.contiguous()
 
@@ -290,9 +292,9 @@ def ssq_cwt(x, wavelet='gmw', scales='log-piecewise', nv=None, fs=None, t=None,
 
     # postprocessing & return
     if difftype == 'numeric':
-        Wx = Wx[:, 4:-4]
-        Tx = Tx[:, 4:-4]
-        w  = w[:,  4:-4] if w is not None else None
+        Wx = Wx[:, n1:n1 + N]
+        if dWx is not None and order == 0:
+            dWx = dWx[:, n1:n1 + N]
 
     if not astensor and S.is_tensor(Tx):
         Tx, Wx, w, dWx, scales, ssq_freqs = [
-- 
2.43.0


From 5b0dbee8894664cda9a0d9fbdffd559fcf7e6b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:28 +0000
Subject: [PATCH 18/87] fix: stft(modulated=False)'s derivative accounts for fs

---
 ssqueezepy/_stft.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ssqueezepy/_stft.py b/ssqueezepy/_stft.py
index 63728a0..b88e1e9 100644
--- a/ssqueezepy/_stft.py
+++ b/ssqueezepy/_stft.py
@@ -129,10 +129,12 @@ def stft(x, window=None, n_fft=None, win_len=None, hop_len=1, fs=None, t=None,
         if derivative:
             dSx = buffer(xp, n_fft, n_fft - hop_len, modulated)
 
+        if derivative:
+            diff_window = diff_window * fs
         if modulated:
             window = ifftshift(window, astensor=True)
             if derivative:
-                diff_window = ifftshift(diff_window, astensor=True) * fs
+                diff_window = ifftshift(diff_window, astensor=True)
 
         reshape = (-1, 1) if xp.ndim == 1 else (1, -1, 1)
         Sx *= window.reshape(*reshape)
-- 
2.43.0


From d1262100fec20ff25a0bc1b4eeb410a9f2d26355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:28 +0000
Subject: [PATCH 19/87] fix: istft returned empty output for n_fft of 1 and 2

---
 ssqueezepy/_stft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssqueezepy/_stft.py b/ssqueezepy/_stft.py
index b88e1e9..439338e 100644
--- a/ssqueezepy/_stft.py
+++ b/ssqueezepy/_stft.py
@@ -253,7 +253,7 @@ def istft(Sx, window=None, n_fft=None, win_len=None, hop_len=1, N=None,
         x /= wn
 
     # unpad
-    x = x[n_fft//2 : -((n_fft - 1)//2)]
+    x = x[n_fft//2 : n_fft//2 + N]
 
     return x
 
-- 
2.43.0


From 8f7ec1a4e22ebf648e2263b9a992c2dd390e85d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:28 +0000
Subject: [PATCH 20/87] fix: istft & issq_stft infer win_len from array window,
 like stft

---
 ssqueezepy/_ssq_stft.py | 3 ++-
 ssqueezepy/_stft.py     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/ssqueezepy/_ssq_stft.py b/ssqueezepy/_ssq_stft.py
index 5b37222..be2ad3d 100644
--- a/ssqueezepy/_ssq_stft.py
+++ b/ssqueezepy/_ssq_stft.py
@@ -176,7 +176,8 @@ def issq_stft(Tx, window=None, cc=None, cw=None, n_fft=None, win_len=None,
         cc, cw, full_inverse = _process_component_inversion_args(cc, cw)
 
         n_fft = n_fft or (Tx.shape[0] - 1) * 2
-        win_len = win_len or n_fft
+        win_len = win_len or (len(window) if isinstance(window, np.ndarray) else
+                              n_fft)
 
         window = get_window(window, win_len, n_fft=n_fft)
         _check_NOLA(window, hop_len)
diff --git a/ssqueezepy/_stft.py b/ssqueezepy/_stft.py
index 439338e..774d8a7 100644
--- a/ssqueezepy/_stft.py
+++ b/ssqueezepy/_stft.py
@@ -229,7 +229,8 @@ def istft(Sx, window=None, n_fft=None, win_len=None, hop_len=1, N=None,
     """
     ### process args #####################################
     n_fft = n_fft or (Sx.shape[0] - 1) * 2
-    win_len = win_len or n_fft
+    win_len = win_len or (len(window) if isinstance(window, np.ndarray) else
+                          n_fft)
     N = N or hop_len * Sx.shape[1]  # assume largest possible N if not given
     dtype = 'float32' if str(Sx.dtype) == 'complex64' else 'float64'
 
-- 
2.43.0


From 0d6d8de8af5c04971142468c781a36172b4efaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:28 +0000
Subject: [PATCH 21/87] fix: passing t no longer changes precision of
 ssq_cwt(order>0)'s dWx

---
 ssqueezepy/utils/cwt_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ssqueezepy/utils/cwt_utils.py b/ssqueezepy/utils/cwt_utils.py
index d005c0d..ff9dc0e 100644
--- a/ssqueezepy/utils/cwt_utils.py
+++ b/ssqueezepy/utils/cwt_utils.py
@@ -714,6 +714,7 @@ def _process_fs_and_t(fs, t, N):
             fs = 1
         elif fs <= 0:
             raise ValueError("`fs` must be > 0")
+    fs = float(fs)  # else a float64 scalar would promote float32 arrays
     dt = 1 / fs
     return dt, fs, t
 
-- 
2.43.0


From 5f985a6c7f3a1d06a337aa6143488447be2d2231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:28 +0000
Subject: [PATCH 22/87] fix: non-uniform t with small time steps is rejected

---
 ssqueezepy/utils/cwt_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ssqueezepy/utils/cwt_utils.py b/ssqueezepy/utils/cwt_utils.py
index ff9dc0e..eb8fe36 100644
--- a/ssqueezepy/utils/cwt_utils.py
+++ b/ssqueezepy/utils/cwt_utils.py
@@ -706,7 +706,9 @@ def _process_fs_and_t(fs, t, N):
             # not explicitly used anywhere but ensures wrong `t` wasn't supplied
             raise Exception("`t` must be of same length as `x` "
                             "(%s != %s)" % (len(t), N))
-        elif not np.mean(np.abs(np.diff(t, 2, axis=0))) < 1e-7:  # float32 thr.
+        elif not (np.mean(np.abs(np.diff(t, 2, axis=0))) <
+                  # float32 thr.; also relative to step size, in case it's small
+                  min(1e-7, 1e-2 * np.mean(np.abs(np.diff(t, axis=0))))):
             raise Exception("Time vector `t` must be uniformly sampled.")
         fs = 1 / (t[1] - t[0])
     else:
-- 
2.43.0


From 2bc80c7c9dde466746a1656069e1f6c01b379269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:28 +0000
Subject: [PATCH 23/87] fix: find_closest_parallel_is_faster returned the
 opposite

---
 ssqueezepy/utils/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssqueezepy/utils/common.py b/ssqueezepy/utils/common.py
index ea68fe6..d3015df 100644
--- a/ssqueezepy/utils/common.py
+++ b/ssqueezepy/utils/common.py
@@ -291,7 +291,7 @@ def find_closest_parallel_is_faster(shape, dtype='float32', trials=7, verbose=1)
     if verbose:
         print("Parallel avg.:     {} sec\nNon-parallel avg.: {} sec".format(
             t1 / trials, t0 / trials))
-    return t1 > t0
+    return t1 < t0
 
 
 def mad(data, axis=None):
-- 
2.43.0


From 342d597ba0309acf92b7ae7659aea1d523c27c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:28 +0000
Subject: [PATCH 24/87] fix: trigdiff with padding returns output of input's
 length by default

---
 ssqueezepy/utils/common.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ssqueezepy/utils/common.py b/ssqueezepy/utils/common.py
index d3015df..178d0a9 100644
--- a/ssqueezepy/utils/common.py
+++ b/ssqueezepy/utils/common.py
@@ -212,6 +212,7 @@ def trigdiff(A, fs=1., padtype=None, rpadded=None, N=None, n1=None, window=None,
     rpadded, padtype = _process_args(A, rpadded, padtype, N, transform, window)
 
     if padtype is not None:
+        N = N or A.shape[-1]
         A, _, n1, *_ = padsignal(A, padtype, get_params=True)
 
     if transform == 'cwt':
-- 
2.43.0


From 6ccaa56f8401aa9f2f809ffcb35a515412c77c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:28 +0000
Subject: [PATCH 25/87] fix: padsignal('symmetric') with no left padding or
 padding longer than input

---
 ssqueezepy/utils/common.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/ssqueezepy/utils/common.py b/ssqueezepy/utils/common.py
index 178d0a9..61a421a 100644
--- a/ssqueezepy/utils/common.py
+++ b/ssqueezepy/utils/common.py
@@ -143,10 +143,7 @@ def padsignal(x, padtype='reflect', padlength=None, get_params=False):
             xp = np.pad(x, pad_width, mode='wrap')
         elif padtype == 'symmetric':
             # [1,2,3,4] -> [4,3,2,1, 1,2,3,4, 4,3,2]
-            if x.ndim == 1:
-                xp = np.hstack([x[::-1][-n1:], x, x[::-1][:n2]])
-            elif x.ndim == 2:
-                xp = np.hstack([x[:, ::-1][:, -n1:], x, x[:, ::-1][:, :n2]])
+            xp = np.pad(x, pad_width, mode='symmetric')
     else:
         import torch
         mode = 'constant' if padtype == 'zero' else 'reflect'
-- 
2.43.0


From 9c41edfc8e7b24a4cbd211b3f08291ab7e927756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:57 +0000
Subject: [PATCH 26/87] fix: cached FFT objects are keyed by direction and
 patience (ifft returned fft)

---
 ssqueezepy/utils/fft_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ssqueezepy/utils/fft_utils.py b/ssqueezepy/utils/fft_utils.py
index 7ae6656..284b440 100644
--- a/ssqueezepy/utils/fft_utils.py
+++ b/ssqueezepy/utils/fft_utils.py
@@ -237,7 +237,9 @@ class FFT():
 
     def get_fft_object(self, x, axis, patience=1, real=False, inverse=False,
                        n=None):
-        combo = (x.shape, x.dtype, axis, real, n)
+        if not isinstance(patience, tuple):
+            patience = (patience, self.planning_timelimit)
+        combo = (x.shape, x.dtype, axis, real, inverse, n, patience)
         if self.cache_fft_objects and combo in self._input_history:
             fft_object = self._input_history[combo]
         else:
-- 
2.43.0


From c03b6384f697303314e231bd2dbaf98397e504de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:57 +0000
Subject: [PATCH 27/87] fix: outputs of cached FFT objects are no longer
 overwritten by later calls

---
 ssqueezepy/utils/fft_utils.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/ssqueezepy/utils/fft_utils.py b/ssqueezepy/utils/fft_utils.py
index 284b440..2f42365 100644
--- a/ssqueezepy/utils/fft_utils.py
+++ b/ssqueezepy/utils/fft_utils.py
@@ -164,7 +164,7 @@ class FFT():
             return sfft(x, axis=axis, workers=self.threads)
 
         fft_object = self._get_save_fill(x, axis, patience, real=False)
-        return fft_object()
+        return self._execute(fft_object)
 
     def rfft(self, x, axis=-1, patience=None, astensor=False):
         """See `help(ssqueezepy.utils.FFT)`."""
@@ -177,7 +177,7 @@ class FFT():
             return srfft(x, axis=axis, workers=self.threads)
 
         fft_object = self._get_save_fill(x, axis, patience, real=True)
-        return fft_object()
+        return self._execute(fft_object)
 
     def ifft(self, x, axis=-1, patience=None, astensor=False):
         """See `help(ssqueezepy.utils.FFT)`."""
@@ -191,7 +191,7 @@ class FFT():
 
         fft_object = self._get_save_fill(x, axis, patience, real=False,
                                          inverse=True)
-        return fft_object()
+        return self._execute(fft_object)
 
     def irfft(self, x, axis=-1, patience=None, astensor=False, n=None):
         """See `help(ssqueezepy.utils.FFT)`."""
@@ -205,7 +205,7 @@ class FFT():
 
         fft_object = self._get_save_fill(x, axis, patience, real=True,
                                          inverse=True, n=n)
-        return fft_object()
+        return self._execute(fft_object)
 
     def fftshift(self, x, axes=-1, astensor=False):
         out = self._maybe_gpu('fftshift', x, dim=axes, astensor=astensor)
@@ -235,6 +235,11 @@ class FFT():
         fft_object.input_array[:] = x
         return fft_object
 
+    def _execute(self, fft_object):
+        out = fft_object()
+        # cached object's output array is overwritten upon its next use
+        return out.copy() if self.cache_fft_objects else out
+
     def get_fft_object(self, x, axis, patience=1, real=False, inverse=False,
                        n=None):
         if not isinstance(patience, tuple):
-- 
2.43.0


From 53984bcd57a188970f920a213a42321e9a747779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:57 +0000
Subject: [PATCH 28/87] fix: Wavelet.__call__ dropped imaginary parts that sum
 to zero or less

---
 ssqueezepy/wavelets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssqueezepy/wavelets.py b/ssqueezepy/wavelets.py
index dcf8747..753dba1 100644
--- a/ssqueezepy/wavelets.py
+++ b/ssqueezepy/wavelets.py
@@ -79,7 +79,7 @@ class Wavelet():
             psih = self._halve_nyquist(psih)
         if (S.is_dtype(psih, ('complex64', 'complex128')) and
                 (imag_th is not None) and
-                (psih.imag.sum() / psih.real.sum() < imag_th)):
+                (abs(psih.imag).sum() < imag_th * abs(psih.real).sum())):
             psih = psih.real
         return psih
 
-- 
2.43.0


From 6ea491a1c8f2b16e849806149760c1319bf06b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:18 +0000
Subject: [PATCH 29/87] fix: calling a GMW wavelet no longer zeroes negatives
 in the caller's array

---
 ssqueezepy/_gmw.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/ssqueezepy/_gmw.py b/ssqueezepy/_gmw.py
index 6997d77..5533864 100644
--- a/ssqueezepy/_gmw.py
+++ b/ssqueezepy/_gmw.py
@@ -205,7 +205,7 @@ def _gmw_l1(w, gamma, beta, wc, wcl):
     # NOTE: numba.jit, unlike numpy & torch, will promote to float64 with
     # array float32 and scalar float64
     w_nonneg = (w >= 0)
-    w *= w_nonneg  # zero negative `w` to avoid nans
+    w = w * w_nonneg  # zero negative `w` to avoid nans
     return 2 * np.exp(- beta * wcl + wc**gamma
                       + beta * np.log(w) - w**gamma) * w_nonneg
 
@@ -214,13 +214,13 @@ def _gmw_l1_par(w, gamma, beta, wc, wcl):
     # NOTE: numba.jit, unlike numpy & torch, will promote to float64 with
     # array float32 and scalar float64
     w_nonneg = (w >= 0)
-    w *= w_nonneg  # zero negative `w` to avoid nans
+    w = w * w_nonneg  # zero negative `w` to avoid nans
     return 2 * np.exp(- beta * wcl + wc**gamma
                       + beta * np.log(w) - w**gamma) * w_nonneg
 
 def _gmw_l1_gpu(w, gamma, beta, wc, wcl):
     w_nonneg = (w >= 0)
-    w *= w_nonneg
+    w = w * w_nonneg
     return 2 * torch.exp(- beta * wcl + wc**gamma
                          + beta * torch.log(w) - w**gamma) * w_nonneg
 
@@ -246,20 +246,20 @@ def gmw_l2(gamma=3., beta=60., centered_scale=False, dtype='float64'):
 @jit(nopython=True, cache=True)
 def _gmw_l2(w, gamma, beta, wc, r, rgamma):
     w_nonneg = (w >= 0)
-    w *= w_nonneg  # zero negative `w` to avoid nans
+    w = w * w_nonneg  # zero negative `w` to avoid nans
     return np.sqrt(2.*pi * gamma * 2.**r / rgamma
                    ) * w**beta * np.exp(-w**gamma) * w_nonneg
 
 @jit(nopython=True, cache=True, parallel=True)
 def _gmw_l2_par(w, gamma, beta, wc, r, rgamma):
     w_nonneg = (w >= 0)
-    w *= w_nonneg  # zero negative `w` to avoid nans
+    w = w * w_nonneg  # zero negative `w` to avoid nans
     return np.sqrt(2.*pi * gamma * 2.**r / rgamma
                    ) * w**beta * np.exp(-w**gamma) * w_nonneg
 
 def _gmw_l2_gpu(w, gamma, beta, wc, r, rgamma):
     w_nonneg = (w >= 0)
-    w *= w_nonneg  # zero negative `w` to avoid nans
+    w = w * w_nonneg  # zero negative `w` to avoid nans
     return torch.sqrt(2.*pi * gamma * 2.**r / rgamma
                       ) * w**beta * torch.exp(-w**gamma) * w_nonneg
 
@@ -285,7 +285,7 @@ def gmw_l1_k(gamma=3., beta=60., k=1, centered_scale=False, dtype='float64'):
 @jit(nopython=True, cache=True)
 def _gmw_l1_k(w, gamma, beta, wc, k_consts):
     w_nonneg = (w >= 0)
-    w *= w_nonneg  # zero negative `w` to avoid nans
+    w = w * w_nonneg  # zero negative `w` to avoid nans
 
     C = np.zeros(w.shape, dtype=w.dtype)
     for m in range(len(k_consts)):
@@ -296,7 +296,7 @@ def _gmw_l1_k(w, gamma, beta, wc, k_consts):
 @jit(nopython=True, cache=True, parallel=True)
 def _gmw_l1_k_par(w, gamma, beta, wc, k_consts):
     w_nonneg = (w >= 0)
-    w *= w_nonneg  # zero negative `w` to avoid nans
+    w = w * w_nonneg  # zero negative `w` to avoid nans
 
     C = np.zeros(w.shape, dtype=w.dtype)
     for m in range(len(k_consts)):
@@ -306,7 +306,7 @@ def _gmw_l1_k_par(w, gamma, beta, wc, k_consts):
 
 def _gmw_l1_k_gpu(w, gamma, beta, wc, k_consts):
     w_nonneg = (w >= 0)
-    w *= w_nonneg  # zero negative `w` to avoid nans
+    w = w * w_nonneg  # zero negative `w` to avoid nans
 
     C = w.new_zeros(w.shape)
     for m in range(len(k_consts)):
@@ -336,7 +336,7 @@ def gmw_l2_k(gamma=3., beta=60., k=1, centered_scale=False, dtype='float64'):
 @jit(nopython=True, cache=True)
 def _gmw_l2_k(w, gamma, beta, wc, k_consts):
     w_nonneg = (w >= 0)
-    w *= w_nonneg  # zero negative `w` to avoid nans
+    w = w * w_nonneg  # zero negative `w` to avoid nans
 
     C = np.zeros(w.shape, dtype=w.dtype)
     for m in range(len(k_consts)):
@@ -346,7 +346,7 @@ def _gmw_l2_k(w, gamma, beta, wc, k_consts):
 @jit(nopython=True, cache=True, parallel=True)
 def _gmw_l2_k_par(w, gamma, beta, wc, k_consts):
     w_nonneg = (w >= 0)
-    w *= w_nonneg  # zero negative `w` to avoid nans
+    w = w * w_nonneg  # zero negative `w` to avoid nans
 
     C = np.zeros(w.shape, dtype=w.dtype)
     for m in range(len(k_consts)):
@@ -355,7 +355,7 @@ def _gmw_l2_k_par(w, gamma, beta, wc, k_consts):
 
 def _gmw_l2_k_gpu(w, gamma, beta, wc, k_consts):
     w_nonneg = (w >= 0)
-    w *= w_nonneg  # zero negative `w` to avoid nans
+    w = w * w_nonneg  # zero negative `w` to avoid nans
 
     C = w.new_zeros(w.shape)
     for m in range(len(k_consts)):
-- 
2.43.0


From 9df318a8f5c664e269e4b3ec93b1cb04041b6cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:18 +0000
Subject: [PATCH 30/87] fix: higher-order GMWs no longer yield NaNs at large
 scales

---
 ssqueezepy/_gmw.py | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/ssqueezepy/_gmw.py b/ssqueezepy/_gmw.py
index 5533864..d13beca 100644
--- a/ssqueezepy/_gmw.py
+++ b/ssqueezepy/_gmw.py
@@ -287,32 +287,41 @@ def _gmw_l1_k(w, gamma, beta, wc, k_consts):
     w_nonneg = (w >= 0)
     w = w * w_nonneg  # zero negative `w` to avoid nans
 
+    E = np.exp(- beta * np.log(wc) + wc**gamma
+            + beta * np.log(w)  - w**gamma)
+    w = w * (E > 0)  # avoid overflows in `C` where it's multiplied by zero
+
     C = np.zeros(w.shape, dtype=w.dtype)
     for m in range(len(k_consts)):
         C += k_consts[m] * (2*w**gamma)**m
-    return C * np.exp(- beta * np.log(wc) + wc**gamma
-                      + beta * np.log(w)  - w**gamma) * w_nonneg
+    return C * E * w_nonneg
 
 @jit(nopython=True, cache=True, parallel=True)
 def _gmw_l1_k_par(w, gamma, beta, wc, k_consts):
     w_nonneg = (w >= 0)
     w = w * w_nonneg  # zero negative `w` to avoid nans
 
+    E = np.exp(- beta * np.log(wc) + wc**gamma
+            + beta * np.log(w)  - w**gamma)
+    w = w * (E > 0)  # avoid overflows in `C` where it's multiplied by zero
+
     C = np.zeros(w.shape, dtype=w.dtype)
     for m in range(len(k_consts)):
         C += k_consts[m] * (2*w**gamma)**m
-    return C * np.exp(- beta * np.log(wc) + wc**gamma
-                      + beta * np.log(w)  - w**gamma) * w_nonneg
+    return C * E * w_nonneg
 
 def _gmw_l1_k_gpu(w, gamma, beta, wc, k_consts):
     w_nonneg = (w >= 0)
     w = w * w_nonneg  # zero negative `w` to avoid nans
 
+    E = torch.exp(- beta * torch.log(wc) + wc**gamma
+               + beta * torch.log(w)  - w**gamma)
+    w = w * (E > 0)  # avoid overflows in `C` where it's multiplied by zero
+
     C = w.new_zeros(w.shape)
     for m in range(len(k_consts)):
         C += k_consts[m] * (2*w**gamma)**m
-    return C * torch.exp(- beta * torch.log(wc) + wc**gamma
-                         + beta * torch.log(w)  - w**gamma) * w_nonneg
+    return C * E * w_nonneg
 
 
 def gmw_l2_k(gamma=3., beta=60., k=1, centered_scale=False, dtype='float64'):
@@ -338,29 +347,38 @@ def _gmw_l2_k(w, gamma, beta, wc, k_consts):
     w_nonneg = (w >= 0)
     w = w * w_nonneg  # zero negative `w` to avoid nans
 
+    E = np.exp(beta * np.log(w) - w**gamma)
+    w = w * (E > 0)  # avoid overflows in `C` where it's multiplied by zero
+
     C = np.zeros(w.shape, dtype=w.dtype)
     for m in range(len(k_consts)):
         C += k_consts[m] * (2*w**gamma)**m
-    return C * np.exp(beta * np.log(w) - w**gamma) * w_nonneg
+    return C * E * w_nonneg
 
 @jit(nopython=True, cache=True, parallel=True)
 def _gmw_l2_k_par(w, gamma, beta, wc, k_consts):
     w_nonneg = (w >= 0)
     w = w * w_nonneg  # zero negative `w` to avoid nans
 
+    E = np.exp(beta * np.log(w) - w**gamma)
+    w = w * (E > 0)  # avoid overflows in `C` where it's multiplied by zero
+
     C = np.zeros(w.shape, dtype=w.dtype)
     for m in range(len(k_consts)):
         C += k_consts[m] * (2*w**gamma)**m
-    return C * np.exp(beta * np.log(w) - w**gamma) * w_nonneg
+    return C * E * w_nonneg
 
 def _gmw_l2_k_gpu(w, gamma, beta, wc, k_consts):
     w_nonneg = (w >= 0)
     w = w * w_nonneg  # zero negative `w` to avoid nans
 
+    E = torch.exp(beta * torch.log(w) - w**gamma)
+    w = w * (E > 0)  # avoid overflows in `C` where it's multiplied by zero
+
     C = w.new_zeros(w.shape)
     for m in range(len(k_consts)):
         C += k_consts[m] * (2*w**gamma)**m
-    return C * torch.exp(beta * torch.log(w) - w**gamma) * w_nonneg
+    return C * E * w_nonneg
 
 
 def _gmw_k_constants(gamma, beta, k, norm='bandpass', dtype='float64'):
-- 
2.43.0


From 498ab9ca60659a401a1028ec1f94d3cd1819ca57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:18 +0000
Subject: [PATCH 31/87] fix: L2-normalized GMW no longer yields NaNs at large
 scales or beta

---
 ssqueezepy/_gmw.py | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/ssqueezepy/_gmw.py b/ssqueezepy/_gmw.py
index d13beca..afa4419 100644
--- a/ssqueezepy/_gmw.py
+++ b/ssqueezepy/_gmw.py
@@ -232,36 +232,32 @@ def gmw_l2(gamma=3., beta=60., centered_scale=False, dtype='float64'):
     _check_args(gamma=gamma, beta=beta, allow_zerobeta=False)
     wc = morsefreq(gamma, beta)
     r = (2*beta + 1) / gamma
-    rgamma = gamma_fn(r)
-    (gamma, beta, wc, r, rgamma
-     ) = _process_params_dtype(gamma, beta, wc, r, rgamma, dtype=dtype)
+    # log of normalization constant
+    cl = .5 * (np.log(2*pi * gamma) + r * np.log(2) - gammaln_fn(r))
+    gamma, beta, wc, cl = _process_params_dtype(gamma, beta, wc, cl, dtype=dtype)
 
     fn = _gmw_l2_gpu if USE_GPU() else (_gmw_l2_par if IS_PARALLEL() else _gmw_l2)
     if centered_scale:
-        return lambda w: fn(S.atleast_1d(w * wc, dtype), gamma, beta, wc,
-                            r, rgamma)
+        return lambda w: fn(S.atleast_1d(w * wc, dtype), gamma, beta, cl)
     else:
-        return lambda w: fn(S.atleast_1d(w, dtype), gamma, beta, wc, r, rgamma)
+        return lambda w: fn(S.atleast_1d(w, dtype), gamma, beta, cl)
 
 @jit(nopython=True, cache=True)
-def _gmw_l2(w, gamma, beta, wc, r, rgamma):
+def _gmw_l2(w, gamma, beta, cl):
     w_nonneg = (w >= 0)
     w = w * w_nonneg  # zero negative `w` to avoid nans
-    return np.sqrt(2.*pi * gamma * 2.**r / rgamma
-                   ) * w**beta * np.exp(-w**gamma) * w_nonneg
+    return np.exp(cl + beta * np.log(w) - w**gamma) * w_nonneg
 
 @jit(nopython=True, cache=True, parallel=True)
-def _gmw_l2_par(w, gamma, beta, wc, r, rgamma):
+def _gmw_l2_par(w, gamma, beta, cl):
     w_nonneg = (w >= 0)
     w = w * w_nonneg  # zero negative `w` to avoid nans
-    return np.sqrt(2.*pi * gamma * 2.**r / rgamma
-                   ) * w**beta * np.exp(-w**gamma) * w_nonneg
+    return np.exp(cl + beta * np.log(w) - w**gamma) * w_nonneg
 
-def _gmw_l2_gpu(w, gamma, beta, wc, r, rgamma):
+def _gmw_l2_gpu(w, gamma, beta, cl):
     w_nonneg = (w >= 0)
     w = w * w_nonneg  # zero negative `w` to avoid nans
-    return torch.sqrt(2.*pi * gamma * 2.**r / rgamma
-                      ) * w**beta * torch.exp(-w**gamma) * w_nonneg
+    return torch.exp(cl + beta * torch.log(w) - w**gamma) * w_nonneg
 
 
 def gmw_l1_k(gamma=3., beta=60., k=1, centered_scale=False, dtype='float64'):
-- 
2.43.0


From abd307c9c8dfeab6b3135ed80d635c163a273334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:08 +0000
Subject: [PATCH 32/87] fix: center_frequency honors force_int=False, and
 accepts wavelet's name without scale

---
 ssqueezepy/wavelets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ssqueezepy/wavelets.py b/ssqueezepy/wavelets.py
index 753dba1..f4e978a 100644
--- a/ssqueezepy/wavelets.py
+++ b/ssqueezepy/wavelets.py
@@ -726,6 +726,7 @@ def center_frequency(wavelet, scale=None, N=1024, kind='energy', force_int=None,
         w, psih, apsih2 = _params(wavelet, scale, N)
         return float(wc), (w, psih, apsih2)
 
+    wavelet = Wavelet._init_if_not_isinstance(wavelet)
     if force_int and 'peak' in kind:
         NOTE("`force_int` ignored with 'peak' in `kind`")
     assert_is_one_of(kind, 'kind', ('energy', 'peak', 'peak-ct'))
@@ -738,9 +739,8 @@ def center_frequency(wavelet, scale=None, N=1024, kind='energy', force_int=None,
         wc, _ = find_maximum(wavelet.fn)
         scale = (4/pi) * wc
 
-    wavelet = Wavelet._init_if_not_isinstance(wavelet)
     if kind == 'energy':
-        force_int = force_int or True
+        force_int = True if force_int is None else force_int
         wc, params = _energy_wc(wavelet, scale, N, force_int)
     elif kind == 'peak':
         wc, params = _peak_wc(wavelet, scale, N)
-- 
2.43.0


From f76599d102b79caf27beec4746233a3e3af45944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:08 +0000
Subject: [PATCH 33/87] fix: freq_resolution computes center frequency with its
 own N

---
 ssqueezepy/wavelets.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ssqueezepy/wavelets.py b/ssqueezepy/wavelets.py
index f4e978a..6520890 100644
--- a/ssqueezepy/wavelets.py
+++ b/ssqueezepy/wavelets.py
@@ -794,7 +794,8 @@ def freq_resolution(wavelet, scale=10, N=1024, nondim=True, force_int=True,
 
     w = aifftshift(_xifn(1, N))
     psih = asnumpy(wavelet(scale * w))
-    wce = center_frequency(wavelet, scale, force_int=force_int, kind='energy')
+    wce = center_frequency(wavelet, scale, N, force_int=force_int,
+                           kind='energy')
 
     apsih2 = np.abs(psih)**2
     var_w = (integrate.trapezoid((w - wce)**2 * apsih2, w) /
@@ -805,7 +806,7 @@ def freq_resolution(wavelet, scale=10, N=1024, nondim=True, force_int=True,
         std_w *= (scale / scale_orig)
         scale = scale_orig
     if nondim:
-        wcp = center_frequency(wavelet, scale, kind='peak')
+        wcp = center_frequency(wavelet, scale, N, kind='peak')
         std_w /= wcp
     if viz:
         _viz()
-- 
2.43.0


From 9c82d415297d6646e25d3637932efe7d9623d5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:08 +0000
Subject: [PATCH 34/87] fix: list maprange, accepted by validation, no longer
 fails

---
 ssqueezepy/ssqueezing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ssqueezepy/ssqueezing.py b/ssqueezepy/ssqueezing.py
index 2b04225..1c228ac 100644
--- a/ssqueezepy/ssqueezing.py
+++ b/ssqueezepy/ssqueezing.py
@@ -180,7 +180,7 @@ def ssqueeze(Wx, w=None, ssq_freqs=None, scales=None, Sfs=None, fs=None, t=None,
             # default to same scheme used by `scales`
             ssq_scaletype = cwt_scaletype
 
-        if ((maprange == 'maximal' or isinstance(maprange, tuple)) and
+        if ((maprange == 'maximal' or isinstance(maprange, (tuple, list))) and
                 ssq_scaletype == 'log-piecewise'):
             raise ValueError("can't have `ssq_scaletype = log-piecewise` or "
                              "tuple with `maprange = 'maximal'` "
@@ -246,7 +246,7 @@ def _phase_transform(Wx, dWx, Sfs, gamma):
 
 
 def _ssq_freqrange(maprange, dt, N, wavelet, scales, was_padded):
-    if isinstance(maprange, tuple):
+    if isinstance(maprange, (tuple, list)):
         fm, fM = maprange
     elif maprange == 'maximal':
         dT = dt * N
-- 
2.43.0


From d41b5dee47041ecd6aaddd8c7be3dfebfd61157d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:08 +0000
Subject: [PATCH 35/87] fix: TestSignals honors seed=0 and snr=0

---
 ssqueezepy/_test_signals.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ssqueezepy/_test_signals.py b/ssqueezepy/_test_signals.py
index 4071b77..971c022 100644
--- a/ssqueezepy/_test_signals.py
+++ b/ssqueezepy/_test_signals.py
@@ -141,11 +141,11 @@ class TestSignals():
     def __init__(self, N=None, snr=None, default_args=None, default_tkw=None,
                  warn_alias=True, seed=None):
         self.N = N    or DEFAULT_N
-        self.snr = snr or DEFAULT_SNR
+        self.snr = snr if snr is not None else DEFAULT_SNR
         self.default_args = default_args or DEFAULT_ARGS
         self.default_tkw  = default_tkw  or DEFAULT_TKW
         self.warn_alias   = warn_alias
-        self.seed = seed or DEFAULT_SEED
+        self.seed = seed if seed is not None else DEFAULT_SEED
 
         # set defaults on unspecified
         for k, v in DEFAULT_ARGS.items():
@@ -572,7 +572,7 @@ class TestSignals():
 
             if name[0] == '#':
                 x += x[::-1]
-            if snr:
+            if snr is not None:
                 noise_var = x.var() / 10**(snr/10)
                 if self.seed is not None:
                     np.random.seed(self.seed)
@@ -595,7 +595,7 @@ class TestSignals():
         fparams = self._process_varname_alias(signal, N, fparams)
         snr = fparams.pop('snr', None)
 
-        if snr:
+        if snr is not None:
             snr = "{:.1f}dB".format(snr)
             fparams = dict(N=N, SNR=snr, **fparams)
         else:
-- 
2.43.0


From 5e293b7eaa74a96170c21b7ae08b4c45a9715c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:08 +0000
Subject: [PATCH 36/87] fix: TestSignals no longer writes defaults and snr into
 the caller's dicts

---
 ssqueezepy/_test_signals.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ssqueezepy/_test_signals.py b/ssqueezepy/_test_signals.py
index 971c022..077c7c5 100644
--- a/ssqueezepy/_test_signals.py
+++ b/ssqueezepy/_test_signals.py
@@ -731,6 +731,7 @@ class TestSignals():
                     fparams, aparams = params, {}
             else:
                 name, fparams, aparams = signal, {}, {}
+            fparams, aparams = dict(fparams), dict(aparams)
 
             if name[0] == '#':
                 add_reversed = True
-- 
2.43.0


From 0539f322d21bcf2c0fd00b40bb62f2d64532631d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:36 +0000
Subject: [PATCH 37/87] fix: aifftshift & afftshift of odd length were swapped

---
 ssqueezepy/wavelets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ssqueezepy/wavelets.py b/ssqueezepy/wavelets.py
index 6520890..a6bc1c9 100644
--- a/ssqueezepy/wavelets.py
+++ b/ssqueezepy/wavelets.py
@@ -939,7 +939,7 @@ def afftshift(xh):
     """
     if len(xh) % 2 == 0:
         return _afftshift_even(xh, np.zeros(len(xh), dtype=xh.dtype))
-    return fftshift(xh)
+    return ifftshift(xh)
 
 @jit(nopython=True, cache=True)
 def _afftshift_even(xh, xhs):
@@ -955,7 +955,7 @@ def aifftshift(xh):
     """Inversion also different; moves left N//2+1 bins to right."""
     if len(xh) % 2 == 0:
         return _aifftshift_even(xh, np.zeros(len(xh), dtype=xh.dtype))
-    return ifftshift(xh)
+    return fftshift(xh)
 
 @jit(nopython=True, cache=True)
 def _aifftshift_even(xh, xhs):
-- 
2.43.0


From fcb0e8729793a0d6e19094b621f04a708eb2a9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:07 +0000
Subject: [PATCH 38/87] fix: ssq_cwt rejects invalid frequency ranges rather
 than write out of bounds

---
 ssqueezepy/ssqueezing.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/ssqueezepy/ssqueezing.py b/ssqueezepy/ssqueezing.py
index 1c228ac..c2a6d35 100644
--- a/ssqueezepy/ssqueezing.py
+++ b/ssqueezepy/ssqueezing.py
@@ -195,6 +195,12 @@ def ssqueeze(Wx, w=None, ssq_freqs=None, scales=None, Sfs=None, fs=None, t=None,
     else:
         ssq_scaletype, _ = infer_scaletype(ssq_freqs)
 
+    if isinstance(ssq_freqs, np.ndarray) and (
+            not np.all(np.isfinite(ssq_freqs)) or
+            (ssq_scaletype.startswith('log') and ssq_freqs.min() <= 0)):
+        raise ValueError("`ssq_freqs` must be finite, and positive if "
+                         "log-distributed")
+
     # find `w` from the original `Wx` if it's to be transformed
     if w is None and squeezing != 'sum':
         w = _phase_transform(Wx, dWx, Sfs, gamma)
@@ -267,6 +273,11 @@ def _ssq_freqrange(maprange, dt, N, wavelet, scales, was_padded):
 def _compute_associated_frequencies(scales, N, wavelet, ssq_scaletype, maprange,
                                     was_padded=True, dt=1, transform='cwt'):
     fm, fM = _ssq_freqrange(maprange, dt, N, wavelet, scales, was_padded)
+    is_log = ssq_scaletype.startswith('log')
+    if not (0 <= fm <= fM < np.inf) or (is_log and fm == 0):
+        raise ValueError("`maprange=%s` yields invalid frequency range (%s, %s); "
+                         "`scales` may exceed what `wavelet` can represent at "
+                         "this signal length" % (str(maprange), fm, fM))
 
     na = len(scales)
     # frequency divisions `w_l` to reassign to in Synchrosqueezing
-- 
2.43.0


From e1790077c58dbf3221660e4b6fdc6cfeb3d4ef4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:49 +0000
Subject: [PATCH 39/87] fix: icwt with linear scales accounts for their spacing

---
 ssqueezepy/_cwt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ssqueezepy/_cwt.py b/ssqueezepy/_cwt.py
index 7eae5a4..b197a45 100644
--- a/ssqueezepy/_cwt.py
+++ b/ssqueezepy/_cwt.py
@@ -456,8 +456,8 @@ def icwt(Wx, wavelet='gmw', scales='log-piecewise', nv=None, one_int=True,
             # ln(2**(1/nv)) == ln(2)/nv == diff(ln(scales))[0]
             _x *= (2 / Cpsi) * np.log(2 ** (1 / nv))
         else:
-            # unclear why the `pi/4` here but it improves inversion
-            _x *= (2 / Cpsi) * np.pi / 4
+            # `da / a` in place of `d(ln(a))`; `/ a` is in `norm`
+            _x *= (2 / Cpsi) * (scales[1] - scales[0])
         x = x + _x
 
     if getattr(x_mean, 'ndim', 0) == 1 and Wx.ndim == 3:
-- 
2.43.0


From 9f39df4d3e73201fd1789621f9d58fc8540b9fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:32 +0000
Subject: [PATCH 40/87] fix: float32 stft with hop_len > len(window) warns, as
 with float64, rather than raise

---
 ssqueezepy/_stft.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ssqueezepy/_stft.py b/ssqueezepy/_stft.py
index 774d8a7..7e1ad48 100644
--- a/ssqueezepy/_stft.py
+++ b/ssqueezepy/_stft.py
@@ -318,6 +318,7 @@ def _check_NOLA(window, hop_len, dtype=None, imprecision_strict=False):
     # basic NOLA
     if hop_len > len(window):
         WARN("`hop_len > len(window)`; STFT not invertible")
+        return
     elif not sig.check_NOLA(window, len(window), len(window) - hop_len):
         WARN("`window` fails Non-zero Overlap Add (NOLA) criterion; "
              "STFT not invertible")
-- 
2.43.0


From ac601e0fe24e598fda06275ecd0f84397e034808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:21 +0000
Subject: [PATCH 41/87] fix: scales' distribution is inferred correctly from
 float32 arrays

---
 ssqueezepy/utils/cwt_utils.py |  13 +-
 ssqueezepy/utils/wisdom32     |   2 +-
 ssqueezepy/utils/wisdom64     | 424 +++++++++++++++++-----------------
 3 files changed, 224 insertions(+), 215 deletions(-)

diff --git a/ssqueezepy/utils/cwt_utils.py b/ssqueezepy/utils/cwt_utils.py
index eb8fe36..30707d1 100644
--- a/ssqueezepy/utils/cwt_utils.py
+++ b/ssqueezepy/utils/cwt_utils.py
@@ -275,7 +275,10 @@ def infer_scaletype(scales):
                         "(got %s)" % scales.dtype)
 
     th_log = 4e-15 if scales.dtype == np.float64 else 8e-7
-    th_lin = th_log * 1e3  # less accurate for some reason
+    # float error scales with magnitude
+    th_lin = th_log * np.abs(scales).max()
+    # don't let the computation itself add to float error
+    scales_in, scales = scales, scales.astype('float64')
 
     if np.mean(np.abs(np.diff(np.log(scales), 2, axis=0))) < th_log:
         scaletype = 'log'
@@ -286,14 +289,14 @@ def infer_scaletype(scales):
         scaletype = 'linear'
         nv = None
 
-    elif logscale_transition_idx(scales) is None:
+    elif logscale_transition_idx(scales_in) is None:
         raise ValueError("could not infer `scaletype` from `scales`; "
                          "`scales` array must be linear or exponential. "
                          "(got diff(scales)=%s..." % np.diff(scales, axis=0)[:4])
 
     else:
         scaletype = 'log-piecewise'
-        nv = nv_from_scales(scales)
+        nv = nv_from_scales(scales_in)
 
     return scaletype, nv
 
@@ -376,7 +379,7 @@ def logscale_transition_idx(scales):
     """Returns `idx` that splits `scales` as `[scales[:idx], scales[idx:]]`.
     """
     scales = asnumpy(scales)
-    scales_diff2 = np.abs(np.diff(np.log(scales), 2, axis=0))
+    scales_diff2 = np.abs(np.diff(np.log(scales.astype('float64')), 2, axis=0))
     idx = np.argmax(scales_diff2) + 2
     diff2_max = scales_diff2.max()
     # every other value must be zero, assert it is so
@@ -399,7 +402,7 @@ def nv_from_scales(scales):
     of length `len(scales)` if `scaletype = 'log-piecewise'`.
     """
     scales = asnumpy(scales)
-    logdiffs = 1 / np.diff(np.log2(scales), axis=0)
+    logdiffs = 1 / np.diff(np.log2(scales.astype('float64')), axis=0)
     nv = np.vstack([logdiffs[:1], logdiffs])
 
     idx = logscale_transition_idx(scales)
diff --git a/ssqueezepy/utils/wisdom32 b/ssqueezepy/utils/wisdom32
index 4c5ccff..0597be5 100644
--- a/ssqueezepy/utils/wisdom32
+++ b/ssqueezepy/utils/wisdom32
@@ -1,2 +1,2 @@
-(fftw-3.3.9 fftwf_wisdom #xdf7417c4 #x3c0bd869 #xcf586e59 #x830d895e
+(fftw-3.3.5 fftwf_wisdom #x706526c0 #x2f8b6c85 #x8cd1bb1a #x7c96e03d
 )
diff --git a/ssqueezepy/utils/wisdom64 b/ssqueezepy/utils/wisdom64
index f2bd087..e152355 100644
--- a/ssqueezepy/utils/wisdom64
+++ b/ssqueezepy/utils/wisdom64
@@ -1,234 +1,240 @@
-(fftw-3.3.9 fftw_wisdom #x0c9901ad #x03f5699e #x139b5701 #xc18e5dcf
-  (fftw_rdft2_nop_register 0 #x11048 #x11048 #x0 #xf458c6c8 #xc01cc97e #x8e04614e #xfe5f5f1e)
-  (fftw_codelet_t1buv_5_avx 0 #x11048 #x11048 #x0 #x752e66f9 #x85c116af #x47cadc0b #x101a5d1b)
+(fftw-3.3.5 fftw_wisdom #x3c273403 #x192df114 #x4d08727c #xe98e9b9d
+  (fftw_rdft2_rdft_register 0 #x213e7 #x31bff #x0 #x9328a4b5 #x85319c71 #xb0061e61 #xaca245c0)
+  (TIMEOUT 0 #x1040 #x11048 #x170 #x752e66f9 #x85c116af #x47cadc0b #x101a5d1b)
+  (fftw_rdft_vrank_geq1_register 0 #x11bdd #x11bdd #x0 #x60128f7c #x1ee17b29 #x815cae4f #xce25823a)
   (fftw_codelet_r2cb_64 2 #x31bff #x31bff #x0 #xbfc47a0d #x979fdb20 #x360358fa #x9970eeee)
-  (TIMEOUT 0 #x1040 #x1040 #x170 #x1a8d667c #xed5a2b29 #x486f94c5 #xf3097806)
-  (fftw_codelet_r2cf_2 2 #x11048 #x11048 #x0 #x0c50050a #x4ae3b558 #x7961744d #x9c6119cf)
+  (fftw_codelet_hb_3 0 #x10bdd #x10bdd #x0 #x3ff6ea44 #x94e71b2e #x7c39c788 #x0e1a62bb)
+  (fftw_rdft2_rdft_register 0 #x13c5 #x11bdd #x0 #x3062c27c #x18b0fc95 #x1403f6a0 #x7d9f1aa4)
+  (fftw_codelet_n1fv_16_avx 0 #x31bff #x31bff #x0 #xb8b01f0b #xda802e15 #xbc85070d #xec15ac56)
+  (TIMEOUT 0 #x1040 #x11bdd #x170 #x34ca1e40 #xcb901294 #x4cfd3fe1 #xb0290450)
+  (fftw_rdft2_rdft_register 0 #x1040 #x11048 #x0 #x55780668 #x57465297 #x3a3fafb2 #x398b763f)
+  (fftw_rdft2_rdft_register 0 #x213e7 #x31bff #x0 #x9a583204 #xe864d47c #xaa162cae #xa0e59716)
+  (TIMEOUT 0 #x1040 #x11bdd #x170 #x96d6060b #xcbd30eca #x84727dcb #x218f3088)
+  (fftw_codelet_n1bv_13_sse2 0 #x11bdd #x11bdd #x0 #x9592b8b6 #xf18d0d52 #x95f7eb37 #xc845d163)
+  (fftw_codelet_n1fv_128_avx 0 #x31bff #x31bff #x0 #xcf6601ad #xf464a3e3 #x9db82ec5 #x8fd45dd0)
+  (fftw_rdft_rank0_register 3 #x11bdd #x11bdd #x0 #xa7839948 #x91f1b3d8 #x62a82ae2 #x32077182)
+  (fftw_codelet_r2cb_3 0 #x10048 #x10048 #x0 #x126aa036 #x6d7370b2 #x8b63d249 #xed9a2787)
   (fftw_rdft2_nop_register 0 #x11048 #x11048 #x0 #x1d228f1e #x9a08e472 #x0333e893 #xc37e7a39)
-  (TIMEOUT 0 #x1040 #x11048 #x170 #x34ca1e40 #xcb901294 #x4cfd3fe1 #xb0290450)
-  (fftw_rdft_vrank_geq1_register 0 #x11048 #x11048 #x0 #x02ae2e57 #xf47b95af #x4b0af0e5 #xb91b4f85)
-  (fftw_rdft2_rdft_register 0 #x1040 #x11048 #x0 #x96d6060b #xcbd30eca #x84727dcb #x218f3088)
-  (fftw_rdft2_nop_register 0 #x11048 #x11048 #x0 #x810ed50d #x047fcdab #x987004c0 #x0756301b)
-  (fftw_codelet_r2cf_128 2 #x11bdd #x11bdd #x0 #xaf54131f #x9f3807c3 #x2345d1bd #x6243c1da)
-  (TIMEOUT 0 #x1040 #x1040 #x170 #x96d6060b #xcbd30eca #x84727dcb #x218f3088)
-  (TIMEOUT 0 #x1040 #x1040 #x170 #x9b255c4f #xf449f0a3 #x2e8f6b15 #xd6b469a1)
-  (fftw_rdft2_nop_register 0 #x11048 #x11048 #x0 #x8ce98ea3 #x660b5fec #x96ced90a #x18e99ccf)
-  (fftw_rdft_vrank_geq1_register 1 #x11048 #x11048 #x0 #xc48fff13 #x7bba2ef6 #xdbcd4edb #x8454402b)
-  (fftw_codelet_r2cb_64 2 #x31bff #x31bff #x0 #xc9774fc6 #x1e417793 #x15993cf3 #xee4c6c89)
-  (TIMEOUT 0 #x1040 #x1040 #x170 #x2fd831a4 #xad21ceb9 #x759dc316 #x0556fbe4)
-  (TIMEOUT 0 #x1040 #x1040 #x162 #xbff9e242 #x84f9cb2c #xbeab193e #xb0d7ddd5)
-  (fftw_codelet_r2cbIII_2 2 #x10048 #x10048 #x0 #xc32122e4 #xbca7afa7 #xf13484bd #x21a56512)
+  (TIMEOUT 0 #x1040 #x11048 #x170 #x9bce109d #x9917fa44 #xa521aa07 #x16aacba8)
+  (fftw_rdft_rank0_register 3 #x10bdd #x10bdd #x0 #xdbc8499e #x7490256c #xec866dd4 #x760469ba)
+  (TIMEOUT 0 #x1040 #x11048 #x170 #xb3b9aa19 #x4b1ab5f6 #xbcb1aebb #x69879cc8)
+  (fftw_rdft_nop_register 0 #x11bdd #x11bdd #x0 #x114f3dc2 #xbf1f951b #x42acea82 #x123fd938)
   (TIMEOUT 0 #x1040 #x11048 #x170 #x7225275e #xc0f0f84c #xd8da99ce #xc45e6f32)
-  (TIMEOUT 0 #x1040 #x11048 #x170 #x808a6ab6 #xa8ad41cb #xf4dbc9d6 #xed584a41)
-  (fftw_rdft_vrank_geq1_register 0 #x11048 #x11048 #x0 #x4a6b1e20 #x70e77b0e #xe10a7b56 #x97716fdf)
-  (fftw_rdft_generic_register 1 #x10048 #x10048 #x0 #x6f4163c6 #xde60cb2d #x0538bdd0 #xf6cee3f8)
-  (fftw_rdft_vrank_geq1_register 1 #x11048 #x11048 #x0 #x0832191d #xa71c0048 #xc83e9ad8 #xb309cca1)
-  (fftw_rdft2_rdft_register 0 #x1040 #x11048 #x0 #x430dd3c2 #x8ece6b38 #xa8830175 #x2ee104f7)
-  (fftw_rdft_nop_register 0 #x10048 #x10048 #x0 #x9df1e4bd #x3ded28d9 #xba32f856 #x7e1c1562)
+  (fftw_codelet_t1buv_5_avx 0 #x31bff #x31bff #x0 #xc3c7515a #x362b0c03 #x742abb77 #x6e7891c3)
+  (fftw_rdft_vrank_geq1_register 0 #x11bdd #x11bdd #x0 #x4a6b1e20 #x70e77b0e #xe10a7b56 #x97716fdf)
+  (fftw_rdft_generic_register 0 #x31bff #x31bff #x0 #xe79c6f2f #x1c0be16a #x91d3035e #x0d047b03)
+  (fftw_rdft_generic_register 1 #x30bff #x30bff #x0 #x7e71deb7 #x1e0bbbdd #xa89bb565 #xa6496deb)
+  (fftw_dft_generic_register 0 #x31bff #x31bff #x0 #xe391cdee #xa2d2b59f #xe605b384 #xf7b5d9d6)
+  (fftw_codelet_n1fv_128_avx 0 #x11bdd #x11bdd #x0 #x1060d12e #x569cae13 #x74c3d6e6 #x4ff09f25)
+  (TIMEOUT 0 #x1040 #x11bdd #x162 #x4d96b693 #x614ac541 #x73430d68 #x8eee18f0)
+  (fftw_rdft_thr_vrank_geq1_register 0 #x31bff #x31bff #x0 #xbd8e675e #xcd35b470 #x18dfcc65 #x462620a7)
   (fftw_dft_vrank_geq1_register 0 #x11bdd #x11bdd #x0 #xbffc2059 #x4b60ca07 #xfb822258 #x80f954ad)
-  (fftw_codelet_hb_3 0 #x10048 #x10048 #x0 #xe2921a1b #xb502cce2 #x854566f5 #xf5c01ffb)
-  (fftw_codelet_t1fuv_3_avx 0 #x31bff #x31bff #x0 #x8049c984 #xcdf7b9af #x9acf27b7 #x124292c5)
+  (fftw_codelet_r2cb_13 0 #x30bff #x30bff #x0 #x1fb05262 #xab6efd01 #xf164e5a8 #xca8254b0)
+  (fftw_rdft2_rdft_register 0 #x213e7 #x31bff #x0 #x93ded013 #x9e171227 #xdc884731 #xcee153ce)
+  (fftw_rdft_generic_register 0 #x11fdd #x11fdd #x0 #x4168d56d #x6e0fe968 #xcf2d6354 #xb1474399)
   (fftw_codelet_r2cf_3 0 #x11048 #x11048 #x0 #x44a4199b #xd63ac6e4 #x37a1b53e #xa5ae8352)
-  (TIMEOUT 0 #x1040 #x1040 #x170 #x52fa67b2 #xcf968398 #xd2aa4be0 #xcdef714f)
-  (fftw_codelet_r2cf_13 0 #x11048 #x11048 #x0 #x4003b1a6 #x4b4c2289 #xafb0a4c7 #x40cc99cb)
+  (TIMEOUT 0 #x1040 #x11048 #x170 #x68128896 #x869567a6 #x7a73b945 #xa0a42e3a)
   (fftw_dft_thr_vrank_geq1_register 0 #x31bff #x31bff #x0 #x1b5118bd #x05b9ad1e #x8031cedc #x80c3cba3)
   (fftw_codelet_n1fv_64_avx 0 #x11bdd #x11bdd #x0 #xb7c4d232 #x87a37f5b #xdedc5bf5 #x9157d813)
-  (fftw_codelet_r2cb_3 0 #x10048 #x10048 #x0 #x126aa036 #x6d7370b2 #x8b63d249 #xed9a2787)
-  (fftw_codelet_hc2cbdftv_2_avx 0 #x10048 #x10048 #x0 #xbff9e242 #x84f9cb2c #xbeab193e #xb0d7ddd5)
-  (fftw_rdft_nop_register 0 #x11048 #x11048 #x0 #x020df6b3 #x02731c8c #xd41fecb2 #x3ae7bba9)
-  (fftw_codelet_t1buv_5_avx 0 #x11048 #x11048 #x0 #x4d96b693 #x614ac541 #x73430d68 #x8eee18f0)
-  (fftw_rdft2_vrank_geq1_register 0 #x1040 #x11048 #x0 #xdd2da5e9 #xc950d673 #x6408c4d4 #xb001803c)
-  (fftw_rdft_nop_register 0 #x11048 #x11048 #x0 #x9df1e4bd #x3ded28d9 #xba32f856 #x7e1c1562)
-  (fftw_dft_vrank_geq1_register 0 #x31bff #x31bff #x0 #xbffc2059 #x4b60ca07 #xfb822258 #x80f954ad)
-  (fftw_dft_vrank_geq1_register 1 #x11048 #x11048 #x0 #xaa062cb5 #xa712ac61 #xa4680f22 #x1f135269)
-  (fftw_codelet_r2cf_4 2 #x11048 #x11048 #x0 #x85273bbe #x32b9b70e #x51eb04d1 #xac70ca3b)
-  (fftw_codelet_hc2cfdftv_4_avx 0 #x11048 #x11048 #x0 #x1a8d667c #xed5a2b29 #x486f94c5 #xf3097806)
-  (fftw_rdft2_nop_register 0 #x11048 #x11048 #x0 #x4d29ebbc #x4dfe831d #x34d9b226 #xb20cc423)
-  (TIMEOUT 0 #x1040 #x1040 #x170 #xd557e28c #xce72b99d #x388b71f3 #x4b91eabd)
-  (fftw_codelet_r2cf_128 2 #x31bff #x31bff #x0 #xaf54131f #x9f3807c3 #x2345d1bd #x6243c1da)
-  (fftw_codelet_r2cf_128 2 #x31bff #x31bff #x0 #xdab31c9f #x9172c372 #xa9c7d231 #x86ec8788)
-  (fftw_codelet_hf_5 0 #x11048 #x11048 #x0 #x99c2f4af #x51284339 #xcc87dea8 #x346fab08)
-  (TIMEOUT 0 #x1040 #x11048 #x170 #xc005c461 #x5ff307bd #xc1608ab9 #x826dc37e)
-  (fftw_rdft2_rdft_register 0 #x1040 #x11048 #x0 #xdd53e3ed #x495d6073 #x39828eec #x9f055988)
-  (TIMEOUT 0 #x1040 #x1040 #x170 #x9bce109d #x9917fa44 #xa521aa07 #x16aacba8)
-  (fftw_rdft_generic_register 0 #x11048 #x11048 #x0 #x3399f490 #x18eeb4d0 #xf4d154ea #xd3126ded)
-  (fftw_rdft2_rdft_register 0 #x1040 #x11048 #x0 #x55780668 #x57465297 #x3a3fafb2 #x398b763f)
-  (fftw_rdft_vrank_geq1_register 0 #x11048 #x11048 #x0 #x4c800486 #x68fd40be #x6fa73225 #xe0d66a0d)
-  (fftw_codelet_r2cb_13 0 #x10048 #x10048 #x0 #x01c54605 #x907931db #xad97e938 #x93e4e9bf)
-  (TIMEOUT 0 #x1040 #x1040 #x170 #x68128896 #x869567a6 #x7a73b945 #xa0a42e3a)
-  (fftw_rdft_vrank_geq1_register 1 #x10048 #x10048 #x0 #xca1d414f #x5747d65d #xa65106a8 #xa5608c29)
-  (fftw_rdft_generic_register 1 #x10048 #x10048 #x0 #x2a84cbd7 #xe030afa4 #x9413b559 #x23e541f1)
-  (fftw_rdft_vrank_geq1_register 0 #x11048 #x11048 #x0 #x69e48478 #x845fdf3f #x0bae3baf #xf5e13370)
-  (fftw_codelet_n1fv_64_avx 0 #x11bdd #x11bdd #x0 #xaa267a3d #x2a419877 #xa516cbe0 #xc4c99d4d)
-  (fftw_codelet_r2cb_4 2 #x10bdd #x10bdd #x0 #x2c255794 #xaa21b25b #x21486307 #xa880f12f)
+  (fftw_codelet_n1fv_128_avx 0 #x11bdd #x11bdd #x0 #xcf6601ad #xf464a3e3 #x9db82ec5 #x8fd45dd0)
+  (fftw_rdft_thr_vrank_geq1_register 0 #x30bff #x30bff #x0 #xce6f9094 #xc33de574 #x6fd30897 #xc417d7e3)
+  (fftw_dft_vrank_geq1_register 0 #x31bff #x31bff #x0 #x7128dcb8 #x095d1e28 #x65419d05 #xbf58bd96)
+  (fftw_codelet_hf_3 1 #x31bff #x31bff #x0 #x76455c47 #x4e959639 #x9db20dd0 #xd9263d94)
+  (fftw_rdft2_nop_register 0 #x31bff #x31bff #x0 #x668dede2 #xfd96edd6 #xa154b55a #x0e2f4fdb)
+  (fftw_rdft2_vrank_geq1_register 0 #x13c5 #x11bdd #x0 #xdd2da5e9 #xc950d673 #x6408c4d4 #xb001803c)
+  (fftw_codelet_hb2_5 1 #x30bff #x30bff #x0 #x5953be9f #x398a3581 #xaf7eae33 #x56c5b9e1)
+  (fftw_dft_vrank_geq1_register 0 #x31bff #x31bff #x0 #x1d4d5a73 #xfb031bc8 #x4c6b1d34 #xd7ee0f0c)
+  (fftw_codelet_n1fv_13_avx 0 #x31bff #x31bff #x0 #xd68024c6 #x486c9f76 #x7ece36d0 #x6c90d44c)
+  (fftw_dft_vrank_geq1_register 0 #x11bdd #x11bdd #x0 #xa499d007 #x3e6f3d74 #x4ccec119 #xdfb55377)
+  (fftw_codelet_r2cfII_2 2 #x31bff #x31bff #x0 #x67c1f1e4 #x8b11dee3 #x9554937d #xd18b7dbc)
+  (fftw_rdft_indirect_register 0 #x11bdd #x11bdd #x0 #x5e59faac #xae76c164 #xcd290364 #x4e084123)
+  (fftw_rdft2_rdft_register 0 #x13c5 #x11bdd #x0 #x81629a49 #x74ec1bd5 #x634bf202 #x6b2d0259)
+  (fftw_dft_vrank_geq1_register 0 #x31bff #x31bff #x0 #xdcba19d2 #xb282eb40 #xfbe6ed9b #xf14665f7)
+  (fftw_codelet_r2cf_128 2 #x11bdd #x11bdd #x0 #xdab31c9f #x9172c372 #xa9c7d231 #x86ec8788)
+  (fftw_rdft_generic_register 1 #x30bff #x30bff #x0 #x92b9adb9 #x8ea0ecfc #xcf095182 #xc2ed9af7)
+  (fftw_rdft2_rdft_register 0 #x13c5 #x11bdd #x0 #x430dd3c2 #x8ece6b38 #xa8830175 #x2ee104f7)
+  (fftw_rdft2_nop_register 0 #x11bdd #x11bdd #x0 #x8ce98ea3 #x660b5fec #x96ced90a #x18e99ccf)
+  (TIMEOUT 0 #x1040 #x11bdd #x170 #xdd53e3ed #x495d6073 #x39828eec #x9f055988)
+  (fftw_dft_vrank_geq1_register 0 #x11bdd #x11bdd #x0 #x1d4d5a73 #xfb031bc8 #x4c6b1d34 #xd7ee0f0c)
+  (fftw_codelet_r2cb_13 0 #x30bff #x30bff #x0 #x87f691e3 #x8323686e #x90f487eb #x6848960a)
+  (fftw_rdft_nop_register 0 #x31bff #x31bff #x0 #xf09aa414 #x99ea9141 #x81a4ce91 #x407c594f)
+  (fftw_codelet_hf_3 0 #x11bdd #x11bdd #x0 #x145bf427 #xb1671c0f #xe500350b #x6b84e9c3)
+  (fftw_rdft2_nop_register 0 #x11bdd #x11bdd #x0 #xe84a4bbe #xb458b03a #xd5943e78 #xf89528f6)
+  (fftw_codelet_t1buv_3_avx 0 #x11bdd #x11bdd #x0 #xd0af3adc #x1f1be9d3 #xe2881f5c #xb15bd237)
+  (fftw_rdft_nop_register 0 #x31bff #x31bff #x0 #xd0702255 #xe76a9ab3 #x5398ff07 #x60ee718e)
+  (fftw_rdft_indirect_register 1 #x10bdd #x10bdd #x0 #xa49cc026 #xee96ddc1 #x08e191fb #xde4e7ea8)
+  (fftw_rdft2_rdft_register 0 #x13c5 #x11bdd #x0 #x7d90b6aa #xa4ac13cd #x7f6ed9f9 #xb39844f2)
+  (fftw_codelet_n1fv_64_avx 0 #x31bff #x31bff #x0 #x5661fcf2 #x3b3b5ef4 #x74ae09ae #xfce588c6)
+  (fftw_codelet_r2cf_128 2 #x11bdd #x11bdd #x0 #x07e1f83a #xa6bef46d #x27d4efbf #x0ad359f1)
   (fftw_rdft_vrank_geq1_register 0 #x10048 #x10048 #x0 #x92fa7caa #x49cba0c9 #xa88b2e40 #x5f993120)
-  (TIMEOUT 0 #x1040 #x11048 #x170 #xd7a88d8b #xb51fb4ec #x18a6e3db #xc71ca349)
-  (fftw_codelet_r2cf_5 0 #x11048 #x11048 #x0 #x05dfc1e2 #x875ebe5e #x68d4b1d2 #xa9f80507)
-  (TIMEOUT 0 #x1040 #x1040 #x162 #xbfde4bf6 #xfb56dc9a #x4e30fdee #xc7a444a3)
-  (fftw_dft_r2hc_register 0 #x11048 #x11048 #x0 #x7137eac5 #xbf70342d #xfc107bbb #x96c31a0f)
-  (fftw_rdft2_vrank_geq1_register 0 #x1040 #x11048 #x0 #x2bae3fe1 #xe2e1e9b5 #x7f0aab31 #x3f4dffa5)
-  (fftw_rdft2_thr_vrank_geq1_register 0 #x1040 #x11048 #x0 #x9bce109d #x9917fa44 #xa521aa07 #x16aacba8)
-  (fftw_codelet_hb_5 0 #x10048 #x10048 #x0 #x1f6a5569 #xc27821d4 #xbe759498 #xb41c333b)
-  (fftw_codelet_r2cb_3 0 #x10048 #x10048 #x0 #x6373f212 #x43610235 #x1257e7e9 #xdc415215)
-  (fftw_dft_vrank_geq1_register 0 #x31bff #x31bff #x0 #xb5d8c8d7 #x7b3497a3 #x528a754d #x364e5161)
+  (fftw_codelet_r2cf_64 2 #x11bdd #x11bdd #x0 #x3cdeed1e #x9306e55a #x191f0462 #x40999a49)
+  (fftw_rdft_thr_vrank_geq1_register 0 #x31bff #x31bff #x0 #xfb27d6ac #x46d4a750 #xbe652a48 #xf3a9eb43)
+  (fftw_rdft_indirect_register 0 #x11bdd #x11bdd #x0 #xc26ca054 #xa70b660f #x7aaf14e2 #x83376dc5)
+  (fftw_rdft2_rdft_register 0 #x13c5 #x11bdd #x0 #x2bae3fe1 #xe2e1e9b5 #x7f0aab31 #x3f4dffa5)
+  (fftw_dft_vrank_geq1_register 0 #x31bff #x31bff #x0 #xbc5852be #xbc7126eb #xb4212a64 #x74b49bfb)
+  (fftw_codelet_n1fv_128_avx 0 #x11bdd #x11bdd #x0 #xc41d4d18 #x3d8ca45c #xfcb28edc #x0fbb23bb)
+  (fftw_codelet_r2cf_64 2 #x31bff #x31bff #x0 #xfd3d3c41 #x15fb4907 #x740bccb7 #xec2f670f)
+  (fftw_dft_vrank_geq1_register 0 #x11bdd #x11bdd #x0 #xb5d8c8d7 #x7b3497a3 #x528a754d #x364e5161)
   (fftw_codelet_r2cb_128 2 #x31bff #x31bff #x0 #x9fb6ca74 #x0b794c10 #xb7cd3bbd #xb7eef53b)
-  (fftw_codelet_r2cb_5 0 #x10048 #x10048 #x0 #x72e8fca4 #xe2f9c5d0 #x6db1703c #x01e91779)
-  (fftw_codelet_hb_5 0 #x10048 #x10048 #x0 #x6d1d54c5 #xac3ed37e #x4b28b86a #x8c8f1e36)
-  (fftw_codelet_r2cf_3 0 #x11048 #x11048 #x0 #xaa6678d3 #xb5c9a722 #xe558733c #xe1ea7921)
-  (fftw_codelet_n1fv_32_avx 0 #x11048 #x11048 #x0 #x8a0a190a #x429755af #xbdcca74a #x20cb4a98)
-  (fftw_rdft2_nop_register 0 #x11048 #x11048 #x0 #x451ecb84 #x19ef7ebc #x8206f1a1 #xe2632fa2)
-  (fftw_rdft2_buffered_register 0 #x11048 #x11048 #x0 #xbff9e242 #x84f9cb2c #xbeab193e #xb0d7ddd5)
-  (fftw_dft_vrank_geq1_register 1 #x11048 #x11048 #x0 #xe2d8e00a #xbc08109e #x9e1b5f9d #x153bfd20)
-  (fftw_rdft_nop_register 0 #x11048 #x11048 #x0 #x114f3dc2 #xbf1f951b #x42acea82 #x123fd938)
-  (fftw_codelet_r2cf_4 2 #x11048 #x11048 #x0 #xa5a08875 #x70ede4ac #xe33619e2 #x8b63d402)
-  (fftw_codelet_hc2cfdftv_4_avx 0 #x11048 #x11048 #x0 #x3276648e #x71acce52 #xa5d4cfd2 #x115c5b96)
-  (fftw_rdft2_rdft_register 0 #x1040 #x11048 #x0 #x81629a49 #x74ec1bd5 #x634bf202 #x6b2d0259)
-  (fftw_rdft2_thr_vrank_geq1_register 0 #x1040 #x11048 #x0 #x9b255c4f #xf449f0a3 #x2e8f6b15 #xd6b469a1)
-  (fftw_codelet_hb_3 0 #x10048 #x10048 #x0 #xa5c20514 #x91882f7e #xaa9911cc #xb5274f6b)
-  (fftw_dft_thr_vrank_geq1_register 0 #x11bdd #x11bdd #x0 #x8ff42654 #xbd5503a9 #x8d7ae4bc #x818c48f7)
-  (fftw_rdft2_buffered_register 0 #x11bdd #x11bdd #x0 #x8f5dd72e #x969591b5 #xddf07ee3 #x79dffabf)
-  (fftw_dft_vrank_geq1_register 1 #x11048 #x11048 #x0 #x2ab86682 #xe1515113 #x3ed9b0cf #xadeae282)
-  (fftw_rdft_generic_register 0 #x11048 #x11048 #x0 #x61d70d4e #x88af45d4 #x7b91a2b4 #xd0255ae7)
-  (fftw_codelet_t1fuv_5_avx 0 #x11048 #x11048 #x0 #x2fd831a4 #xad21ceb9 #x759dc316 #x0556fbe4)
-  (fftw_rdft_vrank_geq1_register 0 #x10048 #x10048 #x0 #xb29dfb0d #xc894cc85 #x185cfb3a #x75487941)
-  (fftw_codelet_n1bv_13_avx 0 #x11048 #x11048 #x0 #x6e4bf53f #x780e3b44 #x2466f7a4 #x522fa8a8)
-  (TIMEOUT 0 #x1040 #x1040 #x170 #x5ee274f4 #x9e98cb2c #xe82f2618 #x3977a737)
-  (fftw_codelet_n1bv_11_avx 0 #x11048 #x11048 #x0 #xba3799f5 #xdecd4140 #x62b935a6 #xc4d07bea)
-  (fftw_codelet_n2bv_16_avx 0 #x10048 #x10048 #x0 #xf3ca65bb #x914a0222 #xb99858fc #x7744b130)
-  (fftw_codelet_r2cb_128 2 #x11bdd #x11bdd #x0 #x9fdb13d3 #xe918c2cc #x1128c1ce #x1f8e4149)
-  (fftw_rdft_vrank_geq1_register 0 #x11048 #x11048 #x0 #x371dff66 #xcf556809 #xaa28c89b #x7fdb9894)
-  (fftw_codelet_t1fuv_5_avx 0 #x11048 #x11048 #x0 #xafb38004 #x2c8be07b #x4a485341 #xb0a17dd6)
-  (fftw_dft_vrank_geq1_register 0 #x11048 #x11048 #x0 #x5c4212f2 #x18e4a3d1 #x346bc142 #xa607d56f)
-  (fftw_codelet_r2cbIII_4 2 #x10bdd #x10bdd #x0 #x9dd5b007 #xf722fab3 #x170bd44d #x428f40b3)
-  (fftw_rdft_vrank_geq1_register 1 #x10048 #x10048 #x0 #x23014f2b #x7dcfce5e #x9bc83244 #x40ca3d07)
+  (fftw_codelet_n1bv_11_avx 0 #x31bff #x31bff #x0 #xdccbad32 #x7f9db36b #xb26023c4 #xa2d2c4fd)
+  (fftw_codelet_r2cb_3 0 #x30bff #x30bff #x0 #x6373f212 #x43610235 #x1257e7e9 #xdc415215)
+  (fftw_rdft2_nop_register 0 #x11bdd #x11bdd #x0 #x48cc35a4 #x3cb96db3 #x659fb0ac #x23a1e1f6)
+  (fftw_codelet_r2cf_3 0 #x31bff #x31bff #x0 #xaa6678d3 #xb5c9a722 #xe558733c #xe1ea7921)
+  (fftw_dft_vrank_geq1_register 0 #x11bdd #x11bdd #x0 #xdcba19d2 #xb282eb40 #xfbe6ed9b #xf14665f7)
+  (fftw_rdft2_nop_register 0 #x11bdd #x11bdd #x0 #x451ecb84 #x19ef7ebc #x8206f1a1 #xe2632fa2)
+  (TIMEOUT 0 #x1040 #x11048 #x170 #xd557e28c #xce72b99d #x388b71f3 #x4b91eabd)
+  (fftw_rdft2_nop_register 0 #x31bff #x31bff #x0 #x2bbef4fe #x82d77535 #x5fc496e1 #x7c3d1b7c)
+  (fftw_rdft_nop_register 0 #x10bdd #x10bdd #x0 #x114f3dc2 #xbf1f951b #x42acea82 #x123fd938)
+  (TIMEOUT 0 #x1040 #x1040 #x162 #xbfde4bf6 #xfb56dc9a #x4e30fdee #xc7a444a3)
+  (TIMEOUT 0 #x1040 #x11bdd #x162 #x3276648e #x71acce52 #xa5d4cfd2 #x115c5b96)
+  (fftw_rdft_generic_register 0 #x31bff #x31bff #x0 #x06233490 #xc41e4217 #x5c466786 #x52b7d9b5)
+  (TIMEOUT 0 #x1040 #x11048 #x170 #x9b255c4f #xf449f0a3 #x2e8f6b15 #xd6b469a1)
+  (fftw_dft_vrank_geq1_register 0 #x31bff #x31bff #x0 #xbffc2059 #x4b60ca07 #xfb822258 #x80f954ad)
+  (fftw_rdft_vrank_geq1_register 0 #x10bdd #x10bdd #x0 #xa5c20514 #x91882f7e #xaa9911cc #xb5274f6b)
+  (fftw_codelet_t1buv_3_avx 0 #x31bff #x31bff #x0 #xd0af3adc #x1f1be9d3 #xe2881f5c #xb15bd237)
+  (fftw_dft_vrank_geq1_register 0 #x31bff #x31bff #x0 #x73f4934b #x8c61b8f6 #x207a2849 #x643bd724)
+  (fftw_codelet_r2cb_128 2 #x31bff #x31bff #x0 #x8f5dd72e #x969591b5 #xddf07ee3 #x79dffabf)
+  (fftw_codelet_n1bv_13_avx 0 #x31bff #x31bff #x0 #x2dc1ec30 #x605acb87 #x5e08e290 #xf9b240c4)
+  (fftw_codelet_n1fv_128_avx 0 #x31bff #x31bff #x0 #xc41d4d18 #x3d8ca45c #xfcb28edc #x0fbb23bb)
+  (fftw_rdft2_vrank_geq1_register 0 #x13c5 #x11bdd #x0 #x40ae335d #x403dd6ea #x90390690 #x4395107e)
+  (TIMEOUT 0 #x1040 #x11048 #x170 #x2fd831a4 #xad21ceb9 #x759dc316 #x0556fbe4)
+  (fftw_codelet_hb_3 0 #x10bdd #x10bdd #x0 #x529e0d5e #x261bfd8e #x4770af80 #x188daba9)
+  (TIMEOUT 0 #x1040 #x11048 #x170 #x5ee274f4 #x9e98cb2c #xe82f2618 #x3977a737)
+  (fftw_rdft_generic_register 0 #x31bff #x31bff #x0 #x5a6b0949 #x91e7c6d4 #xecb942d5 #x4119e22f)
+  (fftw_rdft_nop_register 0 #x10048 #x10048 #x0 #x020df6b3 #x02731c8c #xd41fecb2 #x3ae7bba9)
+  (fftw_codelet_r2cb_128 2 #x31bff #x31bff #x0 #x9fdb13d3 #xe918c2cc #x1128c1ce #x1f8e4149)
+  (fftw_dft_vrank_geq1_register 0 #x31bff #x31bff #x0 #xc03558d8 #xfae9da8a #xf4f4d549 #x95d9cdd9)
+  (fftw_rdft2_rdft_register 0 #x213e7 #x31bff #x0 #x9188bc7d #xb0e0c3c3 #x3de1be5e #x0d90290b)
+  (TIMEOUT 0 #x1040 #x11048 #x170 #xafb38004 #x2c8be07b #x4a485341 #xb0a17dd6)
+  (fftw_codelet_t1buv_5_avx 0 #x31bff #x31bff #x0 #xd1170c9a #xc291a525 #x96b064b8 #x90097338)
+  (fftw_rdft2_vrank_geq1_register 0 #x11bdd #x11bdd #x0 #xfd3d3c41 #x15fb4907 #x740bccb7 #xec2f670f)
+  (fftw_rdft2_vrank_geq1_register 0 #x11bdd #x11bdd #x0 #x0a413f36 #xf5d66e76 #x0b1d9056 #xc84a3c53)
   (TIMEOUT 0 #x1040 #x1040 #x162 #x55780668 #x57465297 #x3a3fafb2 #x398b763f)
-  (fftw_codelet_n1_4 0 #x11048 #x11048 #x0 #x96f1c75a #x7c3ceee0 #x460044c3 #x947e4df4)
+  (fftw_codelet_hb_3 0 #x10bdd #x10bdd #x0 #x75f69f7a #x7b0ac424 #x59018a16 #x7db76789)
   (fftw_dft_vrank_geq1_register 0 #x31bff #x31bff #x0 #x4c536342 #x73dbba7e #x10c20069 #x83c78e8a)
-  (fftw_codelet_n1_32 0 #x10bdd #x10bdd #x0 #x12c3d56f #xf3d2a0a6 #x9b8138b9 #x08a02df7)
+  (fftw_codelet_r2cf_128 2 #x11bdd #x11bdd #x0 #xaf54131f #x9f3807c3 #x2345d1bd #x6243c1da)
   (fftw_codelet_n1fv_64_avx 0 #x31bff #x31bff #x0 #xb7c4d232 #x87a37f5b #xdedc5bf5 #x9157d813)
-  (fftw_codelet_r2cf_128 2 #x11bdd #x11bdd #x0 #x8def1726 #xd369a991 #xe95ce062 #x6626e530)
-  (fftw_rdft2_nop_register 0 #x11048 #x11048 #x0 #x6dec0c82 #xf283fa7a #xbebca198 #xadb49864)
-  (fftw_codelet_n1fv_13_avx 0 #x11048 #x11048 #x0 #xded2afa8 #x20e695e5 #xd2044be5 #x5d7097cc)
-  (fftw_rdft_nop_register 0 #x10048 #x10048 #x0 #x020df6b3 #x02731c8c #xd41fecb2 #x3ae7bba9)
-  (fftw_dft_generic_register 0 #x31bff #x31bff #x0 #xe7cb2713 #x0529cbae #xc1f6292f #x7d4c31cd)
-  (fftw_codelet_hc2cfdftv_4_avx 0 #x11048 #x11048 #x0 #xd557e28c #xce72b99d #x388b71f3 #x4b91eabd)
-  (fftw_codelet_t1buv_3_avx 0 #x11048 #x11048 #x0 #xe3b75d1b #xb772c490 #x0e4082d0 #x1f7854cb)
+  (fftw_rdft_thr_vrank_geq1_register 0 #x30bff #x30bff #x0 #xb261fb9b #xa7277831 #x2a81beac #x31cdd5cd)
+  (TIMEOUT 0 #x1040 #x11bdd #x170 #x3213f2b2 #x6a767ef9 #x5e03ca05 #x08a77a3c)
+  (fftw_codelet_r2cf_128 2 #x31bff #x31bff #x0 #x07e1f83a #xa6bef46d #x27d4efbf #x0ad359f1)
+  (fftw_codelet_hb_3 0 #x10048 #x10048 #x0 #x40ab6782 #xb65a2fdd #x73dd1a9e #x0f6fcd78)
+  (fftw_rdft_rank0_register 2 #x11bdd #x11bdd #x0 #x28dd24c1 #x2f04c060 #x4470a1ef #x13046e49)
+  (TIMEOUT 0 #x1040 #x11048 #x170 #xe3b75d1b #xb772c490 #x0e4082d0 #x1f7854cb)
   (TIMEOUT 0 #x1040 #x11048 #x170 #xb4c5acbc #xdaeff467 #x058553a9 #x3dc0bcae)
-  (fftw_rdft2_thr_vrank_geq1_register 0 #x1040 #x11048 #x0 #xf920d1a3 #xe39b5a27 #x70be9b77 #x102a1782)
-  (fftw_rdft2_vrank_geq1_register 0 #x10bdd #x10bdd #x0 #x0e08ce4c #x2fb384fb #x652c6483 #x28944110)
-  (fftw_codelet_r2cf_13 0 #x11048 #x11048 #x0 #x8039c509 #xe222b953 #x9f1ff22b #xd1bf762f)
-  (TIMEOUT 0 #x1040 #x1040 #x170 #xe3b75d1b #xb772c490 #x0e4082d0 #x1f7854cb)
-  (fftw_codelet_hc2cbdftv_4_avx 0 #x10bdd #x10bdd #x0 #x18c9999c #xc70aa767 #x5a1ff06b #x6430b577)
-  (fftw_codelet_r2cb_64 2 #x31bff #x31bff #x0 #xdb32ffda #x4b801940 #x657a1110 #xdc6056ed)
-  (TIMEOUT 0 #x1040 #x1040 #x170 #x087832b2 #xbb2d856d #x9ae0ee0e #x9dc2683f)
-  (fftw_codelet_r2cfII_2 2 #x11048 #x11048 #x0 #xd0bfe857 #x12eb17df #x55a40943 #x73dce0c7)
-  (fftw_dft_generic_register 0 #x11bdd #x11bdd #x0 #xe391cdee #xa2d2b59f #xe605b384 #xf7b5d9d6)
-  (fftw_rdft_rank0_register 3 #x11bdd #x11bdd #x0 #x2cd56808 #x8f5940ac #xf0252800 #xb687a393)
-  (fftw_codelet_n1bv_13_avx 0 #x11048 #x11048 #x0 #xba62642e #x747e2485 #x882d27d7 #xd9778e79)
-  (fftw_dft_vrank_geq1_register 0 #x31bff #x31bff #x0 #x521d1743 #x7c4721c7 #x5f8eeb8f #x4bce57e1)
-  (fftw_dft_vrank_geq1_register 0 #x11bdd #x11bdd #x0 #xa499d007 #x3e6f3d74 #x4ccec119 #xdfb55377)
-  (fftw_codelet_r2cb_13 0 #x10048 #x10048 #x0 #x1d6a7e57 #xe60cc247 #x7d0f1135 #x42d6b801)
-  (fftw_dft_vrank_geq1_register 1 #x11048 #x11048 #x0 #x66b5b291 #x0df27b89 #xbd0255c4 #x8a17757b)
+  (fftw_dft_vrank_geq1_register 0 #x31bff #x31bff #x0 #xef7f3bce #x6f956392 #x0f155687 #x20f6fad4)
+  (fftw_rdft_generic_register 1 #x10bdd #x10bdd #x0 #x6f4163c6 #xde60cb2d #x0538bdd0 #xf6cee3f8)
+  (fftw_rdft_thr_vrank_geq1_register 0 #x31bff #x31bff #x0 #x8039c509 #xe222b953 #x9f1ff22b #xd1bf762f)
+  (fftw_codelet_t1fuv_3_avx 0 #x11bdd #x11bdd #x0 #xd1509a60 #x2b9d0583 #xe430dedd #x0bc65a61)
+  (fftw_codelet_n1bv_13_avx 0 #x31bff #x31bff #x0 #x9592b8b6 #xf18d0d52 #x95f7eb37 #xc845d163)
+  (fftw_codelet_r2cb_64 2 #x11bdd #x11bdd #x0 #xdb32ffda #x4b801940 #x657a1110 #xdc6056ed)
+  (fftw_codelet_n1fv_13_avx 0 #x11bdd #x11bdd #x0 #xd68024c6 #x486c9f76 #x7ece36d0 #x6c90d44c)
+  (fftw_codelet_r2cfII_4 2 #x11bdd #x11bdd #x0 #xa28134d1 #x85ce5f18 #xe4195e09 #xb87458c0)
+  (fftw_codelet_t1bv_5_sse2 0 #x11bdd #x11bdd #x0 #xd1170c9a #xc291a525 #x96b064b8 #x90097338)
+  (fftw_codelet_n2fv_16_avx 0 #x11bdd #x11bdd #x0 #xc5917170 #x3b80bf13 #xdd2c5d13 #x757b0aaa)
+  (fftw_rdft2_nop_register 0 #x31bff #x31bff #x0 #xa326c4a0 #x347f5b9c #x7900826e #x78896ee8)
+  (fftw_dft_vrank_geq1_register 0 #x11bdd #x11bdd #x0 #x521d1743 #x7c4721c7 #x5f8eeb8f #x4bce57e1)
+  (fftw_rdft_nop_register 0 #x11048 #x11048 #x0 #x020df6b3 #x02731c8c #xd41fecb2 #x3ae7bba9)
+  (fftw_codelet_r2cf_64 2 #x31bff #x31bff #x0 #x3cdeed1e #x9306e55a #x191f0462 #x40999a49)
+  (fftw_rdft_vrank_geq1_register 0 #x10bdd #x10bdd #x0 #x37e26133 #x977a4f45 #x65e25c79 #x75719946)
   (fftw_codelet_t1fuv_3_avx 0 #x11bdd #x11bdd #x0 #x8049c984 #xcdf7b9af #x9acf27b7 #x124292c5)
-  (fftw_rdft2_rdft_register 0 #x1040 #x11048 #x0 #x087832b2 #xbb2d856d #x9ae0ee0e #x9dc2683f)
-  (fftw_codelet_r2cfII_4 2 #x11048 #x11048 #x0 #x013724a5 #x24f197a8 #x55b08057 #x331b25f0)
-  (fftw_rdft2_rdft_register 0 #x1040 #x11048 #x0 #x34e7f221 #x07649798 #x0f8ab691 #x8483bf7b)
-  (fftw_codelet_n1fv_16_avx 0 #x31bff #x31bff #x0 #xb8b01f0b #xda802e15 #xbc85070d #xec15ac56)
+  (TIMEOUT 0 #x1040 #x11bdd #x170 #x087832b2 #xbb2d856d #x9ae0ee0e #x9dc2683f)
+  (fftw_rdft_generic_register 1 #x30bff #x30bff #x0 #xa1a838ff #x30db6e14 #x4c79f8c6 #xd446ae6f)
+  (fftw_rdft_vrank_geq1_register 0 #x11048 #x11048 #x0 #x4c800486 #x68fd40be #x6fa73225 #xe0d66a0d)
   (fftw_rdft_generic_register 0 #x11048 #x11048 #x0 #x897deabd #x2f50df8d #x78ce307b #x32aebeeb)
-  (fftw_codelet_n1fv_128_avx 0 #x11048 #x11048 #x0 #xa4dc7c80 #x5f01ad69 #x96f8ccbf #x4263160a)
-  (TIMEOUT 0 #x1040 #x1040 #x170 #xdd53e3ed #x495d6073 #x39828eec #x9f055988)
-  (fftw_rdft2_thr_vrank_geq1_register 0 #x1040 #x11048 #x0 #x68128896 #x869567a6 #x7a73b945 #xa0a42e3a)
-  (fftw_dft_generic_register 0 #x31bff #x31bff #x0 #x63703094 #x0ae238b2 #xddb2c581 #x2d02ac1f)
-  (fftw_rdft2_rdft_register 0 #x1040 #x11048 #x0 #xa4b71812 #xbc0ec5d8 #x4bc566f9 #xe0fd3c56)
-  (fftw_codelet_hf_3 0 #x11048 #x11048 #x0 #x740957bd #x00ac5f82 #xf18eb237 #x971abebb)
-  (fftw_codelet_t1buv_5_avx 0 #x11048 #x11048 #x0 #x52fa67b2 #xcf968398 #xd2aa4be0 #xcdef714f)
-  (fftw_codelet_r2cf_128 2 #x11bdd #x11bdd #x0 #xdab31c9f #x9172c372 #xa9c7d231 #x86ec8788)
-  (fftw_dft_vrank_geq1_register 0 #x11048 #x11048 #x0 #x3c115098 #x367a71c3 #xc8b7ebb8 #x09ebe5b3)
-  (fftw_rdft_vrank_geq1_register 0 #x10048 #x10048 #x0 #xf5fcc8ae #x17873438 #x6d5468a5 #x025330e8)
-  (fftw_codelet_r2cb_64 2 #x11bdd #x11bdd #x0 #xbfc47a0d #x979fdb20 #x360358fa #x9970eeee)
-  (fftw_codelet_r2cb_128 2 #x11bdd #x11bdd #x0 #xda7c02d3 #x06524507 #xc5dcd8e5 #x026b61e3)
-  (TIMEOUT 0 #x1040 #x11048 #x162 #x2f39cf83 #x20c405b5 #x864537f6 #x75672e05)
+  (TIMEOUT 0 #x1040 #x11048 #x170 #x1a8d667c #xed5a2b29 #x486f94c5 #xf3097806)
+  (fftw_codelet_r2cf_64 2 #x31bff #x31bff #x0 #x0a413f36 #xf5d66e76 #x0b1d9056 #xc84a3c53)
+  (fftw_rdft_thr_vrank_geq1_register 0 #x30bff #x30bff #x0 #xa9b0f285 #x773cfb20 #x707abd0f #x4d8c7514)
+  (fftw_codelet_hb_3 1 #x30bff #x30bff #x0 #xbed80676 #x173a989d #x008ce334 #x17f4d2eb)
+  (fftw_rdft_nop_register 0 #x30bff #x30bff #x0 #x114f3dc2 #xbf1f951b #x42acea82 #x123fd938)
+  (TIMEOUT 0 #x1040 #x11bdd #x170 #x52fa67b2 #xcf968398 #xd2aa4be0 #xcdef714f)
+  (fftw_rdft_vrank_geq1_register 0 #x11bdd #x11bdd #x0 #x740957bd #x00ac5f82 #xf18eb237 #x971abebb)
+  (fftw_rdft2_rdft_register 0 #x13c5 #x11bdd #x0 #x3d43e356 #xc683bdd7 #x9a3603a5 #x48b67384)
+  (TIMEOUT 0 #x1040 #x11048 #x170 #xee863c64 #x2fb12a35 #xc725e0db #x516a3243)
+  (fftw_codelet_r2cf_128 2 #x31bff #x31bff #x0 #xdab31c9f #x9172c372 #xa9c7d231 #x86ec8788)
+  (fftw_codelet_n1fv_128_avx 0 #x31bff #x31bff #x0 #x1060d12e #x569cae13 #x74c3d6e6 #x4ff09f25)
+  (fftw_rdft2_vrank_geq1_register 0 #x13c5 #x11bdd #x0 #x34e7f221 #x07649798 #x0f8ab691 #x8483bf7b)
+  (fftw_codelet_r2cf_128 2 #x31bff #x31bff #x0 #xaf54131f #x9f3807c3 #x2345d1bd #x6243c1da)
+  (fftw_codelet_r2cb_128 2 #x31bff #x31bff #x0 #xda7c02d3 #x06524507 #xc5dcd8e5 #x026b61e3)
+  (TIMEOUT 0 #x1040 #x11bdd #x162 #x2f39cf83 #x20c405b5 #x864537f6 #x75672e05)
   (fftw_codelet_hf_3 0 #x11048 #x11048 #x0 #x9219e250 #xbcf7d395 #xff8515c9 #xa7453d2d)
-  (fftw_rdft2_nop_register 0 #x11048 #x11048 #x0 #xbd102ab1 #x0694cb20 #x18d80726 #xeb1dd6b6)
-  (fftw_codelet_hf_3 0 #x11048 #x11048 #x0 #x38480245 #xbe409ee0 #x454066c2 #x955b910d)
-  (fftw_codelet_n1fv_13_avx 0 #x11048 #x11048 #x0 #xebbc171f #x6731aa9c #x761304c3 #x85f79d38)
-  (fftw_codelet_r2cfII_4 2 #x11048 #x11048 #x0 #x8fdb64fd #x17b16d00 #x92c30334 #xdd376b15)
-  (fftw_dft_generic_register 0 #x31bff #x31bff #x0 #xe391cdee #xa2d2b59f #xe605b384 #xf7b5d9d6)
-  (fftw_codelet_r2cf_128 2 #x31bff #x31bff #x0 #x8def1726 #xd369a991 #xe95ce062 #x6626e530)
-  (fftw_rdft2_rdft_register 0 #x1040 #x11048 #x0 #xf28855f1 #x2d3d91bc #x09b1a63a #xa74bade8)
-  (fftw_codelet_hc2cfdftv_2_avx 0 #x11048 #x11048 #x0 #x5ee274f4 #x9e98cb2c #xe82f2618 #x3977a737)
-  (fftw_dft_vrank_geq1_register 0 #x11bdd #x11bdd #x0 #xb5d8c8d7 #x7b3497a3 #x528a754d #x364e5161)
-  (fftw_codelet_n1fv_16_avx 0 #x11048 #x11048 #x0 #x5cd74f54 #x0c6f511d #xd68f6ddb #xb848b022)
-  (fftw_rdft_vrank_geq1_register 0 #x11048 #x11048 #x0 #xef377955 #xb37e8b6b #x88d10ff8 #x91090d3e)
+  (fftw_codelet_n1fv_64_avx 0 #x31bff #x31bff #x0 #xaa267a3d #x2a419877 #xa516cbe0 #xc4c99d4d)
+  (fftw_rdft_vrank_geq1_register 0 #x11fdd #x11fdd #x0 #xe7783b8c #x36b18ec9 #x985af6c3 #x76366c55)
+  (fftw_rdft_vrank_geq1_register 0 #x10bdd #x10bdd #x0 #x5cab7ff8 #x406cc42f #x691dfdcd #x527e6ab0)
+  (fftw_codelet_hf_3 0 #x11bdd #x11bdd #x0 #x38480245 #xbe409ee0 #x454066c2 #x955b910d)
+  (fftw_dft_vrank_geq1_register 0 #x11bdd #x11bdd #x0 #x378b68ed #xd1361090 #x382cefe8 #x72f7834d)
+  (fftw_dft_vrank_geq1_register 0 #x31bff #x31bff #x0 #xde52cdde #x85a25c10 #x5e6372dd #x6e81a718)
+  (fftw_rdft_generic_register 0 #x31bff #x31bff #x0 #x9d23098b #xedc4cbab #x2f32d9af #x035393c1)
+  (fftw_dft_generic_register 0 #x11bdd #x11bdd #x0 #xe391cdee #xa2d2b59f #xe605b384 #xf7b5d9d6)
+  (fftw_codelet_r2cf_128 2 #x11bdd #x11bdd #x0 #x8def1726 #xd369a991 #xe95ce062 #x6626e530)
+  (fftw_rdft2_vrank_geq1_register 0 #x13c5 #x11bdd #x0 #xf28855f1 #x2d3d91bc #x09b1a63a #xa74bade8)
+  (fftw_dft_vrank_geq1_register 0 #x31bff #x31bff #x0 #xb5d8c8d7 #x7b3497a3 #x528a754d #x364e5161)
+  (TIMEOUT 0 #x1040 #x11048 #x170 #xc005c461 #x5ff307bd #xc1608ab9 #x826dc37e)
+  (fftw_codelet_hb_3 1 #x30bff #x30bff #x0 #x581ee64f #x6e07b56a #x9d2dfbc0 #xf8a4d761)
   (TIMEOUT 0 #x1040 #x11048 #x170 #xa9157198 #x4e91ef60 #x97bbca5e #x78a3e8fe)
+  (fftw_codelet_hc2cfdftv_4_avx 0 #x11bdd #x11bdd #x0 #x2370d934 #x67bb9ff9 #x964b5cd1 #x6e5f0bac)
   (fftw_dft_vrank_geq1_register 0 #x11bdd #x11bdd #x0 #x4c536342 #x73dbba7e #x10c20069 #x83c78e8a)
-  (fftw_codelet_r2cb_2 2 #x10048 #x10048 #x0 #xb42017c3 #x28a07acb #x9e4b1f44 #xc4c0ed40)
-  (fftw_codelet_n1fv_64_avx 0 #x31bff #x31bff #x0 #xc917a2d8 #xad15992c #x0ec03060 #x6e4c6371)
-  (fftw_rdft2_nop_register 0 #x11048 #x11048 #x0 #x71b43dcb #x9d36ecfa #xf92c1c1f #x87bf9552)
-  (fftw_codelet_n1bv_13_avx 0 #x11048 #x11048 #x0 #x177af7c3 #xb0d86788 #xb1c4370c #x9741bf5e)
-  (fftw_codelet_hf_3 0 #x11048 #x11048 #x0 #x6dd48d2a #x89516339 #x5f00bf74 #xa11be05b)
-  (fftw_codelet_r2cf_4 2 #x11048 #x11048 #x0 #x6d4e15fa #x2cc4db04 #x0217ab9f #x2dc1d9be)
-  (fftw_dft_vrank_geq1_register 0 #x11048 #x11048 #x0 #xfa1414e7 #x8900ca06 #x54c1a453 #x4bfdcfe3)
-  (TIMEOUT 0 #x1040 #x1040 #x162 #x4d96b693 #x614ac541 #x73430d68 #x8eee18f0)
-  (fftw_codelet_r2cb_128 2 #x31bff #x31bff #x0 #xda7c02d3 #x06524507 #xc5dcd8e5 #x026b61e3)
-  (fftw_rdft2_rdft_register 0 #x1040 #x11048 #x0 #xbd1f7892 #x0f7580f2 #x45bc664d #x9ced75ca)
-  (TIMEOUT 0 #x1040 #x11048 #x162 #xba1ba077 #x3c021783 #x63d6d37f #xd5db1587)
-  (fftw_dft_vrank_geq1_register 1 #x11048 #x11048 #x0 #xd643a99c #x85e2ac0f #x3881c10d #x50b9574e)
-  (TIMEOUT 0 #x1040 #x1040 #x170 #xb3b9aa19 #x4b1ab5f6 #xbcb1aebb #x69879cc8)
   (fftw_codelet_n1fv_64_avx 0 #x11bdd #x11bdd #x0 #xc917a2d8 #xad15992c #x0ec03060 #x6e4c6371)
-  (TIMEOUT 0 #x1040 #x1040 #x170 #xa4dc7c80 #x5f01ad69 #x96f8ccbf #x4263160a)
-  (fftw_rdft_vrank_geq1_register 0 #x10048 #x10048 #x0 #x5cab7ff8 #x406cc42f #x691dfdcd #x527e6ab0)
-  (fftw_codelet_hf_5 0 #x11048 #x11048 #x0 #x175d7f00 #x66d8acf8 #xa7b5fa45 #x86d59e58)
-  (TIMEOUT 0 #x1040 #x1040 #x170 #xa4b71812 #xbc0ec5d8 #x4bc566f9 #xe0fd3c56)
-  (fftw_dft_r2hc_register 0 #x11bdd #x11bdd #x0 #x34d99e96 #xf4400b5f #x2023bbe9 #xb9315dfd)
-  (fftw_codelet_r2cb_128 2 #x31bff #x31bff #x0 #x9fdb13d3 #xe918c2cc #x1128c1ce #x1f8e4149)
-  (fftw_rdft2_nop_register 0 #x11048 #x11048 #x0 #x9528bbca #x10243b67 #xc6a4e98b #x7c2e9e41)
-  (fftw_rdft2_nop_register 0 #x11048 #x11048 #x0 #xe6e8248b #x0fa2a65d #xcded9359 #xf5458df7)
-  (fftw_codelet_n1bv_11_avx 0 #x11048 #x11048 #x0 #x3caee319 #xff765048 #xcf10ef89 #xa3bc300b)
-  (fftw_codelet_n1fv_64_avx 0 #x31bff #x31bff #x0 #xaa267a3d #x2a419877 #xa516cbe0 #xc4c99d4d)
-  (fftw_rdft2_nop_register 0 #x11048 #x11048 #x0 #xebb5237a #xa25858c5 #xfbf63b00 #x831ac065)
+  (fftw_codelet_r2cf_13 0 #x31bff #x31bff #x0 #x1ebdbfad #x42b5a1c4 #xa319a452 #x10018314)
+  (TIMEOUT 0 #x1040 #x11048 #x170 #x808a6ab6 #xa8ad41cb #xf4dbc9d6 #xed584a41)
+  (fftw_codelet_hf_3 0 #x11bdd #x11bdd #x0 #x6dd48d2a #x89516339 #x5f00bf74 #xa11be05b)
+  (fftw_codelet_hf2_5 1 #x31bff #x31bff #x0 #x488199cc #x0d0091c1 #xd7cd7dd3 #xf3c9d808)
+  (fftw_rdft2_vrank_geq1_register 0 #x13c5 #x11bdd #x0 #xbd1f7892 #x0f7580f2 #x45bc664d #x9ced75ca)
+  (TIMEOUT 0 #x1040 #x11bdd #x162 #xba1ba077 #x3c021783 #x63d6d37f #xd5db1587)
+  (fftw_rdft2_nop_register 0 #x31bff #x31bff #x0 #xf91a3f0c #x0b4a7f8e #xced25042 #x98e57926)
+  (fftw_codelet_n1fv_64_avx 0 #x11bdd #x11bdd #x0 #xaa267a3d #x2a419877 #xa516cbe0 #xc4c99d4d)
+  (fftw_codelet_n1fv_64_avx 0 #x31bff #x31bff #x0 #xc917a2d8 #xad15992c #x0ec03060 #x6e4c6371)
+  (TIMEOUT 0 #x1040 #x11048 #x170 #xa4dc7c80 #x5f01ad69 #x96f8ccbf #x4263160a)
+  (TIMEOUT 0 #x1040 #x11bdd #x170 #xa4b71812 #xbc0ec5d8 #x4bc566f9 #xe0fd3c56)
+  (fftw_codelet_t1fuv_3_avx 0 #x31bff #x31bff #x0 #x8049c984 #xcdf7b9af #x9acf27b7 #x124292c5)
+  (fftw_codelet_r2cf_13 0 #x31bff #x31bff #x0 #x755b6f5b #xcd3fb29b #xaca8c586 #x32ea6c8d)
+  (fftw_rdft_vrank_geq1_register 0 #x11bdd #x11bdd #x0 #x6a664a95 #x8225c618 #x54bebf70 #x25bff84b)
+  (fftw_dft_vrank_geq1_register 0 #x11bdd #x11bdd #x0 #x7128dcb8 #x095d1e28 #x65419d05 #xbf58bd96)
+  (TIMEOUT 0 #x1040 #x11bdd #x170 #xd7a88d8b #xb51fb4ec #x18a6e3db #xc71ca349)
+  (fftw_dft_vrank_geq1_register 0 #x11bdd #x11bdd #x0 #xc03558d8 #xfae9da8a #xf4f4d549 #x95d9cdd9)
+  (TIMEOUT 0 #x1040 #x11bdd #x162 #xbff9e242 #x84f9cb2c #xbeab193e #xb0d7ddd5)
   (fftw_dft_thr_vrank_geq1_register 0 #x31bff #x31bff #x0 #x8ff42654 #xbd5503a9 #x8d7ae4bc #x818c48f7)
-  (TIMEOUT 0 #x1040 #x1040 #x170 #xf920d1a3 #xe39b5a27 #x70be9b77 #x102a1782)
-  (fftw_codelet_r2cb_64 2 #x11bdd #x11bdd #x0 #xdb32ffda #x4b801940 #x657a1110 #xdc6056ed)
-  (fftw_rdft_vrank_geq1_register 0 #x10048 #x10048 #x0 #x41fb576b #x98e4c016 #xf0453a11 #xd7691bbb)
+  (TIMEOUT 0 #x1040 #x11048 #x170 #xf920d1a3 #xe39b5a27 #x70be9b77 #x102a1782)
+  (fftw_rdft2_nop_register 0 #x11048 #x11048 #x0 #x9528bbca #x10243b67 #xc6a4e98b #x7c2e9e41)
   (fftw_rdft_generic_register 1 #x10048 #x10048 #x0 #x59a18708 #xd3f54a41 #x20388058 #xdd01024c)
-  (fftw_codelet_hb_3 0 #x10048 #x10048 #x0 #xe2c4e79c #x0f872f3d #xa9eb590f #x282270a7)
-  (fftw_rdft2_rdft_register 0 #x1040 #x11048 #x0 #xbfde4bf6 #xfb56dc9a #x4e30fdee #xc7a444a3)
-  (fftw_codelet_t1fuv_8_avx 0 #x11048 #x11048 #x0 #xfb1ad419 #xad07f5df #xe73f6263 #x36d3f0fd)
-  (fftw_rdft_generic_register 0 #x11048 #x11048 #x0 #xc26ca054 #xa70b660f #x7aaf14e2 #x83376dc5)
-  (fftw_codelet_r2cb_128 2 #x11bdd #x11bdd #x0 #x9fb6ca74 #x0b794c10 #xb7cd3bbd #xb7eef53b)
-  (fftw_codelet_t1fuv_3_avx 0 #x11bdd #x11bdd #x0 #xd1509a60 #x2b9d0583 #xe430dedd #x0bc65a61)
-  (fftw_codelet_hb_3 0 #x10048 #x10048 #x0 #x40ab6782 #xb65a2fdd #x73dd1a9e #x0f6fcd78)
+  (fftw_codelet_r2cf_5 0 #x31bff #x31bff #x0 #x22ab6312 #x147f521c #x21efb0c8 #xd44a5d35)
+  (fftw_rdft_nop_register 0 #x30bff #x30bff #x0 #xf09aa414 #x99ea9141 #x81a4ce91 #x407c594f)
+  (fftw_rdft2_nop_register 0 #x11bdd #x11bdd #x0 #xce71d37a #x4c190203 #x866c7f50 #x5cd1caf6)
+  (fftw_codelet_r2cf_2 2 #x31bff #x31bff #x0 #x5c2d9c92 #x1b84cbe1 #x3cea7744 #x1ea22fd3)
+  (fftw_codelet_r2cf_3 0 #x11bdd #x11bdd #x0 #xaa6678d3 #xb5c9a722 #xe558733c #xe1ea7921)
+  (fftw_dft_generic_register 0 #x31bff #x31bff #x0 #x63703094 #x0ae238b2 #xddb2c581 #x2d02ac1f)
   (fftw_codelet_t1fuv_3_avx 0 #x31bff #x31bff #x0 #xd1509a60 #x2b9d0583 #xe430dedd #x0bc65a61)
-  (fftw_rdft2_rdft_register 0 #x1040 #x11048 #x0 #x40ae335d #x403dd6ea #x90390690 #x4395107e)
-  (TIMEOUT 0 #x1040 #x1040 #x162 #x3276648e #x71acce52 #xa5d4cfd2 #x115c5b96)
-  (TIMEOUT 0 #x1040 #x1040 #x170 #x752e66f9 #x85c116af #x47cadc0b #x101a5d1b)
-  (fftw_rdft_vrank_geq1_register 0 #x11048 #x11048 #x0 #x5e59faac #xae76c164 #xcd290364 #x4e084123)
-  (fftw_rdft2_nop_register 0 #x11bdd #x11bdd #x0 #x3c7b0252 #x39e46948 #x5d7fdb9a #xaab00b76)
-  (fftw_rdft2_rdft_register 0 #x1040 #x11048 #x0 #x716e8de3 #x298e0720 #x3bcab40a #x0cddba3e)
-  (fftw_codelet_hb_3 0 #x10048 #x10048 #x0 #x3ff6ea44 #x94e71b2e #x7c39c788 #x0e1a62bb)
+  (fftw_codelet_t1fuv_5_avx 0 #x31bff #x31bff #x0 #x953e484d #x57854c7c #x284ae731 #xc014cb22)
+  (fftw_dft_vrank_geq1_register 0 #x11bdd #x11bdd #x0 #xef7f3bce #x6f956392 #x0f155687 #x20f6fad4)
+  (fftw_rdft2_rdft_register 0 #x213e7 #x31bff #x0 #xb935c98d #x47591275 #x7a611a5e #x330f9b8f)
+  (fftw_codelet_r2cf_128 2 #x31bff #x31bff #x0 #x8def1726 #xd369a991 #xe95ce062 #x6626e530)
+  (fftw_rdft2_rdft_register 0 #x213e7 #x31bff #x0 #x6db72985 #x12b56aa8 #x79a8de33 #x264f7615)
   (fftw_dft_generic_register 0 #x11bdd #x11bdd #x0 #x63703094 #x0ae238b2 #xddb2c581 #x2d02ac1f)
-  (TIMEOUT 0 #x1040 #x1040 #x170 #xee18e9a8 #x12403891 #xb2b082c5 #x37fb4073)
-  (fftw_rdft_rank0_register 0 #x11048 #x11048 #x0 #x8cfaa81d #xf31ff0f2 #x0b83c81b #xc77514e0)
-  (TIMEOUT 0 #x1040 #x11048 #x170 #xee863c64 #x2fb12a35 #xc725e0db #x516a3243)
+  (fftw_rdft2_nop_register 0 #x31bff #x31bff #x0 #x9dab3af7 #xab5b5500 #xa7713f47 #x9a07d5a6)
+  (fftw_dft_thr_vrank_geq1_register 0 #x31bff #x31bff #x0 #xba62642e #x747e2485 #x882d27d7 #xd9778e79)
+  (fftw_codelet_r2cf_4 2 #x11bdd #x11bdd #x0 #x884f4084 #xa8f0d98b #xdd538409 #x0615f15d)
+  (fftw_codelet_n1bv_13_avx 0 #x31bff #x31bff #x0 #xf030f1b0 #x699ad269 #x62424268 #xcc8f7823)
   (fftw_dft_vrank_geq1_register 0 #x31bff #x31bff #x0 #xa499d007 #x3e6f3d74 #x4ccec119 #xdfb55377)
-  (fftw_codelet_r2cb_64 2 #x11bdd #x11bdd #x0 #xc9774fc6 #x1e417793 #x15993cf3 #xee4c6c89)
-  (fftw_rdft_vrank_geq1_register 0 #x10048 #x10048 #x0 #x4cbb4f09 #xbf2681c9 #xd37606e5 #x999dbd1b)
-  (fftw_rdft2_nop_register 0 #x11048 #x11048 #x0 #x59af5b6b #x8150fce7 #xf93e62dd #xea3d1e1d)
-  (fftw_rdft2_rdft_register 0 #x1040 #x11048 #x0 #x3062c27c #x18b0fc95 #x1403f6a0 #x7d9f1aa4)
-  (fftw_codelet_hf_3 0 #x11048 #x11048 #x0 #x548bc4f4 #xeea6158c #x00e18419 #x06a7e9fc)
-  (TIMEOUT 0 #x1040 #x11048 #x170 #x3213f2b2 #x6a767ef9 #x5e03ca05 #x08a77a3c)
-  (fftw_dft_generic_register 0 #x11bdd #x11bdd #x0 #xe7cb2713 #x0529cbae #xc1f6292f #x7d4c31cd)
-  (fftw_codelet_r2cb_128 2 #x31bff #x31bff #x0 #x8f5dd72e #x969591b5 #xddf07ee3 #x79dffabf)
-  (fftw_codelet_t2bv_4_avx 0 #x10048 #x10048 #x0 #x17cc6c7a #xdb188885 #x925e3bc9 #x8642f958)
-  (fftw_rdft_vrank_geq1_register 1 #x10048 #x10048 #x0 #x95f87c15 #x39540a71 #xca5faaa2 #x9118553b)
-  (fftw_dft_vrank_geq1_register 0 #x11bdd #x11bdd #x0 #x521d1743 #x7c4721c7 #x5f8eeb8f #x4bce57e1)
-  (fftw_rdft_generic_register 1 #x10048 #x10048 #x0 #x995d4038 #x98a7ca96 #xac02fc35 #x35959497)
-  (fftw_codelet_n2fv_32_avx 0 #x11048 #x11048 #x0 #xc85085eb #xafed2b5a #x74798d45 #x2d49f6ea)
-  (fftw_dft_vrank_geq1_register 0 #x11048 #x11048 #x0 #xacda8edb #x33bdba52 #x5f562186 #x68c0500c)
-  (TIMEOUT 0 #x1040 #x1040 #x170 #xafb38004 #x2c8be07b #x4a485341 #xb0a17dd6)
-  (fftw_codelet_t1buv_3_avx 0 #x11048 #x11048 #x0 #xb3b9aa19 #x4b1ab5f6 #xbcb1aebb #x69879cc8)
-  (fftw_codelet_r2cfII_4 2 #x11048 #x11048 #x0 #x715ec4ed #x414d4d99 #xcee5168e #x20a7a21a)
-  (fftw_codelet_n1fv_128_avx 0 #x11048 #x11048 #x0 #xee18e9a8 #x12403891 #xb2b082c5 #x37fb4073)
-  (fftw_rdft_nop_register 0 #x10048 #x10048 #x0 #x114f3dc2 #xbf1f951b #x42acea82 #x123fd938)
+  (fftw_codelet_r2cb_64 2 #x31bff #x31bff #x0 #xc9774fc6 #x1e417793 #x15993cf3 #xee4c6c89)
+  (fftw_rdft_nop_register 0 #x30bff #x30bff #x0 #xd0702255 #xe76a9ab3 #x5398ff07 #x60ee718e)
+  (fftw_dft_vrank_geq1_register 0 #x11bdd #x11bdd #x0 #xbc5852be #xbc7126eb #xb4212a64 #x74b49bfb)
+  (fftw_rdft2_nop_register 0 #x31bff #x31bff #x0 #xbd54d977 #xa74ce218 #x4e3cdb1e #x866a27d9)
+  (fftw_codelet_n1bv_11_avx 0 #x11bdd #x11bdd #x0 #xdccbad32 #x7f9db36b #xb26023c4 #xa2d2c4fd)
+  (fftw_rdft_generic_register 1 #x10fdd #x10fdd #x0 #xc9e3cb61 #xfda8eb89 #xf69856e2 #xa3af74e4)
+  (fftw_rdft_generic_register 0 #x11bdd #x11bdd #x0 #x61d70d4e #x88af45d4 #x7b91a2b4 #xd0255ae7)
+  (fftw_codelet_r2cb_5 0 #x30bff #x30bff #x0 #x4158e196 #xf986cf1e #x920510f1 #x0c309e10)
+  (fftw_dft_generic_register 0 #x31bff #x31bff #x0 #xe7cb2713 #x0529cbae #xc1f6292f #x7d4c31cd)
+  (fftw_rdft_vrank_geq1_register 0 #x10fdd #x10fdd #x0 #x77c18f43 #xa9b91a7d #x9434e393 #xa5c84fda)
+  (fftw_codelet_hf_3 1 #x31bff #x31bff #x0 #x1566e5af #xa11c08ff #x53b3f133 #x492ee602)
+  (fftw_rdft_generic_register 1 #x30bff #x30bff #x0 #x37887400 #x8c76923b #x34ec4a06 #x2583f437)
+  (fftw_dft_vrank_geq1_register 0 #x31bff #x31bff #x0 #x521d1743 #x7c4721c7 #x5f8eeb8f #x4bce57e1)
+  (fftw_dft_vrank_geq1_register 0 #x31bff #x31bff #x0 #x378b68ed #xd1361090 #x382cefe8 #x72f7834d)
+  (fftw_rdft2_rdft_register 0 #x1040 #x11048 #x0 #xbfde4bf6 #xfb56dc9a #x4e30fdee #xc7a444a3)
+  (fftw_rdft_generic_register 1 #x10bdd #x10bdd #x0 #x995d4038 #x98a7ca96 #xac02fc35 #x35959497)
+  (fftw_rdft2_nop_register 0 #x11bdd #x11bdd #x0 #xebb5237a #xa25858c5 #xfbf63b00 #x831ac065)
+  (fftw_codelet_n2fv_4_sse2 0 #x1040 #x1040 #x0 #x67457c33 #x41330ea1 #x406cb659 #xf3ca716f)
+  (fftw_codelet_t1fuv_5_avx 0 #x11bdd #x11bdd #x0 #x953e484d #x57854c7c #x284ae731 #xc014cb22)
+  (fftw_codelet_r2cb_3 0 #x10bdd #x10bdd #x0 #x6373f212 #x43610235 #x1257e7e9 #xdc415215)
+  (fftw_codelet_r2cb_64 2 #x31bff #x31bff #x0 #xdb32ffda #x4b801940 #x657a1110 #xdc6056ed)
+  (TIMEOUT 0 #x1040 #x11048 #x170 #xee18e9a8 #x12403891 #xb2b082c5 #x37fb4073)
+  (fftw_rdft_nop_register 0 #x31bff #x31bff #x0 #x114f3dc2 #xbf1f951b #x42acea82 #x123fd938)
 )
-- 
2.43.0


From d3180fd1f97e5c980934a103e2dae851d477b957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:13 +0000
Subject: [PATCH 42/87] fix: ssq_stft frequencies are those of the STFT's bins
 also for odd n_fft

---
 ssqueezepy/_ssq_stft.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ssqueezepy/_ssq_stft.py b/ssqueezepy/_ssq_stft.py
index be2ad3d..1c10f7f 100644
--- a/ssqueezepy/_ssq_stft.py
+++ b/ssqueezepy/_ssq_stft.py
@@ -99,7 +99,8 @@ def ssq_stft(x, window=None, n_fft=None, win_len=None, hop_len=1, fs=None, t=Non
         _Sx = Sx
 
     # make `Sfs`
-    Sfs = _make_Sfs(Sx, fs)
+    n_fft = n_fft or min(x.shape[-1]//hop_len, 512)  # same as in `stft`
+    Sfs = _make_Sfs(Sx, fs, n_fft)
     # gamma
     if gamma is None:
         gamma = 10 * (EPS64 if S.is_dtype(Sx, 'complex128') else EPS32)
@@ -247,12 +248,15 @@ def phase_stft(Sx, dSx, Sfs, gamma=None, parallel=None):
     return phase_stft_cpu(Sx, dSx, Sfs, gamma, parallel)
 
 
-def _make_Sfs(Sx, fs):
+def _make_Sfs(Sx, fs, n_fft=None):
     dtype = 'float32' if 'complex64' in str(Sx.dtype) else 'float64'
     n_rows = len(Sx) if Sx.ndim == 2 else Sx.shape[1]
+    fmax = .5*fs
+    if n_fft is not None and n_fft % 2 == 1:
+        fmax *= (n_fft - 1) / n_fft  # no Nyquist bin
     if S.is_tensor(Sx):
-        Sfs = torch.linspace(0, .5*fs, n_rows, device=Sx.device,
+        Sfs = torch.linspace(0, fmax, n_rows, device=Sx.device,
                              dtype=getattr(torch, dtype))
     else:
-        Sfs = np.linspace(0, .5*fs, n_rows, dtype=dtype)
+        Sfs = np.linspace(0, fmax, n_rows, dtype=dtype)
     return Sfs
-- 
2.43.0


From 998ead745e6c8c7bf6fd4c00a1009f3fb542718c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:13 +0000
Subject: [PATCH 43/87] fix: ssq_stft accepts ssq_freqs='linear'

---
 ssqueezepy/_ssq_stft.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ssqueezepy/_ssq_stft.py b/ssqueezepy/_ssq_stft.py
index 1c10f7f..7c89677 100644
--- a/ssqueezepy/_ssq_stft.py
+++ b/ssqueezepy/_ssq_stft.py
@@ -116,7 +116,8 @@ def ssq_stft(x, window=None, n_fft=None, win_len=None, hop_len=1, fs=None, t=Non
         _dSx = dSx
 
     # synchrosqueeze
-    if ssq_freqs is None:
+    if ssq_freqs is None or (isinstance(ssq_freqs, str) and
+                             ssq_freqs == 'linear'):
         ssq_freqs = Sfs
     Tx, ssq_freqs = ssqueeze(_Sx, w, squeezing=squeezing, ssq_freqs=ssq_freqs,
                              Sfs=Sfs, fs=fs, flipud=flipud, gamma=gamma,
-- 
2.43.0


From d16a0018d88320020cdf5c6d3b523086c6889881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:16 +0000
Subject: [PATCH 44/87] fix: phase transform is inf, not NaN or
 ZeroDivisionError, where the transform is zero and gamma=0

---
 ssqueezepy/algos.py | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/ssqueezepy/algos.py b/ssqueezepy/algos.py
index 26dbb85..ab6fa5f 100644
--- a/ssqueezepy/algos.py
+++ b/ssqueezepy/algos.py
@@ -715,26 +715,26 @@ def phase_cwt_cpu(Wx, dWx, gamma, parallel=None):
     fn(Wx, dWx, out, gamma)
     return out
 
-@jit(nopython=True, cache=True)
+@jit(nopython=True, cache=True, error_model='numpy')
 def _phase_cwt(Wx, dWx, out, gamma):
     for i in range(Wx.shape[0]):
         for j in range(Wx.shape[1]):
-            if abs(Wx[i, j]) < gamma:
+            A, B = dWx[i, j].real, dWx[i, j].imag
+            C, D = Wx[i, j].real,  Wx[i, j].imag
+            if abs(Wx[i, j]) < gamma or C**2 + D**2 == 0:
                 out[i, j] = np.inf
             else:
-                A, B = dWx[i, j].real, dWx[i, j].imag
-                C, D = Wx[i, j].real,  Wx[i, j].imag
                 out[i, j] = abs((B*C - A*D) / ((C**2 + D**2) * 6.283185307179586))
 
 @jit(nopython=True, cache=True, parallel=True)
 def _phase_cwt_par(Wx, dWx, out, gamma):
     for i in prange(Wx.shape[0]):
         for j in prange(Wx.shape[1]):
-            if abs(Wx[i, j]) < gamma:
+            A, B = dWx[i, j].real, dWx[i, j].imag
+            C, D = Wx[i, j].real,  Wx[i, j].imag
+            if abs(Wx[i, j]) < gamma or C**2 + D**2 == 0:
                 out[i, j] = np.inf
             else:
-                A, B = dWx[i, j].real, dWx[i, j].imag
-                C, D = Wx[i, j].real,  Wx[i, j].imag
                 out[i, j] = abs((B*C - A*D) / ((C**2 + D**2) * 6.283185307179586))
 
 
@@ -789,15 +789,15 @@ def phase_stft_cpu(Wx, dWx, Sfs, gamma, parallel=None):
     fn(Wx, dWx, Sfs, out, gamma)
     return out
 
-@jit(nopython=True, cache=True)
+@jit(nopython=True, cache=True, error_model='numpy')
 def _phase_stft(Wx, dWx, Sfs, out, gamma):
     for i in range(Wx.shape[0]):
         for j in range(Wx.shape[1]):
-            if abs(Wx[i, j]) < gamma:
+            A, B = dWx[i, j].real, dWx[i, j].imag
+            C, D = Wx[i, j].real,  Wx[i, j].imag
+            if abs(Wx[i, j]) < gamma or C**2 + D**2 == 0:
                 out[i, j] = np.inf
             else:
-                A, B = dWx[i, j].real, dWx[i, j].imag
-                C, D = Wx[i, j].real,  Wx[i, j].imag
                 out[i, j] = abs(
                     Sfs[i] - (B*C - A*D) / ((C**2 + D**2) * 6.283185307179586))
 
@@ -805,11 +805,11 @@ def _phase_stft(Wx, dWx, Sfs, out, gamma):
 def _phase_stft_par(Wx, dWx, Sfs, out, gamma):
     for i in prange(Wx.shape[0]):
         for j in prange(Wx.shape[1]):
-            if abs(Wx[i, j]) < gamma:
+            A, B = dWx[i, j].real, dWx[i, j].imag
+            C, D = Wx[i, j].real,  Wx[i, j].imag
+            if abs(Wx[i, j]) < gamma or C**2 + D**2 == 0:
                 out[i, j] = np.inf
             else:
-                A, B = dWx[i, j].real, dWx[i, j].imag
-                C, D = Wx[i, j].real,  Wx[i, j].imag
                 out[i, j] = abs(
                     Sfs[i] - (B*C - A*D) / ((C**2 + D**2) * 6.283185307179586))
 
@@ -854,7 +854,7 @@ def phase_stft_gpu(Wx, dWx, Sfs, gamma):
     return out
 
 
-@jit(nopython=True, cache=True)
+@jit(nopython=True, cache=True, error_model='numpy')
 def _ssq_cwt_log_piecewise(Wx, dWx, out, const, gamma, vlmin0, vlmin1,
                            dvl0, dvl1, idx1, omax, flipud=False):
     for i in range(Wx.shape[0]):
@@ -897,7 +897,7 @@ def _ssq_cwt_log_piecewise_par(Wx, dWx, out, const, gamma, vlmin0, vlmin1,
                 out[k, j] += Wx[i, j] * const[i]
 
 
-@jit(nopython=True, cache=True)
+@jit(nopython=True, cache=True, error_model='numpy')
 def _ssq_cwt_log(Wx, dWx, out, const, gamma, vlmin, dvl, omax, flipud=False):
     for i in range(Wx.shape[0]):
         for j in range(Wx.shape[1]):
@@ -930,7 +930,7 @@ def _ssq_cwt_log_par(Wx, dWx, out, const, gamma, vlmin, dvl, omax, flipud=False)
                 out[k, j] += Wx[i, j] * const[i]
 
 
-@jit(nopython=True, cache=True)
+@jit(nopython=True, cache=True, error_model='numpy')
 def _ssq_cwt_lin(Wx, dWx, out, const, gamma, vmin, dv, omax, flipud=False):
     for i in range(Wx.shape[0]):
         for j in range(Wx.shape[1]):
@@ -963,7 +963,7 @@ def _ssq_cwt_lin_par(Wx, dWx, out, const, gamma, vmin, dv, omax, flipud=False):
                 out[k, j] += Wx[i, j] * const[i]
 
 
-@jit(nopython=True, cache=True)
+@jit(nopython=True, cache=True, error_model='numpy')
 def _ssq_stft(Wx, dWx, Sfs, out, const, gamma, vmin, dv, omax, flipud=False):
     for i in range(Wx.shape[0]):
         for j in range(Wx.shape[1]):
-- 
2.43.0


From a42dd08d1dcf884bf53ca311a150305b6009e3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:58 +0000
Subject: [PATCH 45/87] fix: ssq kernels no longer write out of bounds upon
 negative frequencies or invalid ssq_freqs

---
 ssqueezepy/algos.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/ssqueezepy/algos.py b/ssqueezepy/algos.py
index ab6fa5f..52e61ed 100644
--- a/ssqueezepy/algos.py
+++ b/ssqueezepy/algos.py
@@ -83,6 +83,9 @@ def _process_ssq_params(Wx, w_or_dWx, ssq_freqs, const, logscale, flipud, out,
         _, params = _get_params_find_closest_log(ssq_freqs)
     else:
         dv = float(ssq_freqs[1] - ssq_freqs[0])
+        if not np.isfinite(float(ssq_freqs[0]) + dv):
+            raise ValueError("frequencies must be finite (got %s, %s, ...)" % (
+                ssq_freqs[0], ssq_freqs[1]))
         dv = _ensure_nonzero_nonnegative('dv', dv)
         params = dict(vmin=float(ssq_freqs[0]), dv=dv)
 
@@ -173,7 +176,7 @@ def indexed_sum_onfly(Wx, w, ssq_freqs, const=1, logscale=False, flipud=False,
 def _indexed_sum_log(Wx, w, out, const, vlmin, dvl, omax, flipud=False):
     for i in range(Wx.shape[0]):
         for j in range(Wx.shape[1]):
-            if not np.isfinite(w[i, j]):
+            if not (w[i, j] >= 0 and np.isfinite(w[i, j])):
                 continue
             k = int(min(round(max((np.log2(w[i, j]) - vlmin) / dvl, 0)), omax))
             if flipud:
@@ -184,7 +187,7 @@ def _indexed_sum_log(Wx, w, out, const, vlmin, dvl, omax, flipud=False):
 def _indexed_sum_log_par(Wx, w, out, const, vlmin, dvl, omax, flipud=False):
     for j in prange(Wx.shape[1]):
         for i in range(Wx.shape[0]):
-            if not np.isfinite(w[i, j]):
+            if not (w[i, j] >= 0 and np.isfinite(w[i, j])):
                 continue
             k = int(min(round(max((np.log2(w[i, j]) - vlmin) / dvl, 0)), omax))
             if flipud:
@@ -197,7 +200,7 @@ def _indexed_sum_log_piecewise(Wx, w, out, const, vlmin0, vlmin1, dvl0, dvl1,
                                idx1, omax, flipud=False):
     for i in range(Wx.shape[0]):
         for j in range(Wx.shape[1]):
-            if not np.isfinite(w[i, j]):
+            if not (w[i, j] >= 0 and np.isfinite(w[i, j])):
                 continue
             wl = np.log2(w[i, j])
             if wl > vlmin1:
@@ -215,7 +218,7 @@ def _indexed_sum_log_piecewise_par(Wx, w, out, const, vlmin0, vlmin1, dvl0, dvl1
     # of `vlmin`, `dvl`, and `idx`, which generalizes to any number of transitions
     for j in prange(Wx.shape[1]):
         for i in range(Wx.shape[0]):
-            if not np.isfinite(w[i, j]):
+            if not (w[i, j] >= 0 and np.isfinite(w[i, j])):
                 continue
             wl = np.log2(w[i, j])
             if wl > vlmin1:
@@ -354,6 +357,9 @@ def _ensure_nonzero_nonnegative(name, x, silent=False):
 
 
 def _get_params_find_closest_log(v):
+    if not (np.min(v) > 0 and np.isfinite(np.max(v))):
+        raise ValueError("log-scaled frequencies must be positive and finite "
+                         "(got min=%s, max=%s)" % (np.min(v), np.max(v)))
     idx = logscale_transition_idx(v)
     vlmin = float(np.log2(v[0]))
 
-- 
2.43.0


From 9cf1ec0ac62f2da66fa3cfbbbd15d6b82d4040f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:02 +0000
Subject: [PATCH 46/87] fix: Wavelet.Psih recomputes its cache after a failed
 computation, instead of returning None

---
 ssqueezepy/wavelets.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ssqueezepy/wavelets.py b/ssqueezepy/wavelets.py
index a6bc1c9..f377c0e 100644
--- a/ssqueezepy/wavelets.py
+++ b/ssqueezepy/wavelets.py
@@ -152,6 +152,7 @@ class Wavelet():
         # first empty existing to free memory
         if getattr(self, '_Psih', None) is not None:
             self._Psih = None
+            self._Psih_N = None  # in case below errors
             gc.collect()
 
         self._Psih = self(scale=scale, N=N, nohalf=nohalf)
-- 
2.43.0


From e31ec9442d2e5dd8705febee6c31b0a0017a8bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 47/87] fix: distribution of float32 scales is inferred also
 after casting to float64 by the wavelet's dtype

---
 ssqueezepy/utils/cwt_utils.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ssqueezepy/utils/cwt_utils.py b/ssqueezepy/utils/cwt_utils.py
index 30707d1..1b12d7a 100644
--- a/ssqueezepy/utils/cwt_utils.py
+++ b/ssqueezepy/utils/cwt_utils.py
@@ -290,6 +290,8 @@ def infer_scaletype(scales):
         nv = None
 
     elif logscale_transition_idx(scales_in) is None:
+        if scales_in.dtype == np.float64 and _is_float32_valued(scales_in):
+            return infer_scaletype(scales_in.astype('float32'))
         raise ValueError("could not infer `scaletype` from `scales`; "
                          "`scales` array must be linear or exponential. "
                          "(got diff(scales)=%s..." % np.diff(scales, axis=0)[:4])
@@ -385,7 +387,8 @@ def logscale_transition_idx(scales):
     # every other value must be zero, assert it is so
     scales_diff2[idx - 2] = 0
 
-    th = 1e-14 if scales.dtype == np.float64 else 1e-6
+    th = (1e-14 if scales.dtype == np.float64 and not _is_float32_valued(scales)
+          else 1e-6)
 
     if not np.any(diff2_max > 100*np.abs(scales_diff2).mean()):
         # everything's zero, i.e. no transition detected
@@ -397,6 +400,11 @@ def logscale_transition_idx(scales):
         return idx
 
 
+def _is_float32_valued(scales):
+    """Whether `scales` were cast from float32, thus have its float error."""
+    return bool(np.all(scales == scales.astype('float32')))
+
+
 def nv_from_scales(scales):
     """Infers `nv` from `scales` assuming `2**` scales; returns array
     of length `len(scales)` if `scaletype = 'log-piecewise'`.
-- 
2.43.0


From 43b4f79f3dc6255cf688df525fecccbb6e9b04f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:33 +0000
Subject: [PATCH 48/87] fix: log-piecewise scales can be made when they're too
 few to be downsampled

---
 ssqueezepy/utils/cwt_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ssqueezepy/utils/cwt_utils.py b/ssqueezepy/utils/cwt_utils.py
index 1b12d7a..3e3e689 100644
--- a/ssqueezepy/utils/cwt_utils.py
+++ b/ssqueezepy/utils/cwt_utils.py
@@ -562,6 +562,8 @@ def find_downsampling_scale(wavelet, scales, span=5, tol=3, method='sum',
     Psih = Psih[:, :Psih.shape[1]//2]
     n_scales = len(Psih)
     n_groups = n_scales - span - 1
+    if n_groups < 1:
+        return None  # too few scales to compare
     psihs_peaks = None
 
     for i in range(n_groups):
-- 
2.43.0


From 410d2258a713147f6ee63a876bb60510dfdfe3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:00 +0000
Subject: [PATCH 49/87] fix: morsewave raised for negative frequencies

---
 ssqueezepy/_gmw.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ssqueezepy/_gmw.py b/ssqueezepy/_gmw.py
index afa4419..34acbcb 100644
--- a/ssqueezepy/_gmw.py
+++ b/ssqueezepy/_gmw.py
@@ -487,8 +487,8 @@ def morsewave(N, freqs, gamma=3, beta=60, K=1, norm='bandpass'):
         psif[:, n:n+1, :], psi[:, n:n+1, :] = _morsewave1(N, abs(f), gamma, beta,
                                                           K, norm)
         if f < 0:
-            psi[:,   n:n+1, :] = psi[:, n, :].conj()
-            psif[1:, n:n+1, :] = np.flip(psif[1:, n, :], axis=0)
+            psi[:,   n] = psi[:, n].conj()
+            psif[1:, n] = np.flip(psif[1:, n], axis=0)
 
     psi = psi.squeeze()
     psif = psif.squeeze()
-- 
2.43.0


From d3685eadaa1c07bfdd7ee2890a9956393bfc410c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:00 +0000
Subject: [PATCH 50/87] fix: morsewave, morsefreq divided by zero for beta=0
 instead of using the half-power point

---
 ssqueezepy/_gmw.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ssqueezepy/_gmw.py b/ssqueezepy/_gmw.py
index 34acbcb..6f09c8a 100644
--- a/ssqueezepy/_gmw.py
+++ b/ssqueezepy/_gmw.py
@@ -649,7 +649,8 @@ def morsefreq(gamma, beta, n_out=1):
         v1.6.9, http://www.jmlilly.net/jmlsoft.html
         https://github.com/jonathanlilly/jLab/blob/master/jWavelet/morsefreq.m
     """
-    wm = (beta / gamma)**(1 / gamma)
+    # half-power point if `beta == 0`
+    wm = ((beta / gamma) if beta != 0 else np.log(2))**(1 / gamma)
 
     if n_out > 1:
         we = (1 / 2**(1 / gamma)) * (gamma_fn((2*beta + 2) / gamma) /
-- 
2.43.0


From efb2f8c06411af98ecaba802c8b8fd7a5903e8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:00 +0000
Subject: [PATCH 51/87] fix: morsefreq was NaN for large beta/gamma due to
 overflow of the gamma function

---
 ssqueezepy/_gmw.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ssqueezepy/_gmw.py b/ssqueezepy/_gmw.py
index 6f09c8a..1f905bf 100644
--- a/ssqueezepy/_gmw.py
+++ b/ssqueezepy/_gmw.py
@@ -653,11 +653,11 @@ def morsefreq(gamma, beta, n_out=1):
     wm = ((beta / gamma) if beta != 0 else np.log(2))**(1 / gamma)
 
     if n_out > 1:
-        we = (1 / 2**(1 / gamma)) * (gamma_fn((2*beta + 2) / gamma) /
-                                     gamma_fn((2*beta + 1) / gamma))
+        we = (1 / 2**(1 / gamma)) * np.exp(gammaln_fn((2*beta + 2) / gamma) -
+                                           gammaln_fn((2*beta + 1) / gamma))
     if n_out > 2:
-        wi = (gamma_fn((beta + 2) / gamma) /
-              gamma_fn((beta + 1) / gamma))
+        wi = np.exp(gammaln_fn((beta + 2) / gamma) -
+                    gammaln_fn((beta + 1) / gamma))
     if n_out > 3:
         k2 = _morsemom(2, gamma, beta, n_out=3)[-1]
         k3 = _morsemom(3, gamma, beta, n_out=3)[-1]
-- 
2.43.0


From 353357e4476697bdf7fa40643b362bab5c9e4eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:33 +0000
Subject: [PATCH 52/87] fix: energy-normed higher-order GMWs were zero or NaN
 for large beta/gamma

---
 ssqueezepy/_gmw.py | 38 ++++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/ssqueezepy/_gmw.py b/ssqueezepy/_gmw.py
index 1f905bf..5baebc7 100644
--- a/ssqueezepy/_gmw.py
+++ b/ssqueezepy/_gmw.py
@@ -343,7 +343,8 @@ def _gmw_l2_k(w, gamma, beta, wc, k_consts):
     w_nonneg = (w >= 0)
     w = w * w_nonneg  # zero negative `w` to avoid nans
 
-    E = np.exp(beta * np.log(w) - w**gamma)
+    E = np.exp(- beta * np.log(wc) + wc**gamma
+            + beta * np.log(w)  - w**gamma)
     w = w * (E > 0)  # avoid overflows in `C` where it's multiplied by zero
 
     C = np.zeros(w.shape, dtype=w.dtype)
@@ -356,7 +357,8 @@ def _gmw_l2_k_par(w, gamma, beta, wc, k_consts):
     w_nonneg = (w >= 0)
     w = w * w_nonneg  # zero negative `w` to avoid nans
 
-    E = np.exp(beta * np.log(w) - w**gamma)
+    E = np.exp(- beta * np.log(wc) + wc**gamma
+            + beta * np.log(w)  - w**gamma)
     w = w * (E > 0)  # avoid overflows in `C` where it's multiplied by zero
 
     C = np.zeros(w.shape, dtype=w.dtype)
@@ -368,7 +370,8 @@ def _gmw_l2_k_gpu(w, gamma, beta, wc, k_consts):
     w_nonneg = (w >= 0)
     w = w * w_nonneg  # zero negative `w` to avoid nans
 
-    E = torch.exp(beta * torch.log(w) - w**gamma)
+    E = torch.exp(- beta * torch.log(wc) + wc**gamma
+               + beta * torch.log(w)  - w**gamma)
     w = w * (E > 0)  # avoid overflows in `C` where it's multiplied by zero
 
     C = w.new_zeros(w.shape)
@@ -391,8 +394,7 @@ def _gmw_k_constants(gamma, beta, k, norm='bandpass', dtype='float64'):
         coeff = np.sqrt(np.exp(gammaln_fn(r) + gammaln_fn(k + 1) -
                                gammaln_fn(k + r)))
     elif norm == 'energy':
-        coeff = np.sqrt(2*pi * gamma * (2**r) *
-                        np.exp(gammaln_fn(k + 1) - gammaln_fn(k + r)))
+        coeff = _gmw_energy_coeff(gamma, beta, k)
 
     # compute Laguerre polynomial constants
     L_consts = np.zeros(k + 1, dtype=dtype)
@@ -408,6 +410,18 @@ def _gmw_k_constants(gamma, beta, k, norm='bandpass', dtype='float64'):
     return k_consts
 
 
+def _gmw_energy_coeff(gamma, beta, k):
+    """Amplitude of `energy`-normed GMW relative to `w**beta * exp(-w**gamma)`
+    scaled to have unit peak. Neither overflows for large `beta`, unlike
+    the former's and latter's original values.
+    """
+    r = (2 * beta + 1) / gamma
+    wc = morsefreq(gamma, beta)
+    return np.exp(.5 * (np.log(2*pi * gamma) + r * np.log(2) +
+                        gammaln_fn(k + 1) - gammaln_fn(k + r))
+                  + beta * np.log(wc) - wc**gamma)
+
+
 #### General order wavelets (any `K`) ########################################
 def morsewave(N, freqs, gamma=3, beta=60, K=1, norm='bandpass'):
     """Generalized Morse wavelets of Olhede and Walden (2002).
@@ -507,8 +521,9 @@ def _morsewave1(N, f, gamma, beta, K, norm):
             if beta == 0:
                 psizero = np.exp(-w**gamma)
             else:
-                # w**beta * exp(-w**gamma)
-                psizero = np.exp(beta * np.log(w) - w**gamma)
+                # w**beta * exp(-w**gamma), scaled to unit peak
+                psizero = np.exp(- beta * np.log(fo) + fo**gamma
+                                 + beta * np.log(w)  - w**gamma)
         else:
             if beta == 0:
                 psizero = 2 * np.exp(-w**gamma)
@@ -553,7 +568,10 @@ def _morsewave_first_family(fact, N, K, gamma, beta, w, psizero, norm):
     for k in range(K):
         # Log of gamma function much better ... trick from Maltab's ``beta'`
         if norm == 'energy':
-            A = morseafun(gamma, beta, k + 1, norm='energy')
+            if beta == 0:
+                A = morseafun(gamma, beta, k + 1, norm='energy')
+            else:
+                A = _gmw_energy_coeff(gamma, beta, k)
             coeff = np.sqrt(1. / fact) * A
         elif norm == 'bandpass':
             if beta == 0:
@@ -589,8 +607,8 @@ def morseafun(gamma, beta, k=1, norm='bandpass'):
     """
     if norm == 'energy':
         r = (2*beta + 1) / gamma
-        A = np.sqrt(2*pi * gamma * (2**r) *
-                    np.exp(gammaln_fn(k) - gammaln_fn(k + r - 1)))
+        A = np.exp(.5 * (np.log(2*pi * gamma) + r * np.log(2) +
+                         gammaln_fn(k) - gammaln_fn(k + r - 1)))
     elif norm == 'bandpass':
         if beta == 0:
             A = 2.
-- 
2.43.0


From 93367e8575a6d9d9ae854f4f5807ba92f3d11762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:45 +0000
Subject: [PATCH 53/87] fix: gmw, compute_gmw used the unsupported float32 with
 norm='energy' by default

---
 ssqueezepy/_gmw.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ssqueezepy/_gmw.py b/ssqueezepy/_gmw.py
index 5baebc7..0a93343 100644
--- a/ssqueezepy/_gmw.py
+++ b/ssqueezepy/_gmw.py
@@ -122,6 +122,8 @@ def gmw(gamma=None, beta=None, norm=None, order=None, centered_scale=None,
     if norm == 'energy'and dtype in ('float32', np.float32):
         raise ValueError("`norm='energy'` w/ `dtype='float32'` is unsupported; "
                          "use 'float64' instead.")
+    elif norm == 'energy' and dtype is None:
+        kw['dtype'] = 'float64'
 
     l1_fn, l2_fn = ((gmw_l1, gmw_l2) if k == 0 else
                     (gmw_l1_k, gmw_l2_k))
-- 
2.43.0


From 727fe97f3863ddfebb14e7b1bb55868340fd093b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:59 +0000
Subject: [PATCH 54/87] fix: FFT methods accepted invalid patience

---
 ssqueezepy/utils/fft_utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ssqueezepy/utils/fft_utils.py b/ssqueezepy/utils/fft_utils.py
index 2f42365..afcff63 100644
--- a/ssqueezepy/utils/fft_utils.py
+++ b/ssqueezepy/utils/fft_utils.py
@@ -357,9 +357,10 @@ class FFT():
         if not isinstance(patience, (int, tuple)):
             raise TypeError("`patience` must be int or tuple "
                             "(got %s)" % type(patience))
-        elif isinstance(patience, int):
-            from .common import assert_is_one_of
-            assert_is_one_of(patience, 'patience', (0, 1, 2))
+        if isinstance(patience, tuple):
+            patience = patience[0]
+        from .common import assert_is_one_of
+        assert_is_one_of(patience, 'patience', (0, 1, 2))
 
     def _process_patience(self, patience):
         patience = patience if (patience is not None) else self.patience
-- 
2.43.0


From 4db5034d968d24ed19630908e8972556ca3cf11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:17 +0000
Subject: [PATCH 55/87] fix: gmw order set in configs.ini or passed as float
 raised TypeError

---
 ssqueezepy/_gmw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssqueezepy/_gmw.py b/ssqueezepy/_gmw.py
index 0a93343..b744cd2 100644
--- a/ssqueezepy/_gmw.py
+++ b/ssqueezepy/_gmw.py
@@ -118,7 +118,7 @@ def gmw(gamma=None, beta=None, norm=None, order=None, centered_scale=None,
     _check_args(gamma=gamma, beta=beta, norm=norm, order=order)
     kw = gdefaults('_gmw.gmw', gamma=gamma, beta=beta, norm=norm, order=order,
                    centered_scale=centered_scale, dtype=dtype, as_dict=True)
-    norm, k = kw.pop('norm'), kw.pop('order')
+    norm, k = kw.pop('norm'), int(kw.pop('order'))
     if norm == 'energy'and dtype in ('float32', np.float32):
         raise ValueError("`norm='energy'` w/ `dtype='float32'` is unsupported; "
                          "use 'float64' instead.")
-- 
2.43.0


From a51aa105e73fd60d983db4bf38990df04195f22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:13 +0000
Subject: [PATCH 56/87] fix: FFT wisdom files that can't be read or written
 (e.g. installation owned by another user) made transforms fail

---
 ssqueezepy/utils/fft_utils.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/ssqueezepy/utils/fft_utils.py b/ssqueezepy/utils/fft_utils.py
index afcff63..54341d6 100644
--- a/ssqueezepy/utils/fft_utils.py
+++ b/ssqueezepy/utils/fft_utils.py
@@ -5,7 +5,7 @@ from scipy.fft import fftshift as sfftshift, ifftshift as sifftshift
 from scipy.fft import fft as sfft, rfft as srfft, ifft as sifft, irfft as sirfft
 from pathlib import Path
 from . import backend as S
-from ..configs import IS_PARALLEL
+from ..configs import IS_PARALLEL, WARN
 
 try:
     from torch.fft import (fft as tfft, rfft as trfft,
@@ -325,8 +325,11 @@ class FFT():
         for name in ('wisdom32', 'wisdom64'):
             path = getattr(self, f"_{name}_path")
             if Path(path).is_file():
-                with open(path, 'rb') as f:
-                    setattr(self, f"_{name}", f.read())
+                try:
+                    with open(path, 'rb') as f:
+                        setattr(self, f"_{name}", f.read())
+                except OSError as e:
+                    WARN(f"couldn't load FFT wisdom ({e})")
         pyfftw.import_wisdom((self._wisdom64, self._wisdom32, b''))
 
     def save_wisdom(self):
@@ -334,8 +337,11 @@ class FFT():
         self._wisdom64, self._wisdom32, _ = pyfftw.export_wisdom()
         for name in ('wisdom32', 'wisdom64'):
             path = getattr(self, f"_{name}_path")
-            with open(path, 'wb') as f:
-                f.write(getattr(self, f"_{name}"))
+            try:
+                with open(path, 'wb') as f:
+                    f.write(getattr(self, f"_{name}"))
+            except OSError as e:
+                WARN(f"couldn't save FFT wisdom ({e})")
 
     def _validate_input(self, x, axis, real, patience, inverse):
         """Assert is single/double precision and is 1D/2D."""
-- 
2.43.0


From 20264aac93c215bd946ac787942c3558ac36419c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:24 +0000
Subject: [PATCH 57/87] fix: corrupted FFT wisdom could abort the process at
 import

---
 ssqueezepy/utils/fft_utils.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/ssqueezepy/utils/fft_utils.py b/ssqueezepy/utils/fft_utils.py
index 54341d6..ff48280 100644
--- a/ssqueezepy/utils/fft_utils.py
+++ b/ssqueezepy/utils/fft_utils.py
@@ -1,6 +1,7 @@
 # -*- coding: utf-8 -*-
 import numpy as np
 import multiprocessing
+import re
 from scipy.fft import fftshift as sfftshift, ifftshift as sifftshift
 from scipy.fft import fft as sfft, rfft as srfft, ifft as sifft, irfft as sirfft
 from pathlib import Path
@@ -23,6 +24,13 @@ except ImportError:
 
 UTILS_DIR = Path(__file__).parent
 
+# FFTW aborts the process if imported wisdom's planner flags are out of range
+# (third to fifth fields; 20, 20, and 9 bits), e.g. if file is corrupted
+WISDOM_FORMAT = re.compile(
+    rb'\(fftw-\S+ \S+( #x[\da-f]{1,8}){4}\n'
+    rb'(  \(\S+ \d{1,9} #x[\da-f]{1,5} #x[\da-f]{1,5} #x1?[\da-f]{1,2}'
+    rb'( #x[\da-f]{1,8}){4}\)\n)*\)\n')
+
 __all__ = [
     'fft',
     'rfft',
@@ -327,7 +335,9 @@ class FFT():
             if Path(path).is_file():
                 try:
                     with open(path, 'rb') as f:
-                        setattr(self, f"_{name}", f.read())
+                        wisdom = f.read()
+                    if WISDOM_FORMAT.fullmatch(wisdom):
+                        setattr(self, f"_{name}", wisdom)
                 except OSError as e:
                     WARN(f"couldn't load FFT wisdom ({e})")
         pyfftw.import_wisdom((self._wisdom64, self._wisdom32, b''))
-- 
2.43.0


From 69902d871ba5cbdc3d93dbe66142e467cb19f1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:16 +0000
Subject: [PATCH 58/87] fix: extract_ridges failed with 2D scales upon
 get_params=True, and for one-row transforms

---
 ssqueezepy/ridge_extraction.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ssqueezepy/ridge_extraction.py b/ssqueezepy/ridge_extraction.py
index ad11e42..80f83aa 100644
--- a/ssqueezepy/ridge_extraction.py
+++ b/ssqueezepy/ridge_extraction.py
@@ -87,7 +87,7 @@ def extract_ridges(Tf, scales, penalty=2., n_ridges=1, bw=15, transform='cwt',
         # subtract.outer(A, B) = [[A[0] - B[0], A[0] - B[1], ...],
         #                         [A[1] - B[0], A[1] - B[1], ...],]
         dist_matrix = penalty * np.subtract.outer(scales, scales)**2
-        return dist_matrix.squeeze()
+        return dist_matrix
 
     def fw_bw_ridge_tracking(energy_to_track, penalty_matrix, eps):
         """Calculates acummulated penalty in forward (t=end...0) followed by
@@ -115,9 +115,9 @@ def extract_ridges(Tf, scales, penalty=2., n_ridges=1, bw=15, transform='cwt',
     scales, eps, penalty = [np.asarray(x, dtype=dtype)
                             for x in (scales, eps, penalty)]
 
-    scales_orig = scales.copy()
-    scales = (np.log(scales) if transform == 'cwt' else
-              scales).squeeze()
+    scales_orig = scales.reshape(-1)
+    scales = (np.log(scales_orig) if transform == 'cwt' else
+              scales_orig)
     energy = np.abs(Tf)**2
     n_timeshifts = Tf.shape[1]
 
-- 
2.43.0


From cca769dde9f5ea395b5aa036bba954a22736b8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:06 +0000
Subject: [PATCH 59/87] fix: cwt with order returned scales of shape (na, 1),
 or not of transform's precision

Scales are documented as [na], and are such for `order=0`.
---
 ssqueezepy/_cwt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssqueezepy/_cwt.py b/ssqueezepy/_cwt.py
index b197a45..d2bcf3d 100644
--- a/ssqueezepy/_cwt.py
+++ b/ssqueezepy/_cwt.py
@@ -618,7 +618,7 @@ def cwt_higher_order(x, wavelet='gmw', order=1, average=None, astensor=True,
         if derivative:
             dWx_all = dWx_all[0]
 
-    scales = kw['scales']
+    scales = out[1]
     if not astensor and S.is_tensor(Wx_all):
         Wx_all, scales, dWx_all = [g.cpu().numpy() if S.is_tensor(g) else g
                                    for g in (Wx_all, scales, dWx_all)]
-- 
2.43.0


From 066eda5620e157a3c3cd5e6b69de48a426e10048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:33 +0000
Subject: [PATCH 60/87] fix: stft with dtype='float64' differentiated float32
 windows in single precision

---
 ssqueezepy/_stft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssqueezepy/_stft.py b/ssqueezepy/_stft.py
index 7e1ad48..af87401 100644
--- a/ssqueezepy/_stft.py
+++ b/ssqueezepy/_stft.py
@@ -294,7 +294,7 @@ def get_window(window, win_len, n_fft=None, derivative=False, dtype=None):
         window = np.pad(window, [pl, pr])
 
     if derivative:
-        wf = fft(window)
+        wf = fft(window.astype('float64'))
         Nw = len(window)
         xi = _xifn(1, Nw)
         if Nw % 2 == 0:
-- 
2.43.0


From df7f3ea0cb5258feb9439586a271cf7d0980928a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:33 +0000
Subject: [PATCH 61/87] fix: scale_to_freq failed with one scale, including the
 supported float

---
 ssqueezepy/experimental.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ssqueezepy/experimental.py b/ssqueezepy/experimental.py
index e6eec3b..255c8f4 100644
--- a/ssqueezepy/experimental.py
+++ b/ssqueezepy/experimental.py
@@ -118,6 +118,7 @@ def scale_to_freq(scales, wavelet, N, fs=1, padtype='reflect'):
     psis = wavelet(scale=scales, N=Npad)
     if hasattr(psis, 'cpu'):
         psis = psis.cpu().numpy()
+    psis = np.atleast_2d(psis)  # if one scale
     # find peak indices
     idxs = np.argmax(psis, axis=-1)
 
-- 
2.43.0


From 53869d6c0a83d54bc0e56672b9a4945827e9aade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:33 +0000
Subject: [PATCH 62/87] fix: freq_to_scale with kind='energy' returned one
 repeated scale with bump wavelet

---
 ssqueezepy/experimental.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ssqueezepy/experimental.py b/ssqueezepy/experimental.py
index 255c8f4..74cc578 100644
--- a/ssqueezepy/experimental.py
+++ b/ssqueezepy/experimental.py
@@ -74,8 +74,9 @@ def freq_to_scale(freqs, wavelet, N, fs=1, n_search_scales=None, kind='peak',
 
     # pick closest match
     fmin, fmax = freqs.min(), freqs.max()
-    smax = search_scales[np.argmin(np.abs(f_from_scales - fmin))]
-    smin = search_scales[np.argmin(np.abs(f_from_scales - fmax))]
+    # (`nan` if wavelet has no nonzero samples)
+    smax = search_scales[np.nanargmin(np.abs(f_from_scales - fmin))]
+    smin = search_scales[np.nanargmin(np.abs(f_from_scales - fmax))]
     # make scales between found min and max
     scales = np.logspace(log(smax), log(smin), M, base=base)
 
-- 
2.43.0


From a4833fe87dfdffcd9e82c53822ad4fc7af1f431a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:53 +0000
Subject: [PATCH 63/87] fix: decreasing `t` and non-finite `fs` were accepted,
 yielding negative or nan frequencies

---
 ssqueezepy/utils/cwt_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ssqueezepy/utils/cwt_utils.py b/ssqueezepy/utils/cwt_utils.py
index 3e3e689..3d2a16e 100644
--- a/ssqueezepy/utils/cwt_utils.py
+++ b/ssqueezepy/utils/cwt_utils.py
@@ -723,12 +723,14 @@ def _process_fs_and_t(fs, t, N):
                   # float32 thr.; also relative to step size, in case it's small
                   min(1e-7, 1e-2 * np.mean(np.abs(np.diff(t, axis=0))))):
             raise Exception("Time vector `t` must be uniformly sampled.")
+        elif t[1] < t[0]:
+            raise Exception("Time vector `t` must be increasing.")
         fs = 1 / (t[1] - t[0])
     else:
         if fs is None:
             fs = 1
-        elif fs <= 0:
-            raise ValueError("`fs` must be > 0")
+        elif not (0 < fs < np.inf):
+            raise ValueError("`fs` must be > 0 and finite")
     fs = float(fs)  # else a float64 scalar would promote float32 arrays
     dt = 1 / fs
     return dt, fs, t
-- 
2.43.0


From 8970422b0764ea0da745eba1270fe6b2bc70168e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:22 +0000
Subject: [PATCH 64/87] fix: log-piecewise ssq_freqs don't overflow with small
 fs

---
 ssqueezepy/ssqueezing.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ssqueezepy/ssqueezing.py b/ssqueezepy/ssqueezing.py
index c2a6d35..be7748f 100644
--- a/ssqueezepy/ssqueezing.py
+++ b/ssqueezepy/ssqueezing.py
@@ -324,9 +324,7 @@ def _compute_associated_frequencies(scales, N, wavelet, ssq_scaletype, maprange,
 
 def _exp_fm(t, fmin, fmax):
     tmin, tmax = t.min(), t.max()
-    a = (fmin**tmax / fmax**tmin) ** (1/(tmax - tmin))
-    b = fmax**(1/tmax) * (1/a)**(1/tmax)
-    return a*b**t
+    return fmin * (fmax / fmin)**((t - tmin) / (tmax - tmin))
 
 
 def _get_center_frequency(wavelet, N, maprange, dt, scale, was_padded):
-- 
2.43.0


From 54cfa36404f936c040dc29797976fa97bdd1d18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:01 +0000
Subject: [PATCH 65/87] fix: NaN/inf in float16, longdouble or non-native
 inputs to cwt are zeroed rather than raise

---
 ssqueezepy/_cwt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ssqueezepy/_cwt.py b/ssqueezepy/_cwt.py
index d2bcf3d..43e7996 100644
--- a/ssqueezepy/_cwt.py
+++ b/ssqueezepy/_cwt.py
@@ -5,7 +5,6 @@ from .utils import WARN, adm_cwt, adm_ssq, _process_fs_and_t, is_array_or_tensor
 from .utils import padsignal, process_scales, logscale_transition_idx, p2up
 from .utils import backend as S
 from .utils.backend import Q
-from .algos import replace_at_inf_or_nan
 from .wavelets import Wavelet
 
 
@@ -212,7 +211,8 @@ def cwt(x, wavelet='gmw', scales='log-piecewise', fs=None, t=None, nv=32,
                 raise ValueError("`nan_checks=True` requires NumPy input.")
             elif np.isnan(x.max()) or np.isinf(x.max()) or np.isinf(x.min()):
                 WARN("found NaN or inf values in `x`; will zero")
-                x = replace_at_inf_or_nan(x.copy(), replacement=0.)
+                x = x.copy()
+                x[~np.isfinite(x)] = 0
 
         if cache_wavelet:
             if isinstance(wavelet, (str, tuple)):
-- 
2.43.0


From 84c7e967ce0679b4076cd87189bd906f582c2400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:01 +0000
Subject: [PATCH 66/87] fix: zero_denormals applies to non-contiguous arrays

---
 ssqueezepy/algos.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ssqueezepy/algos.py b/ssqueezepy/algos.py
index 52e61ed..a9ffd39 100644
--- a/ssqueezepy/algos.py
+++ b/ssqueezepy/algos.py
@@ -602,7 +602,11 @@ def zero_denormals(x, parallel=None):
     parallel = parallel if parallel is not None else IS_PARALLEL()
     tiny = 1000 * np.finfo(x.dtype).tiny
     fn = _zero_denormals_par if parallel else _zero_denormals
-    fn(x.ravel(), tiny)
+    x_flat = x.ravel()
+    fn(x_flat, tiny)
+    if not np.shares_memory(x, x_flat):
+        # `ravel` copied as `x` isn't contiguous
+        x[...] = x_flat.reshape(x.shape)
 
 @jit(nopython=True, cache=True)
 def _zero_denormals(x, tiny):
-- 
2.43.0


From d769e1230e176985e0959846a185ad61618b5fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:12 +0000
Subject: [PATCH 67/87] fix: TestSignals.par_* no longer ignore fmax2 given
 without fmax1

---
 ssqueezepy/_test_signals.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ssqueezepy/_test_signals.py b/ssqueezepy/_test_signals.py
index 077c7c5..813c1af 100644
--- a/ssqueezepy/_test_signals.py
+++ b/ssqueezepy/_test_signals.py
@@ -295,7 +295,7 @@ class TestSignals():
             fmin2 = fmin1 + fdiff_default
         if fmax2 is None or fmax1 is None:
             if fmax1 is None:
-                fmax2 = N/2
+                fmax2 = N/2 if fmax2 is None else fmax2
                 fmax1 = fmax2 - fdiff_default
             else:
                 fmax2 = min(N/2, fmax1 + fdiff_default)
@@ -319,7 +319,7 @@ class TestSignals():
             fmin2 = fmin1 * fratio_default
         if fmax2 is None or fmax1 is None:
             if fmax1 is None:
-                fmax2 = N/2
+                fmax2 = N/2 if fmax2 is None else fmax2
                 fmax1 = fmax2 / fratio_default
             else:
                 fmax2 = min(N/2, fmax1 * fratio_default)
@@ -343,7 +343,7 @@ class TestSignals():
             fmin2 = fmin1 * fratio_default
         if fmax2 is None or fmax1 is None:
             if fmax1 is None:
-                fmax2 = N/2
+                fmax2 = N/2 if fmax2 is None else fmax2
                 fmax1 = fmax2 / fratio_default
             else:
                 fmax2 = min(N/2, fmax1 * fratio_default)
-- 
2.43.0


From 0ad0d82d81eed58f8d40b1b9055e44a4d0c4cf7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:12 +0000
Subject: [PATCH 68/87] fix: TestSignals.echirp with tmax=0 or long durations
 gave NaN

---
 ssqueezepy/_test_signals.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ssqueezepy/_test_signals.py b/ssqueezepy/_test_signals.py
index 813c1af..3421a5e 100644
--- a/ssqueezepy/_test_signals.py
+++ b/ssqueezepy/_test_signals.py
@@ -217,13 +217,14 @@ class TestSignals():
         return self._generate(self._echirp_fn, N, fmin, fmax, **tkw)
 
     def _echirp_fn(self, t, tmin, tmax, fmin, fmax, get_w=False):
-        a = (fmin**tmax / fmax**tmin) ** (1/(tmax - tmin))
-        b = fmax**(1/tmax) * (1/a)**(1/tmax)
+        # `a*b**t` and its integral, relative to `tmin` (`a`, `b` themselves may
+        # overflow, and divide by `tmax`)
+        T, r = tmax - tmin, fmax / fmin
+        w = fmin * r**((t - tmin) / T)
 
-        phi = (a/np.log(b)) * (b**t - b**tmin)
+        phi = (T/np.log(r)) * (w - fmin)
         phi *= (2*pi)
         if get_w:
-            w = a*b**t
             w *= (2*pi)
         return (phi, w) if get_w else phi
 
-- 
2.43.0


From 470355d89afc6fdf295c2ba373c14010196cfeb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:12 +0000
Subject: [PATCH 69/87] fix: TestSignals no longer writes into the caller's
 default_args, default_tkw

---
 ssqueezepy/_test_signals.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ssqueezepy/_test_signals.py b/ssqueezepy/_test_signals.py
index 3421a5e..6926f6a 100644
--- a/ssqueezepy/_test_signals.py
+++ b/ssqueezepy/_test_signals.py
@@ -142,8 +142,8 @@ class TestSignals():
                  warn_alias=True, seed=None):
         self.N = N    or DEFAULT_N
         self.snr = snr if snr is not None else DEFAULT_SNR
-        self.default_args = default_args or DEFAULT_ARGS
-        self.default_tkw  = default_tkw  or DEFAULT_TKW
+        self.default_args = dict(default_args or DEFAULT_ARGS)
+        self.default_tkw  = dict(default_tkw  or DEFAULT_TKW)
         self.warn_alias   = warn_alias
         self.seed = seed if seed is not None else DEFAULT_SEED
 
-- 
2.43.0


From 109a6d2c9c359451f4006ed74885e35680e02368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:40 +0000
Subject: [PATCH 70/87] fix: TestSignals time limits may be given to the
 modulator

---
 ssqueezepy/_test_signals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssqueezepy/_test_signals.py b/ssqueezepy/_test_signals.py
index 6926f6a..f103e0a 100644
--- a/ssqueezepy/_test_signals.py
+++ b/ssqueezepy/_test_signals.py
@@ -569,7 +569,7 @@ class TestSignals():
             snr = fparams.pop('snr', self.snr)
 
             x, t = fn(N, **fparams)
-            x *= afn(len(x), **aparams, **tkw)[0]
+            x *= afn(len(x), **{**tkw, **aparams})[0]
 
             if name[0] == '#':
                 x += x[::-1]
-- 
2.43.0


From 867f5705339f6f119992895dd0d40fc45e1393da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:40 +0000
Subject: [PATCH 71/87] fix: make_signals returns every signal asked for, if
 names repeat

---
 ssqueezepy/_test_signals.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ssqueezepy/_test_signals.py b/ssqueezepy/_test_signals.py
index f103e0a..41fadc6 100644
--- a/ssqueezepy/_test_signals.py
+++ b/ssqueezepy/_test_signals.py
@@ -563,7 +563,7 @@ class TestSignals():
 
         names, params_all = self._process_input(signals)
 
-        data = {}
+        data, xs = {}, []
         for name, (fparams, aparams) in zip(names, params_all):
             fn, afn, *_, tkw = _process_args(name, fparams, aparams)
             snr = fparams.pop('snr', self.snr)
@@ -584,9 +584,10 @@ class TestSignals():
                 x += noise
 
             data[name] = (x, t, (fparams, aparams))
+            xs.append(x)
 
         if not get_params:
-            data = [d[0] for d in data.values()]
+            data = xs
             if len(data) == 1:
                 data = data[0]
         return data
-- 
2.43.0


From a93227962b298cc50b6e712396305dfee8cae21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:50 +0000
Subject: [PATCH 72/87] fix: window_resolution, window_area integrate over
 increasing frequencies with even-length windows (NaN widths)

---
 ssqueezepy/utils/stft_utils.py |  15 ++-
 ssqueezepy/utils/wisdom64      | 234 ++++++++++++++++-----------------
 2 files changed, 125 insertions(+), 124 deletions(-)

diff --git a/ssqueezepy/utils/stft_utils.py b/ssqueezepy/utils/stft_utils.py
index 208d424..9c8f9fd 100644
--- a/ssqueezepy/utils/stft_utils.py
+++ b/ssqueezepy/utils/stft_utils.py
@@ -1,6 +1,6 @@
 # -*- coding: utf-8 -*-
 import numpy as np
-from numpy.fft import fft, fftshift
+from numpy.fft import fft
 from numba import jit, prange
 from scipy import integrate
 from .gpu_utils import _run_on_gpu, _get_kernel_params
@@ -197,14 +197,15 @@ def window_resolution(window):
 
     Returns std_w, std_t, harea. `window` must be np.ndarray and >=0.
     """
-    from ..wavelets import _xifn
+    from ..wavelets import _xifn, aifftshift
     assert window.min() >= 0, "`window` must be >= 0 (got min=%s)" % window.min()
     N = len(window)
 
     t  = np.arange(-N/2, N/2, step=1)
-    ws = fftshift(_xifn(1, N))
+    # `aifftshift` so that `ws` is increasing also if `N` is even
+    ws = aifftshift(_xifn(1, N))
 
-    psihs   = fftshift(fft(window))
+    psihs   = aifftshift(fft(window))
     apsi2   = np.abs(window)**2
     apsih2s = np.abs(psihs)**2
 
@@ -220,7 +221,7 @@ def window_area(window, time=True, frequency=False):
     """Minimal function to compute a window's time or frequency 'area' as area
     under curve of `abs(window)**2`. `window` must be np.ndarray.
     """
-    from ..wavelets import _xifn
+    from ..wavelets import _xifn, aifftshift
     if not time and not frequency:
         raise ValueError("must compute something")
 
@@ -228,8 +229,8 @@ def window_area(window, time=True, frequency=False):
         t = np.arange(-len(window)/2, len(window)/2, step=1)
         at = integrate.trapezoid(np.abs(window)**2, t)
     if frequency:
-        ws = fftshift(_xifn(1, len(window)))
-        apsih2s = np.abs(fftshift(fft(window)))**2
+        ws = aifftshift(_xifn(1, len(window)))
+        apsih2s = np.abs(aifftshift(fft(window)))**2
         aw = integrate.trapezoid(apsih2s, ws)
 
     if time and frequency:
diff --git a/ssqueezepy/utils/wisdom64 b/ssqueezepy/utils/wisdom64
index e152355..2cd394d 100644
--- a/ssqueezepy/utils/wisdom64
+++ b/ssqueezepy/utils/wisdom64
@@ -1,240 +1,240 @@
 (fftw-3.3.5 fftw_wisdom #x3c273403 #x192df114 #x4d08727c #xe98e9b9d
   (fftw_rdft2_rdft_register 0 #x213e7 #x31bff #x0 #x9328a4b5 #x85319c71 #xb0061e61 #xaca245c0)
   (TIMEOUT 0 #x1040 #x11048 #x170 #x752e66f9 #x85c116af #x47cadc0b #x101a5d1b)
-  (fftw_rdft_vrank_geq1_register 0 #x11bdd #x11bdd #x0 #x60128f7c #x1ee17b29 #x815cae4f #xce25823a)
   (fftw_codelet_r2cb_64 2 #x31bff #x31bff #x0 #xbfc47a0d #x979fdb20 #x360358fa #x9970eeee)
   (fftw_codelet_hb_3 0 #x10bdd #x10bdd #x0 #x3ff6ea44 #x94e71b2e #x7c39c788 #x0e1a62bb)
   (fftw_rdft2_rdft_register 0 #x13c5 #x11bdd #x0 #x3062c27c #x18b0fc95 #x1403f6a0 #x7d9f1aa4)
-  (fftw_codelet_n1fv_16_avx 0 #x31bff #x31bff #x0 #xb8b01f0b #xda802e15 #xbc85070d #xec15ac56)
-  (TIMEOUT 0 #x1040 #x11bdd #x170 #x34ca1e40 #xcb901294 #x4cfd3fe1 #xb0290450)
-  (fftw_rdft2_rdft_register 0 #x1040 #x11048 #x0 #x55780668 #x57465297 #x3a3fafb2 #x398b763f)
-  (fftw_rdft2_rdft_register 0 #x213e7 #x31bff #x0 #x9a583204 #xe864d47c #xaa162cae #xa0e59716)
+  (fftw_rdft_thr_vrank_geq1_register 0 #x31bff #x31bff #x0 #xbd8e675e #xcd35b470 #x18dfcc65 #x462620a7)
+  (TIMEOUT 0 #x1040 #x1040 #x162 #xbfde4bf6 #xfb56dc9a #x4e30fdee #xc7a444a3)
   (TIMEOUT 0 #x1040 #x11bdd #x170 #x96d6060b #xcbd30eca #x84727dcb #x218f3088)
-  (fftw_codelet_n1bv_13_sse2 0 #x11bdd #x11bdd #x0 #x9592b8b6 #xf18d0d52 #x95f7eb37 #xc845d163)
+  (fftw_dft_generic_register 0 #x31bff #x31bff #x0 #xe7cb2713 #x0529cbae #xc1f6292f #x7d4c31cd)
+  (fftw_codelet_n1bv_13_avx 0 #x31bff #x31bff #x0 #x9592b8b6 #xf18d0d52 #x95f7eb37 #xc845d163)
   (fftw_codelet_n1fv_128_avx 0 #x31bff #x31bff #x0 #xcf6601ad #xf464a3e3 #x9db82ec5 #x8fd45dd0)
   (fftw_rdft_rank0_register 3 #x11bdd #x11bdd #x0 #xa7839948 #x91f1b3d8 #x62a82ae2 #x32077182)
   (fftw_codelet_r2cb_3 0 #x10048 #x10048 #x0 #x126aa036 #x6d7370b2 #x8b63d249 #xed9a2787)
   (fftw_rdft2_nop_register 0 #x11048 #x11048 #x0 #x1d228f1e #x9a08e472 #x0333e893 #xc37e7a39)
   (TIMEOUT 0 #x1040 #x11048 #x170 #x9bce109d #x9917fa44 #xa521aa07 #x16aacba8)
   (fftw_rdft_rank0_register 3 #x10bdd #x10bdd #x0 #xdbc8499e #x7490256c #xec866dd4 #x760469ba)
-  (TIMEOUT 0 #x1040 #x11048 #x170 #xb3b9aa19 #x4b1ab5f6 #xbcb1aebb #x69879cc8)
-  (fftw_rdft_nop_register 0 #x11bdd #x11bdd #x0 #x114f3dc2 #xbf1f951b #x42acea82 #x123fd938)
-  (TIMEOUT 0 #x1040 #x11048 #x170 #x7225275e #xc0f0f84c #xd8da99ce #xc45e6f32)
+  (fftw_dft_thr_vrank_geq1_register 0 #x31bff #x31bff #x0 #x8ff42654 #xbd5503a9 #x8d7ae4bc #x818c48f7)
+  (fftw_dft_vrank_geq1_register 0 #x31bff #x31bff #x0 #xde52cdde #x85a25c10 #x5e6372dd #x6e81a718)
   (fftw_codelet_t1buv_5_avx 0 #x31bff #x31bff #x0 #xc3c7515a #x362b0c03 #x742abb77 #x6e7891c3)
   (fftw_rdft_vrank_geq1_register 0 #x11bdd #x11bdd #x0 #x4a6b1e20 #x70e77b0e #xe10a7b56 #x97716fdf)
   (fftw_rdft_generic_register 0 #x31bff #x31bff #x0 #xe79c6f2f #x1c0be16a #x91d3035e #x0d047b03)
   (fftw_rdft_generic_register 1 #x30bff #x30bff #x0 #x7e71deb7 #x1e0bbbdd #xa89bb565 #xa6496deb)
-  (fftw_dft_generic_register 0 #x31bff #x31bff #x0 #xe391cdee #xa2d2b59f #xe605b384 #xf7b5d9d6)
-  (fftw_codelet_n1fv_128_avx 0 #x11bdd #x11bdd #x0 #x1060d12e #x569cae13 #x74c3d6e6 #x4ff09f25)
-  (TIMEOUT 0 #x1040 #x11bdd #x162 #x4d96b693 #x614ac541 #x73430d68 #x8eee18f0)
-  (fftw_rdft_thr_vrank_geq1_register 0 #x31bff #x31bff #x0 #xbd8e675e #xcd35b470 #x18dfcc65 #x462620a7)
-  (fftw_dft_vrank_geq1_register 0 #x11bdd #x11bdd #x0 #xbffc2059 #x4b60ca07 #xfb822258 #x80f954ad)
-  (fftw_codelet_r2cb_13 0 #x30bff #x30bff #x0 #x1fb05262 #xab6efd01 #xf164e5a8 #xca8254b0)
+  (fftw_dft_generic_register 0 #x11bdd #x11bdd #x0 #xe391cdee #xa2d2b59f #xe605b384 #xf7b5d9d6)
+  (fftw_codelet_r2cf_64 2 #x31bff #x31bff #x0 #x0a413f36 #xf5d66e76 #x0b1d9056 #xc84a3c53)
+  (fftw_rdft2_rdft_register 0 #x13c5 #x11bdd #x0 #x430dd3c2 #x8ece6b38 #xa8830175 #x2ee104f7)
+  (fftw_codelet_n1bv_11_avx 0 #x11bdd #x11bdd #x0 #xdccbad32 #x7f9db36b #xb26023c4 #xa2d2c4fd)
+  (fftw_dft_vrank_geq1_register 0 #x31bff #x31bff #x0 #xbffc2059 #x4b60ca07 #xfb822258 #x80f954ad)
+  (fftw_codelet_n1fv_128_avx 0 #x11bdd #x11bdd #x0 #xc41d4d18 #x3d8ca45c #xfcb28edc #x0fbb23bb)
   (fftw_rdft2_rdft_register 0 #x213e7 #x31bff #x0 #x93ded013 #x9e171227 #xdc884731 #xcee153ce)
   (fftw_rdft_generic_register 0 #x11fdd #x11fdd #x0 #x4168d56d #x6e0fe968 #xcf2d6354 #xb1474399)
   (fftw_codelet_r2cf_3 0 #x11048 #x11048 #x0 #x44a4199b #xd63ac6e4 #x37a1b53e #xa5ae8352)
-  (TIMEOUT 0 #x1040 #x11048 #x170 #x68128896 #x869567a6 #x7a73b945 #xa0a42e3a)
+  (TIMEOUT 0 #x1040 #x11048 #x170 #x5ee274f4 #x9e98cb2c #xe82f2618 #x3977a737)
   (fftw_dft_thr_vrank_geq1_register 0 #x31bff #x31bff #x0 #x1b5118bd #x05b9ad1e #x8031cedc #x80c3cba3)
   (fftw_codelet_n1fv_64_avx 0 #x11bdd #x11bdd #x0 #xb7c4d232 #x87a37f5b #xdedc5bf5 #x9157d813)
-  (fftw_codelet_n1fv_128_avx 0 #x11bdd #x11bdd #x0 #xcf6601ad #xf464a3e3 #x9db82ec5 #x8fd45dd0)
+  (fftw_dft_vrank_geq1_register 0 #x31bff #x31bff #x0 #xbc5852be #xbc7126eb #xb4212a64 #x74b49bfb)
   (fftw_rdft_thr_vrank_geq1_register 0 #x30bff #x30bff #x0 #xce6f9094 #xc33de574 #x6fd30897 #xc417d7e3)
-  (fftw_dft_vrank_geq1_register 0 #x31bff #x31bff #x0 #x7128dcb8 #x095d1e28 #x65419d05 #xbf58bd96)
-  (fftw_codelet_hf_3 1 #x31bff #x31bff #x0 #x76455c47 #x4e959639 #x9db20dd0 #xd9263d94)
+  (fftw_rdft_nop_register 0 #x11048 #x11048 #x0 #x020df6b3 #x02731c8c #xd41fecb2 #x3ae7bba9)
+  (TIMEOUT 0 #x1040 #x11048 #x170 #x7225275e #xc0f0f84c #xd8da99ce #xc45e6f32)
   (fftw_rdft2_nop_register 0 #x31bff #x31bff #x0 #x668dede2 #xfd96edd6 #xa154b55a #x0e2f4fdb)
   (fftw_rdft2_vrank_geq1_register 0 #x13c5 #x11bdd #x0 #xdd2da5e9 #xc950d673 #x6408c4d4 #xb001803c)
   (fftw_codelet_hb2_5 1 #x30bff #x30bff #x0 #x5953be9f #x398a3581 #xaf7eae33 #x56c5b9e1)
-  (fftw_dft_vrank_geq1_register 0 #x31bff #x31bff #x0 #x1d4d5a73 #xfb031bc8 #x4c6b1d34 #xd7ee0f0c)
-  (fftw_codelet_n1fv_13_avx 0 #x31bff #x31bff #x0 #xd68024c6 #x486c9f76 #x7ece36d0 #x6c90d44c)
-  (fftw_dft_vrank_geq1_register 0 #x11bdd #x11bdd #x0 #xa499d007 #x3e6f3d74 #x4ccec119 #xdfb55377)
+  (fftw_dft_vrank_geq1_register 0 #x11bdd #x11bdd #x0 #x1d4d5a73 #xfb031bc8 #x4c6b1d34 #xd7ee0f0c)
+  (fftw_codelet_n1fv_13_avx 0 #x11bdd #x11bdd #x0 #xd68024c6 #x486c9f76 #x7ece36d0 #x6c90d44c)
+  (fftw_dft_vrank_geq1_register 0 #x31bff #x31bff #x0 #xa499d007 #x3e6f3d74 #x4ccec119 #xdfb55377)
   (fftw_codelet_r2cfII_2 2 #x31bff #x31bff #x0 #x67c1f1e4 #x8b11dee3 #x9554937d #xd18b7dbc)
-  (fftw_rdft_indirect_register 0 #x11bdd #x11bdd #x0 #x5e59faac #xae76c164 #xcd290364 #x4e084123)
-  (fftw_rdft2_rdft_register 0 #x13c5 #x11bdd #x0 #x81629a49 #x74ec1bd5 #x634bf202 #x6b2d0259)
+  (fftw_rdft_generic_register 0 #x11048 #x11048 #x0 #x897deabd #x2f50df8d #x78ce307b #x32aebeeb)
+  (fftw_rdft_nop_register 0 #x31bff #x31bff #x0 #x114f3dc2 #xbf1f951b #x42acea82 #x123fd938)
+  (fftw_codelet_r2cf_128 2 #x31bff #x31bff #x0 #xaf54131f #x9f3807c3 #x2345d1bd #x6243c1da)
   (fftw_dft_vrank_geq1_register 0 #x31bff #x31bff #x0 #xdcba19d2 #xb282eb40 #xfbe6ed9b #xf14665f7)
-  (fftw_codelet_r2cf_128 2 #x11bdd #x11bdd #x0 #xdab31c9f #x9172c372 #xa9c7d231 #x86ec8788)
+  (fftw_codelet_r2cf_128 2 #x31bff #x31bff #x0 #xdab31c9f #x9172c372 #xa9c7d231 #x86ec8788)
   (fftw_rdft_generic_register 1 #x30bff #x30bff #x0 #x92b9adb9 #x8ea0ecfc #xcf095182 #xc2ed9af7)
-  (fftw_rdft2_rdft_register 0 #x13c5 #x11bdd #x0 #x430dd3c2 #x8ece6b38 #xa8830175 #x2ee104f7)
   (fftw_rdft2_nop_register 0 #x11bdd #x11bdd #x0 #x8ce98ea3 #x660b5fec #x96ced90a #x18e99ccf)
-  (TIMEOUT 0 #x1040 #x11bdd #x170 #xdd53e3ed #x495d6073 #x39828eec #x9f055988)
-  (fftw_dft_vrank_geq1_register 0 #x11bdd #x11bdd #x0 #x1d4d5a73 #xfb031bc8 #x4c6b1d34 #xd7ee0f0c)
+  (fftw_codelet_hf_3 1 #x31bff #x31bff #x0 #x1566e5af #xa11c08ff #x53b3f133 #x492ee602)
+  (fftw_dft_vrank_geq1_register 0 #x31bff #x31bff #x0 #x1d4d5a73 #xfb031bc8 #x4c6b1d34 #xd7ee0f0c)
   (fftw_codelet_r2cb_13 0 #x30bff #x30bff #x0 #x87f691e3 #x8323686e #x90f487eb #x6848960a)
-  (fftw_rdft_nop_register 0 #x31bff #x31bff #x0 #xf09aa414 #x99ea9141 #x81a4ce91 #x407c594f)
+  (fftw_rdft2_rdft_register 0 #x1040 #x11048 #x0 #x55780668 #x57465297 #x3a3fafb2 #x398b763f)
   (fftw_codelet_hf_3 0 #x11bdd #x11bdd #x0 #x145bf427 #xb1671c0f #xe500350b #x6b84e9c3)
   (fftw_rdft2_nop_register 0 #x11bdd #x11bdd #x0 #xe84a4bbe #xb458b03a #xd5943e78 #xf89528f6)
-  (fftw_codelet_t1buv_3_avx 0 #x11bdd #x11bdd #x0 #xd0af3adc #x1f1be9d3 #xe2881f5c #xb15bd237)
-  (fftw_rdft_nop_register 0 #x31bff #x31bff #x0 #xd0702255 #xe76a9ab3 #x5398ff07 #x60ee718e)
+  (fftw_codelet_t1buv_3_avx 0 #x31bff #x31bff #x0 #xd0af3adc #x1f1be9d3 #xe2881f5c #xb15bd237)
+  (fftw_rdft_nop_register 0 #x30bff #x30bff #x0 #xd0702255 #xe76a9ab3 #x5398ff07 #x60ee718e)
   (fftw_rdft_indirect_register 1 #x10bdd #x10bdd #x0 #xa49cc026 #xee96ddc1 #x08e191fb #xde4e7ea8)
+  (fftw_codelet_hb_3 0 #x10bdd #x10bdd #x0 #x75f69f7a #x7b0ac424 #x59018a16 #x7db76789)
   (fftw_rdft2_rdft_register 0 #x13c5 #x11bdd #x0 #x7d90b6aa #xa4ac13cd #x7f6ed9f9 #xb39844f2)
-  (fftw_codelet_n1fv_64_avx 0 #x31bff #x31bff #x0 #x5661fcf2 #x3b3b5ef4 #x74ae09ae #xfce588c6)
+  (fftw_codelet_n1fv_64_avx 0 #x31bff #x31bff #x0 #xaa267a3d #x2a419877 #xa516cbe0 #xc4c99d4d)
   (fftw_codelet_r2cf_128 2 #x11bdd #x11bdd #x0 #x07e1f83a #xa6bef46d #x27d4efbf #x0ad359f1)
   (fftw_rdft_vrank_geq1_register 0 #x10048 #x10048 #x0 #x92fa7caa #x49cba0c9 #xa88b2e40 #x5f993120)
-  (fftw_codelet_r2cf_64 2 #x11bdd #x11bdd #x0 #x3cdeed1e #x9306e55a #x191f0462 #x40999a49)
+  (TIMEOUT 0 #x1040 #x11bdd #x170 #xd7a88d8b #xb51fb4ec #x18a6e3db #xc71ca349)
   (fftw_rdft_thr_vrank_geq1_register 0 #x31bff #x31bff #x0 #xfb27d6ac #x46d4a750 #xbe652a48 #xf3a9eb43)
   (fftw_rdft_indirect_register 0 #x11bdd #x11bdd #x0 #xc26ca054 #xa70b660f #x7aaf14e2 #x83376dc5)
   (fftw_rdft2_rdft_register 0 #x13c5 #x11bdd #x0 #x2bae3fe1 #xe2e1e9b5 #x7f0aab31 #x3f4dffa5)
-  (fftw_dft_vrank_geq1_register 0 #x31bff #x31bff #x0 #xbc5852be #xbc7126eb #xb4212a64 #x74b49bfb)
-  (fftw_codelet_n1fv_128_avx 0 #x11bdd #x11bdd #x0 #xc41d4d18 #x3d8ca45c #xfcb28edc #x0fbb23bb)
-  (fftw_codelet_r2cf_64 2 #x31bff #x31bff #x0 #xfd3d3c41 #x15fb4907 #x740bccb7 #xec2f670f)
-  (fftw_dft_vrank_geq1_register 0 #x11bdd #x11bdd #x0 #xb5d8c8d7 #x7b3497a3 #x528a754d #x364e5161)
+  (fftw_codelet_hb_3 0 #x10048 #x10048 #x0 #x40ab6782 #xb65a2fdd #x73dd1a9e #x0f6fcd78)
+  (fftw_codelet_n1fv_128_avx 0 #x31bff #x31bff #x0 #xc41d4d18 #x3d8ca45c #xfcb28edc #x0fbb23bb)
+  (fftw_rdft2_vrank_geq1_register 0 #x11bdd #x11bdd #x0 #xfd3d3c41 #x15fb4907 #x740bccb7 #xec2f670f)
+  (fftw_dft_vrank_geq1_register 0 #x31bff #x31bff #x0 #xb5d8c8d7 #x7b3497a3 #x528a754d #x364e5161)
   (fftw_codelet_r2cb_128 2 #x31bff #x31bff #x0 #x9fb6ca74 #x0b794c10 #xb7cd3bbd #xb7eef53b)
   (fftw_codelet_n1bv_11_avx 0 #x31bff #x31bff #x0 #xdccbad32 #x7f9db36b #xb26023c4 #xa2d2c4fd)
-  (fftw_codelet_r2cb_3 0 #x30bff #x30bff #x0 #x6373f212 #x43610235 #x1257e7e9 #xdc415215)
+  (fftw_rdft_vrank_geq1_register 0 #x10fdd #x10fdd #x0 #x77c18f43 #xa9b91a7d #x9434e393 #xa5c84fda)
   (fftw_rdft2_nop_register 0 #x11bdd #x11bdd #x0 #x48cc35a4 #x3cb96db3 #x659fb0ac #x23a1e1f6)
-  (fftw_codelet_r2cf_3 0 #x31bff #x31bff #x0 #xaa6678d3 #xb5c9a722 #xe558733c #xe1ea7921)
+  (fftw_codelet_r2cf_3 0 #x11bdd #x11bdd #x0 #xaa6678d3 #xb5c9a722 #xe558733c #xe1ea7921)
   (fftw_dft_vrank_geq1_register 0 #x11bdd #x11bdd #x0 #xdcba19d2 #xb282eb40 #xfbe6ed9b #xf14665f7)
   (fftw_rdft2_nop_register 0 #x11bdd #x11bdd #x0 #x451ecb84 #x19ef7ebc #x8206f1a1 #xe2632fa2)
-  (TIMEOUT 0 #x1040 #x11048 #x170 #xd557e28c #xce72b99d #x388b71f3 #x4b91eabd)
+  (fftw_codelet_t1fuv_3_avx 0 #x31bff #x31bff #x0 #x8049c984 #xcdf7b9af #x9acf27b7 #x124292c5)
   (fftw_rdft2_nop_register 0 #x31bff #x31bff #x0 #x2bbef4fe #x82d77535 #x5fc496e1 #x7c3d1b7c)
-  (fftw_rdft_nop_register 0 #x10bdd #x10bdd #x0 #x114f3dc2 #xbf1f951b #x42acea82 #x123fd938)
-  (TIMEOUT 0 #x1040 #x1040 #x162 #xbfde4bf6 #xfb56dc9a #x4e30fdee #xc7a444a3)
+  (fftw_rdft_nop_register 0 #x11bdd #x11bdd #x0 #x114f3dc2 #xbf1f951b #x42acea82 #x123fd938)
+  (fftw_rdft_nop_register 0 #x31bff #x31bff #x0 #xf09aa414 #x99ea9141 #x81a4ce91 #x407c594f)
   (TIMEOUT 0 #x1040 #x11bdd #x162 #x3276648e #x71acce52 #xa5d4cfd2 #x115c5b96)
-  (fftw_rdft_generic_register 0 #x31bff #x31bff #x0 #x06233490 #xc41e4217 #x5c466786 #x52b7d9b5)
+  (fftw_codelet_r2cf_5 0 #x31bff #x31bff #x0 #x22ab6312 #x147f521c #x21efb0c8 #xd44a5d35)
   (TIMEOUT 0 #x1040 #x11048 #x170 #x9b255c4f #xf449f0a3 #x2e8f6b15 #xd6b469a1)
-  (fftw_dft_vrank_geq1_register 0 #x31bff #x31bff #x0 #xbffc2059 #x4b60ca07 #xfb822258 #x80f954ad)
+  (fftw_dft_vrank_geq1_register 0 #x11bdd #x11bdd #x0 #xbffc2059 #x4b60ca07 #xfb822258 #x80f954ad)
   (fftw_rdft_vrank_geq1_register 0 #x10bdd #x10bdd #x0 #xa5c20514 #x91882f7e #xaa9911cc #xb5274f6b)
-  (fftw_codelet_t1buv_3_avx 0 #x31bff #x31bff #x0 #xd0af3adc #x1f1be9d3 #xe2881f5c #xb15bd237)
+  (fftw_codelet_t1buv_3_avx 0 #x11bdd #x11bdd #x0 #xd0af3adc #x1f1be9d3 #xe2881f5c #xb15bd237)
   (fftw_dft_vrank_geq1_register 0 #x31bff #x31bff #x0 #x73f4934b #x8c61b8f6 #x207a2849 #x643bd724)
   (fftw_codelet_r2cb_128 2 #x31bff #x31bff #x0 #x8f5dd72e #x969591b5 #xddf07ee3 #x79dffabf)
   (fftw_codelet_n1bv_13_avx 0 #x31bff #x31bff #x0 #x2dc1ec30 #x605acb87 #x5e08e290 #xf9b240c4)
-  (fftw_codelet_n1fv_128_avx 0 #x31bff #x31bff #x0 #xc41d4d18 #x3d8ca45c #xfcb28edc #x0fbb23bb)
+  (fftw_dft_vrank_geq1_register 0 #x31bff #x31bff #x0 #xc03558d8 #xfae9da8a #xf4f4d549 #x95d9cdd9)
+  (fftw_rdft_generic_register 0 #x31bff #x31bff #x0 #x06233490 #xc41e4217 #x5c466786 #x52b7d9b5)
   (fftw_rdft2_vrank_geq1_register 0 #x13c5 #x11bdd #x0 #x40ae335d #x403dd6ea #x90390690 #x4395107e)
   (TIMEOUT 0 #x1040 #x11048 #x170 #x2fd831a4 #xad21ceb9 #x759dc316 #x0556fbe4)
-  (fftw_codelet_hb_3 0 #x10bdd #x10bdd #x0 #x529e0d5e #x261bfd8e #x4770af80 #x188daba9)
-  (TIMEOUT 0 #x1040 #x11048 #x170 #x5ee274f4 #x9e98cb2c #xe82f2618 #x3977a737)
+  (fftw_dft_vrank_geq1_register 0 #x11bdd #x11bdd #x0 #x7128dcb8 #x095d1e28 #x65419d05 #xbf58bd96)
+  (fftw_rdft2_vrank_geq1_register 0 #x13c5 #x11bdd #x0 #x34e7f221 #x07649798 #x0f8ab691 #x8483bf7b)
   (fftw_rdft_generic_register 0 #x31bff #x31bff #x0 #x5a6b0949 #x91e7c6d4 #xecb942d5 #x4119e22f)
-  (fftw_rdft_nop_register 0 #x10048 #x10048 #x0 #x020df6b3 #x02731c8c #xd41fecb2 #x3ae7bba9)
+  (fftw_codelet_hb_3 0 #x10bdd #x10bdd #x0 #x529e0d5e #x261bfd8e #x4770af80 #x188daba9)
   (fftw_codelet_r2cb_128 2 #x31bff #x31bff #x0 #x9fdb13d3 #xe918c2cc #x1128c1ce #x1f8e4149)
-  (fftw_dft_vrank_geq1_register 0 #x31bff #x31bff #x0 #xc03558d8 #xfae9da8a #xf4f4d549 #x95d9cdd9)
-  (fftw_rdft2_rdft_register 0 #x213e7 #x31bff #x0 #x9188bc7d #xb0e0c3c3 #x3de1be5e #x0d90290b)
+  (fftw_dft_vrank_geq1_register 0 #x11bdd #x11bdd #x0 #xc03558d8 #xfae9da8a #xf4f4d549 #x95d9cdd9)
+  (fftw_rdft2_rdft_register 0 #x1040 #x11048 #x0 #xbfde4bf6 #xfb56dc9a #x4e30fdee #xc7a444a3)
   (TIMEOUT 0 #x1040 #x11048 #x170 #xafb38004 #x2c8be07b #x4a485341 #xb0a17dd6)
-  (fftw_codelet_t1buv_5_avx 0 #x31bff #x31bff #x0 #xd1170c9a #xc291a525 #x96b064b8 #x90097338)
-  (fftw_rdft2_vrank_geq1_register 0 #x11bdd #x11bdd #x0 #xfd3d3c41 #x15fb4907 #x740bccb7 #xec2f670f)
+  (fftw_codelet_t1bv_5_sse2 0 #x11bdd #x11bdd #x0 #xd1170c9a #xc291a525 #x96b064b8 #x90097338)
+  (fftw_codelet_r2cf_64 2 #x31bff #x31bff #x0 #xfd3d3c41 #x15fb4907 #x740bccb7 #xec2f670f)
   (fftw_rdft2_vrank_geq1_register 0 #x11bdd #x11bdd #x0 #x0a413f36 #xf5d66e76 #x0b1d9056 #xc84a3c53)
   (TIMEOUT 0 #x1040 #x1040 #x162 #x55780668 #x57465297 #x3a3fafb2 #x398b763f)
-  (fftw_codelet_hb_3 0 #x10bdd #x10bdd #x0 #x75f69f7a #x7b0ac424 #x59018a16 #x7db76789)
-  (fftw_dft_vrank_geq1_register 0 #x31bff #x31bff #x0 #x4c536342 #x73dbba7e #x10c20069 #x83c78e8a)
-  (fftw_codelet_r2cf_128 2 #x11bdd #x11bdd #x0 #xaf54131f #x9f3807c3 #x2345d1bd #x6243c1da)
+  (TIMEOUT 0 #x1040 #x11048 #x170 #x808a6ab6 #xa8ad41cb #xf4dbc9d6 #xed584a41)
+  (fftw_dft_vrank_geq1_register 0 #x11bdd #x11bdd #x0 #x4c536342 #x73dbba7e #x10c20069 #x83c78e8a)
   (fftw_codelet_n1fv_64_avx 0 #x31bff #x31bff #x0 #xb7c4d232 #x87a37f5b #xdedc5bf5 #x9157d813)
-  (fftw_rdft_thr_vrank_geq1_register 0 #x30bff #x30bff #x0 #xb261fb9b #xa7277831 #x2a81beac #x31cdd5cd)
-  (TIMEOUT 0 #x1040 #x11bdd #x170 #x3213f2b2 #x6a767ef9 #x5e03ca05 #x08a77a3c)
+  (fftw_codelet_r2cf_128 2 #x31bff #x31bff #x0 #x8def1726 #xd369a991 #xe95ce062 #x6626e530)
+  (fftw_codelet_n1fv_128_avx 0 #x31bff #x31bff #x0 #x1060d12e #x569cae13 #x74c3d6e6 #x4ff09f25)
   (fftw_codelet_r2cf_128 2 #x31bff #x31bff #x0 #x07e1f83a #xa6bef46d #x27d4efbf #x0ad359f1)
-  (fftw_codelet_hb_3 0 #x10048 #x10048 #x0 #x40ab6782 #xb65a2fdd #x73dd1a9e #x0f6fcd78)
+  (fftw_rdft_nop_register 0 #x10048 #x10048 #x0 #x020df6b3 #x02731c8c #xd41fecb2 #x3ae7bba9)
   (fftw_rdft_rank0_register 2 #x11bdd #x11bdd #x0 #x28dd24c1 #x2f04c060 #x4470a1ef #x13046e49)
+  (TIMEOUT 0 #x1040 #x11048 #x170 #xd557e28c #xce72b99d #x388b71f3 #x4b91eabd)
   (TIMEOUT 0 #x1040 #x11048 #x170 #xe3b75d1b #xb772c490 #x0e4082d0 #x1f7854cb)
-  (TIMEOUT 0 #x1040 #x11048 #x170 #xb4c5acbc #xdaeff467 #x058553a9 #x3dc0bcae)
-  (fftw_dft_vrank_geq1_register 0 #x31bff #x31bff #x0 #xef7f3bce #x6f956392 #x0f155687 #x20f6fad4)
+  (fftw_dft_vrank_geq1_register 0 #x11bdd #x11bdd #x0 #xb5d8c8d7 #x7b3497a3 #x528a754d #x364e5161)
+  (fftw_dft_vrank_geq1_register 0 #x11bdd #x11bdd #x0 #xef7f3bce #x6f956392 #x0f155687 #x20f6fad4)
   (fftw_rdft_generic_register 1 #x10bdd #x10bdd #x0 #x6f4163c6 #xde60cb2d #x0538bdd0 #xf6cee3f8)
   (fftw_rdft_thr_vrank_geq1_register 0 #x31bff #x31bff #x0 #x8039c509 #xe222b953 #x9f1ff22b #xd1bf762f)
   (fftw_codelet_t1fuv_3_avx 0 #x11bdd #x11bdd #x0 #xd1509a60 #x2b9d0583 #xe430dedd #x0bc65a61)
-  (fftw_codelet_n1bv_13_avx 0 #x31bff #x31bff #x0 #x9592b8b6 #xf18d0d52 #x95f7eb37 #xc845d163)
-  (fftw_codelet_r2cb_64 2 #x11bdd #x11bdd #x0 #xdb32ffda #x4b801940 #x657a1110 #xdc6056ed)
-  (fftw_codelet_n1fv_13_avx 0 #x11bdd #x11bdd #x0 #xd68024c6 #x486c9f76 #x7ece36d0 #x6c90d44c)
+  (fftw_codelet_n1bv_13_sse2 0 #x11bdd #x11bdd #x0 #x9592b8b6 #xf18d0d52 #x95f7eb37 #xc845d163)
+  (fftw_codelet_hb_3 1 #x30bff #x30bff #x0 #xbed80676 #x173a989d #x008ce334 #x17f4d2eb)
+  (fftw_codelet_n1fv_13_avx 0 #x31bff #x31bff #x0 #xd68024c6 #x486c9f76 #x7ece36d0 #x6c90d44c)
   (fftw_codelet_r2cfII_4 2 #x11bdd #x11bdd #x0 #xa28134d1 #x85ce5f18 #xe4195e09 #xb87458c0)
-  (fftw_codelet_t1bv_5_sse2 0 #x11bdd #x11bdd #x0 #xd1170c9a #xc291a525 #x96b064b8 #x90097338)
+  (fftw_codelet_t1buv_5_avx 0 #x31bff #x31bff #x0 #xd1170c9a #xc291a525 #x96b064b8 #x90097338)
   (fftw_codelet_n2fv_16_avx 0 #x11bdd #x11bdd #x0 #xc5917170 #x3b80bf13 #xdd2c5d13 #x757b0aaa)
   (fftw_rdft2_nop_register 0 #x31bff #x31bff #x0 #xa326c4a0 #x347f5b9c #x7900826e #x78896ee8)
   (fftw_dft_vrank_geq1_register 0 #x11bdd #x11bdd #x0 #x521d1743 #x7c4721c7 #x5f8eeb8f #x4bce57e1)
-  (fftw_rdft_nop_register 0 #x11048 #x11048 #x0 #x020df6b3 #x02731c8c #xd41fecb2 #x3ae7bba9)
-  (fftw_codelet_r2cf_64 2 #x31bff #x31bff #x0 #x3cdeed1e #x9306e55a #x191f0462 #x40999a49)
-  (fftw_rdft_vrank_geq1_register 0 #x10bdd #x10bdd #x0 #x37e26133 #x977a4f45 #x65e25c79 #x75719946)
+  (fftw_dft_vrank_geq1_register 0 #x11bdd #x11bdd #x0 #xa499d007 #x3e6f3d74 #x4ccec119 #xdfb55377)
+  (fftw_rdft_thr_vrank_geq1_register 0 #x30bff #x30bff #x0 #xa9b0f285 #x773cfb20 #x707abd0f #x4d8c7514)
+  (TIMEOUT 0 #x1040 #x11bdd #x170 #xdd53e3ed #x495d6073 #x39828eec #x9f055988)
   (fftw_codelet_t1fuv_3_avx 0 #x11bdd #x11bdd #x0 #x8049c984 #xcdf7b9af #x9acf27b7 #x124292c5)
   (TIMEOUT 0 #x1040 #x11bdd #x170 #x087832b2 #xbb2d856d #x9ae0ee0e #x9dc2683f)
   (fftw_rdft_generic_register 1 #x30bff #x30bff #x0 #xa1a838ff #x30db6e14 #x4c79f8c6 #xd446ae6f)
+  (fftw_codelet_n1fv_16_avx 0 #x31bff #x31bff #x0 #xb8b01f0b #xda802e15 #xbc85070d #xec15ac56)
   (fftw_rdft_vrank_geq1_register 0 #x11048 #x11048 #x0 #x4c800486 #x68fd40be #x6fa73225 #xe0d66a0d)
-  (fftw_rdft_generic_register 0 #x11048 #x11048 #x0 #x897deabd #x2f50df8d #x78ce307b #x32aebeeb)
   (TIMEOUT 0 #x1040 #x11048 #x170 #x1a8d667c #xed5a2b29 #x486f94c5 #xf3097806)
-  (fftw_codelet_r2cf_64 2 #x31bff #x31bff #x0 #x0a413f36 #xf5d66e76 #x0b1d9056 #xc84a3c53)
-  (fftw_rdft_thr_vrank_geq1_register 0 #x30bff #x30bff #x0 #xa9b0f285 #x773cfb20 #x707abd0f #x4d8c7514)
-  (fftw_codelet_hb_3 1 #x30bff #x30bff #x0 #xbed80676 #x173a989d #x008ce334 #x17f4d2eb)
-  (fftw_rdft_nop_register 0 #x30bff #x30bff #x0 #x114f3dc2 #xbf1f951b #x42acea82 #x123fd938)
+  (fftw_rdft_thr_vrank_geq1_register 0 #x30bff #x30bff #x0 #xb261fb9b #xa7277831 #x2a81beac #x31cdd5cd)
+  (TIMEOUT 0 #x1040 #x11048 #x170 #x68128896 #x869567a6 #x7a73b945 #xa0a42e3a)
+  (fftw_codelet_t1fuv_5_avx 0 #x11bdd #x11bdd #x0 #x953e484d #x57854c7c #x284ae731 #xc014cb22)
+  (fftw_rdft2_nop_register 0 #x11bdd #x11bdd #x0 #xebb5237a #xa25858c5 #xfbf63b00 #x831ac065)
   (TIMEOUT 0 #x1040 #x11bdd #x170 #x52fa67b2 #xcf968398 #xd2aa4be0 #xcdef714f)
   (fftw_rdft_vrank_geq1_register 0 #x11bdd #x11bdd #x0 #x740957bd #x00ac5f82 #xf18eb237 #x971abebb)
   (fftw_rdft2_rdft_register 0 #x13c5 #x11bdd #x0 #x3d43e356 #xc683bdd7 #x9a3603a5 #x48b67384)
   (TIMEOUT 0 #x1040 #x11048 #x170 #xee863c64 #x2fb12a35 #xc725e0db #x516a3243)
-  (fftw_codelet_r2cf_128 2 #x31bff #x31bff #x0 #xdab31c9f #x9172c372 #xa9c7d231 #x86ec8788)
-  (fftw_codelet_n1fv_128_avx 0 #x31bff #x31bff #x0 #x1060d12e #x569cae13 #x74c3d6e6 #x4ff09f25)
-  (fftw_rdft2_vrank_geq1_register 0 #x13c5 #x11bdd #x0 #x34e7f221 #x07649798 #x0f8ab691 #x8483bf7b)
-  (fftw_codelet_r2cf_128 2 #x31bff #x31bff #x0 #xaf54131f #x9f3807c3 #x2345d1bd #x6243c1da)
+  (fftw_codelet_r2cf_128 2 #x11bdd #x11bdd #x0 #xdab31c9f #x9172c372 #xa9c7d231 #x86ec8788)
+  (fftw_codelet_n1fv_128_avx 0 #x11bdd #x11bdd #x0 #x1060d12e #x569cae13 #x74c3d6e6 #x4ff09f25)
+  (fftw_rdft_vrank_geq1_register 0 #x11bdd #x11bdd #x0 #x60128f7c #x1ee17b29 #x815cae4f #xce25823a)
+  (fftw_codelet_r2cf_128 2 #x11bdd #x11bdd #x0 #xaf54131f #x9f3807c3 #x2345d1bd #x6243c1da)
   (fftw_codelet_r2cb_128 2 #x31bff #x31bff #x0 #xda7c02d3 #x06524507 #xc5dcd8e5 #x026b61e3)
   (TIMEOUT 0 #x1040 #x11bdd #x162 #x2f39cf83 #x20c405b5 #x864537f6 #x75672e05)
   (fftw_codelet_hf_3 0 #x11048 #x11048 #x0 #x9219e250 #xbcf7d395 #xff8515c9 #xa7453d2d)
-  (fftw_codelet_n1fv_64_avx 0 #x31bff #x31bff #x0 #xaa267a3d #x2a419877 #xa516cbe0 #xc4c99d4d)
+  (fftw_codelet_n2fv_4_sse2 0 #x1040 #x1040 #x0 #x67457c33 #x41330ea1 #x406cb659 #xf3ca716f)
   (fftw_rdft_vrank_geq1_register 0 #x11fdd #x11fdd #x0 #xe7783b8c #x36b18ec9 #x985af6c3 #x76366c55)
-  (fftw_rdft_vrank_geq1_register 0 #x10bdd #x10bdd #x0 #x5cab7ff8 #x406cc42f #x691dfdcd #x527e6ab0)
-  (fftw_codelet_hf_3 0 #x11bdd #x11bdd #x0 #x38480245 #xbe409ee0 #x454066c2 #x955b910d)
+  (fftw_codelet_r2cf_13 0 #x31bff #x31bff #x0 #x755b6f5b #xcd3fb29b #xaca8c586 #x32ea6c8d)
+  (fftw_dft_vrank_geq1_register 0 #x11bdd #x11bdd #x0 #xbc5852be #xbc7126eb #xb4212a64 #x74b49bfb)
   (fftw_dft_vrank_geq1_register 0 #x11bdd #x11bdd #x0 #x378b68ed #xd1361090 #x382cefe8 #x72f7834d)
-  (fftw_dft_vrank_geq1_register 0 #x31bff #x31bff #x0 #xde52cdde #x85a25c10 #x5e6372dd #x6e81a718)
+  (fftw_codelet_n1fv_64_avx 0 #x31bff #x31bff #x0 #x5661fcf2 #x3b3b5ef4 #x74ae09ae #xfce588c6)
   (fftw_rdft_generic_register 0 #x31bff #x31bff #x0 #x9d23098b #xedc4cbab #x2f32d9af #x035393c1)
-  (fftw_dft_generic_register 0 #x11bdd #x11bdd #x0 #xe391cdee #xa2d2b59f #xe605b384 #xf7b5d9d6)
-  (fftw_codelet_r2cf_128 2 #x11bdd #x11bdd #x0 #x8def1726 #xd369a991 #xe95ce062 #x6626e530)
+  (fftw_dft_generic_register 0 #x31bff #x31bff #x0 #xe391cdee #xa2d2b59f #xe605b384 #xf7b5d9d6)
+  (TIMEOUT 0 #x1040 #x11bdd #x170 #x34ca1e40 #xcb901294 #x4cfd3fe1 #xb0290450)
   (fftw_rdft2_vrank_geq1_register 0 #x13c5 #x11bdd #x0 #xf28855f1 #x2d3d91bc #x09b1a63a #xa74bade8)
-  (fftw_dft_vrank_geq1_register 0 #x31bff #x31bff #x0 #xb5d8c8d7 #x7b3497a3 #x528a754d #x364e5161)
+  (fftw_codelet_r2cb_3 0 #x10bdd #x10bdd #x0 #x6373f212 #x43610235 #x1257e7e9 #xdc415215)
   (TIMEOUT 0 #x1040 #x11048 #x170 #xc005c461 #x5ff307bd #xc1608ab9 #x826dc37e)
   (fftw_codelet_hb_3 1 #x30bff #x30bff #x0 #x581ee64f #x6e07b56a #x9d2dfbc0 #xf8a4d761)
   (TIMEOUT 0 #x1040 #x11048 #x170 #xa9157198 #x4e91ef60 #x97bbca5e #x78a3e8fe)
   (fftw_codelet_hc2cfdftv_4_avx 0 #x11bdd #x11bdd #x0 #x2370d934 #x67bb9ff9 #x964b5cd1 #x6e5f0bac)
-  (fftw_dft_vrank_geq1_register 0 #x11bdd #x11bdd #x0 #x4c536342 #x73dbba7e #x10c20069 #x83c78e8a)
+  (fftw_dft_vrank_geq1_register 0 #x31bff #x31bff #x0 #x4c536342 #x73dbba7e #x10c20069 #x83c78e8a)
   (fftw_codelet_n1fv_64_avx 0 #x11bdd #x11bdd #x0 #xc917a2d8 #xad15992c #x0ec03060 #x6e4c6371)
   (fftw_codelet_r2cf_13 0 #x31bff #x31bff #x0 #x1ebdbfad #x42b5a1c4 #xa319a452 #x10018314)
-  (TIMEOUT 0 #x1040 #x11048 #x170 #x808a6ab6 #xa8ad41cb #xf4dbc9d6 #xed584a41)
   (fftw_codelet_hf_3 0 #x11bdd #x11bdd #x0 #x6dd48d2a #x89516339 #x5f00bf74 #xa11be05b)
+  (fftw_rdft_generic_register 1 #x10bdd #x10bdd #x0 #x995d4038 #x98a7ca96 #xac02fc35 #x35959497)
+  (TIMEOUT 0 #x1040 #x11bdd #x162 #x4d96b693 #x614ac541 #x73430d68 #x8eee18f0)
   (fftw_codelet_hf2_5 1 #x31bff #x31bff #x0 #x488199cc #x0d0091c1 #xd7cd7dd3 #xf3c9d808)
   (fftw_rdft2_vrank_geq1_register 0 #x13c5 #x11bdd #x0 #xbd1f7892 #x0f7580f2 #x45bc664d #x9ced75ca)
   (TIMEOUT 0 #x1040 #x11bdd #x162 #xba1ba077 #x3c021783 #x63d6d37f #xd5db1587)
   (fftw_rdft2_nop_register 0 #x31bff #x31bff #x0 #xf91a3f0c #x0b4a7f8e #xced25042 #x98e57926)
   (fftw_codelet_n1fv_64_avx 0 #x11bdd #x11bdd #x0 #xaa267a3d #x2a419877 #xa516cbe0 #xc4c99d4d)
   (fftw_codelet_n1fv_64_avx 0 #x31bff #x31bff #x0 #xc917a2d8 #xad15992c #x0ec03060 #x6e4c6371)
-  (TIMEOUT 0 #x1040 #x11048 #x170 #xa4dc7c80 #x5f01ad69 #x96f8ccbf #x4263160a)
+  (fftw_rdft_vrank_geq1_register 0 #x10bdd #x10bdd #x0 #x5cab7ff8 #x406cc42f #x691dfdcd #x527e6ab0)
   (TIMEOUT 0 #x1040 #x11bdd #x170 #xa4b71812 #xbc0ec5d8 #x4bc566f9 #xe0fd3c56)
-  (fftw_codelet_t1fuv_3_avx 0 #x31bff #x31bff #x0 #x8049c984 #xcdf7b9af #x9acf27b7 #x124292c5)
-  (fftw_codelet_r2cf_13 0 #x31bff #x31bff #x0 #x755b6f5b #xcd3fb29b #xaca8c586 #x32ea6c8d)
+  (fftw_rdft_vrank_geq1_register 0 #x10bdd #x10bdd #x0 #x37e26133 #x977a4f45 #x65e25c79 #x75719946)
   (fftw_rdft_vrank_geq1_register 0 #x11bdd #x11bdd #x0 #x6a664a95 #x8225c618 #x54bebf70 #x25bff84b)
-  (fftw_dft_vrank_geq1_register 0 #x11bdd #x11bdd #x0 #x7128dcb8 #x095d1e28 #x65419d05 #xbf58bd96)
-  (TIMEOUT 0 #x1040 #x11bdd #x170 #xd7a88d8b #xb51fb4ec #x18a6e3db #xc71ca349)
-  (fftw_dft_vrank_geq1_register 0 #x11bdd #x11bdd #x0 #xc03558d8 #xfae9da8a #xf4f4d549 #x95d9cdd9)
+  (fftw_dft_vrank_geq1_register 0 #x31bff #x31bff #x0 #x7128dcb8 #x095d1e28 #x65419d05 #xbf58bd96)
+  (fftw_rdft2_nop_register 0 #x11048 #x11048 #x0 #x9528bbca #x10243b67 #xc6a4e98b #x7c2e9e41)
+  (fftw_rdft_nop_register 0 #x10bdd #x10bdd #x0 #x114f3dc2 #xbf1f951b #x42acea82 #x123fd938)
   (TIMEOUT 0 #x1040 #x11bdd #x162 #xbff9e242 #x84f9cb2c #xbeab193e #xb0d7ddd5)
-  (fftw_dft_thr_vrank_geq1_register 0 #x31bff #x31bff #x0 #x8ff42654 #xbd5503a9 #x8d7ae4bc #x818c48f7)
+  (fftw_rdft2_nop_register 0 #x31bff #x31bff #x0 #x9dab3af7 #xab5b5500 #xa7713f47 #x9a07d5a6)
   (TIMEOUT 0 #x1040 #x11048 #x170 #xf920d1a3 #xe39b5a27 #x70be9b77 #x102a1782)
-  (fftw_rdft2_nop_register 0 #x11048 #x11048 #x0 #x9528bbca #x10243b67 #xc6a4e98b #x7c2e9e41)
+  (fftw_codelet_r2cb_64 2 #x11bdd #x11bdd #x0 #xdb32ffda #x4b801940 #x657a1110 #xdc6056ed)
+  (fftw_codelet_r2cf_64 2 #x31bff #x31bff #x0 #x3cdeed1e #x9306e55a #x191f0462 #x40999a49)
   (fftw_rdft_generic_register 1 #x10048 #x10048 #x0 #x59a18708 #xd3f54a41 #x20388058 #xdd01024c)
-  (fftw_codelet_r2cf_5 0 #x31bff #x31bff #x0 #x22ab6312 #x147f521c #x21efb0c8 #xd44a5d35)
   (fftw_rdft_nop_register 0 #x30bff #x30bff #x0 #xf09aa414 #x99ea9141 #x81a4ce91 #x407c594f)
   (fftw_rdft2_nop_register 0 #x11bdd #x11bdd #x0 #xce71d37a #x4c190203 #x866c7f50 #x5cd1caf6)
   (fftw_codelet_r2cf_2 2 #x31bff #x31bff #x0 #x5c2d9c92 #x1b84cbe1 #x3cea7744 #x1ea22fd3)
-  (fftw_codelet_r2cf_3 0 #x11bdd #x11bdd #x0 #xaa6678d3 #xb5c9a722 #xe558733c #xe1ea7921)
-  (fftw_dft_generic_register 0 #x31bff #x31bff #x0 #x63703094 #x0ae238b2 #xddb2c581 #x2d02ac1f)
+  (TIMEOUT 0 #x1040 #x11048 #x170 #xb4c5acbc #xdaeff467 #x058553a9 #x3dc0bcae)
+  (fftw_dft_generic_register 0 #x11bdd #x11bdd #x0 #x63703094 #x0ae238b2 #xddb2c581 #x2d02ac1f)
   (fftw_codelet_t1fuv_3_avx 0 #x31bff #x31bff #x0 #xd1509a60 #x2b9d0583 #xe430dedd #x0bc65a61)
-  (fftw_codelet_t1fuv_5_avx 0 #x31bff #x31bff #x0 #x953e484d #x57854c7c #x284ae731 #xc014cb22)
-  (fftw_dft_vrank_geq1_register 0 #x11bdd #x11bdd #x0 #xef7f3bce #x6f956392 #x0f155687 #x20f6fad4)
+  (fftw_codelet_r2cf_3 0 #x31bff #x31bff #x0 #xaa6678d3 #xb5c9a722 #xe558733c #xe1ea7921)
+  (fftw_dft_vrank_geq1_register 0 #x31bff #x31bff #x0 #xef7f3bce #x6f956392 #x0f155687 #x20f6fad4)
+  (fftw_rdft_indirect_register 0 #x11bdd #x11bdd #x0 #x5e59faac #xae76c164 #xcd290364 #x4e084123)
   (fftw_rdft2_rdft_register 0 #x213e7 #x31bff #x0 #xb935c98d #x47591275 #x7a611a5e #x330f9b8f)
-  (fftw_codelet_r2cf_128 2 #x31bff #x31bff #x0 #x8def1726 #xd369a991 #xe95ce062 #x6626e530)
+  (fftw_codelet_r2cf_128 2 #x11bdd #x11bdd #x0 #x8def1726 #xd369a991 #xe95ce062 #x6626e530)
   (fftw_rdft2_rdft_register 0 #x213e7 #x31bff #x0 #x6db72985 #x12b56aa8 #x79a8de33 #x264f7615)
-  (fftw_dft_generic_register 0 #x11bdd #x11bdd #x0 #x63703094 #x0ae238b2 #xddb2c581 #x2d02ac1f)
-  (fftw_rdft2_nop_register 0 #x31bff #x31bff #x0 #x9dab3af7 #xab5b5500 #xa7713f47 #x9a07d5a6)
+  (fftw_dft_generic_register 0 #x31bff #x31bff #x0 #x63703094 #x0ae238b2 #xddb2c581 #x2d02ac1f)
   (fftw_dft_thr_vrank_geq1_register 0 #x31bff #x31bff #x0 #xba62642e #x747e2485 #x882d27d7 #xd9778e79)
   (fftw_codelet_r2cf_4 2 #x11bdd #x11bdd #x0 #x884f4084 #xa8f0d98b #xdd538409 #x0615f15d)
   (fftw_codelet_n1bv_13_avx 0 #x31bff #x31bff #x0 #xf030f1b0 #x699ad269 #x62424268 #xcc8f7823)
-  (fftw_dft_vrank_geq1_register 0 #x31bff #x31bff #x0 #xa499d007 #x3e6f3d74 #x4ccec119 #xdfb55377)
+  (fftw_rdft2_rdft_register 0 #x13c5 #x11bdd #x0 #x81629a49 #x74ec1bd5 #x634bf202 #x6b2d0259)
   (fftw_codelet_r2cb_64 2 #x31bff #x31bff #x0 #xc9774fc6 #x1e417793 #x15993cf3 #xee4c6c89)
-  (fftw_rdft_nop_register 0 #x30bff #x30bff #x0 #xd0702255 #xe76a9ab3 #x5398ff07 #x60ee718e)
-  (fftw_dft_vrank_geq1_register 0 #x11bdd #x11bdd #x0 #xbc5852be #xbc7126eb #xb4212a64 #x74b49bfb)
+  (fftw_rdft2_rdft_register 0 #x213e7 #x31bff #x0 #x9188bc7d #xb0e0c3c3 #x3de1be5e #x0d90290b)
+  (fftw_codelet_hf_3 1 #x31bff #x31bff #x0 #x76455c47 #x4e959639 #x9db20dd0 #xd9263d94)
   (fftw_rdft2_nop_register 0 #x31bff #x31bff #x0 #xbd54d977 #xa74ce218 #x4e3cdb1e #x866a27d9)
-  (fftw_codelet_n1bv_11_avx 0 #x11bdd #x11bdd #x0 #xdccbad32 #x7f9db36b #xb26023c4 #xa2d2c4fd)
-  (fftw_rdft_generic_register 1 #x10fdd #x10fdd #x0 #xc9e3cb61 #xfda8eb89 #xf69856e2 #xa3af74e4)
+  (fftw_codelet_r2cf_64 2 #x11bdd #x11bdd #x0 #x3cdeed1e #x9306e55a #x191f0462 #x40999a49)
+  (TIMEOUT 0 #x1040 #x11bdd #x170 #x3213f2b2 #x6a767ef9 #x5e03ca05 #x08a77a3c)
   (fftw_rdft_generic_register 0 #x11bdd #x11bdd #x0 #x61d70d4e #x88af45d4 #x7b91a2b4 #xd0255ae7)
   (fftw_codelet_r2cb_5 0 #x30bff #x30bff #x0 #x4158e196 #xf986cf1e #x920510f1 #x0c309e10)
-  (fftw_dft_generic_register 0 #x31bff #x31bff #x0 #xe7cb2713 #x0529cbae #xc1f6292f #x7d4c31cd)
-  (fftw_rdft_vrank_geq1_register 0 #x10fdd #x10fdd #x0 #x77c18f43 #xa9b91a7d #x9434e393 #xa5c84fda)
-  (fftw_codelet_hf_3 1 #x31bff #x31bff #x0 #x1566e5af #xa11c08ff #x53b3f133 #x492ee602)
+  (TIMEOUT 0 #x1040 #x11048 #x170 #xa4dc7c80 #x5f01ad69 #x96f8ccbf #x4263160a)
+  (TIMEOUT 0 #x1040 #x11048 #x170 #xb3b9aa19 #x4b1ab5f6 #xbcb1aebb #x69879cc8)
+  (fftw_codelet_n1fv_128_avx 0 #x11bdd #x11bdd #x0 #xcf6601ad #xf464a3e3 #x9db82ec5 #x8fd45dd0)
+  (fftw_rdft_generic_register 1 #x10fdd #x10fdd #x0 #xc9e3cb61 #xfda8eb89 #xf69856e2 #xa3af74e4)
   (fftw_rdft_generic_register 1 #x30bff #x30bff #x0 #x37887400 #x8c76923b #x34ec4a06 #x2583f437)
   (fftw_dft_vrank_geq1_register 0 #x31bff #x31bff #x0 #x521d1743 #x7c4721c7 #x5f8eeb8f #x4bce57e1)
   (fftw_dft_vrank_geq1_register 0 #x31bff #x31bff #x0 #x378b68ed #xd1361090 #x382cefe8 #x72f7834d)
-  (fftw_rdft2_rdft_register 0 #x1040 #x11048 #x0 #xbfde4bf6 #xfb56dc9a #x4e30fdee #xc7a444a3)
-  (fftw_rdft_generic_register 1 #x10bdd #x10bdd #x0 #x995d4038 #x98a7ca96 #xac02fc35 #x35959497)
-  (fftw_rdft2_nop_register 0 #x11bdd #x11bdd #x0 #xebb5237a #xa25858c5 #xfbf63b00 #x831ac065)
-  (fftw_codelet_n2fv_4_sse2 0 #x1040 #x1040 #x0 #x67457c33 #x41330ea1 #x406cb659 #xf3ca716f)
-  (fftw_codelet_t1fuv_5_avx 0 #x11bdd #x11bdd #x0 #x953e484d #x57854c7c #x284ae731 #xc014cb22)
-  (fftw_codelet_r2cb_3 0 #x10bdd #x10bdd #x0 #x6373f212 #x43610235 #x1257e7e9 #xdc415215)
+  (fftw_rdft2_rdft_register 0 #x213e7 #x31bff #x0 #x9a583204 #xe864d47c #xaa162cae #xa0e59716)
+  (fftw_codelet_r2cb_13 0 #x30bff #x30bff #x0 #x1fb05262 #xab6efd01 #xf164e5a8 #xca8254b0)
+  (fftw_rdft_nop_register 0 #x31bff #x31bff #x0 #xd0702255 #xe76a9ab3 #x5398ff07 #x60ee718e)
+  (fftw_codelet_hf_3 0 #x11bdd #x11bdd #x0 #x38480245 #xbe409ee0 #x454066c2 #x955b910d)
+  (fftw_codelet_t1fuv_5_avx 0 #x31bff #x31bff #x0 #x953e484d #x57854c7c #x284ae731 #xc014cb22)
+  (fftw_codelet_r2cb_3 0 #x30bff #x30bff #x0 #x6373f212 #x43610235 #x1257e7e9 #xdc415215)
   (fftw_codelet_r2cb_64 2 #x31bff #x31bff #x0 #xdb32ffda #x4b801940 #x657a1110 #xdc6056ed)
   (TIMEOUT 0 #x1040 #x11048 #x170 #xee18e9a8 #x12403891 #xb2b082c5 #x37fb4073)
-  (fftw_rdft_nop_register 0 #x31bff #x31bff #x0 #x114f3dc2 #xbf1f951b #x42acea82 #x123fd938)
+  (fftw_rdft_nop_register 0 #x30bff #x30bff #x0 #x114f3dc2 #xbf1f951b #x42acea82 #x123fd938)
 )
-- 
2.43.0


From 3014e698e9cc006bddeafa12d62205d02bb452d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:06 +0000
Subject: [PATCH 73/87] fix: cwt, ssq_cwt no longer accept negative order

---
 ssqueezepy/_cwt.py     | 2 +-
 ssqueezepy/_ssq_cwt.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ssqueezepy/_cwt.py b/ssqueezepy/_cwt.py
index 43e7996..92838d4 100644
--- a/ssqueezepy/_cwt.py
+++ b/ssqueezepy/_cwt.py
@@ -235,7 +235,7 @@ def cwt(x, wavelet='gmw', scales='log-piecewise', fs=None, t=None, nv=32,
         is_2D = (x.ndim == 2)
         return x, N, nv, dt, is_2D, cache_wavelet
 
-    if isinstance(order, (tuple, list, range)) or order > 0:
+    if isinstance(order, (tuple, list, range)) or order != 0:
         kw = dict(wavelet=wavelet, scales=scales, fs=fs, t=t, nv=nv,
                   l1_norm=l1_norm, derivative=derivative, padtype=padtype,
                   rpadded=rpadded, vectorized=vectorized, patience=patience,
diff --git a/ssqueezepy/_ssq_cwt.py b/ssqueezepy/_ssq_cwt.py
index 0550d07..56477bd 100644
--- a/ssqueezepy/_ssq_cwt.py
+++ b/ssqueezepy/_ssq_cwt.py
@@ -227,7 +227,7 @@ def ssq_cwt(x, wavelet='gmw', scales='log-piecewise', nv=None, fs=None, t=None,
     n1, n2 = p2up(N)[1:] if padtype is not None else (0, 0)
 
     # CWT with higher-order GMWs
-    if isinstance(order, (tuple, list, range)) or order > 0:
+    if isinstance(order, (tuple, list, range)) or order != 0:
         # keep padding for `trigdiff`
         kw = dict(wavelet=wavelet, scales=scales, fs=fs, nv=nv,
                   l1_norm=True, derivative=False, padtype=padtype, rpadded=True,
-- 
2.43.0


From 7d4be8d4d22d92278bd4dd01d9b49def94b67673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:06 +0000
Subject: [PATCH 74/87] fix: assert_is_one_of names supported values that are
 not strings

---
 ssqueezepy/utils/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssqueezepy/utils/common.py b/ssqueezepy/utils/common.py
index 61a421a..f14d617 100644
--- a/ssqueezepy/utils/common.py
+++ b/ssqueezepy/utils/common.py
@@ -300,7 +300,7 @@ def mad(data, axis=None):
 def assert_is_one_of(x, name, supported, e=ValueError):
     if x not in supported:
         raise e("`{}` must be one of: {} (got {})".format(
-            name, ', '.join(supported), x))
+            name, ', '.join(map(str, supported)), x))
 
 
 def _textwrap(txt, wrap_len=50):
-- 
2.43.0


From 951bd1b38817d9497352f3cce6af26b0ca4d655b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:06 +0000
Subject: [PATCH 75/87] fix: Wavelet accepts dtype given as a type

---
 ssqueezepy/wavelets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssqueezepy/wavelets.py b/ssqueezepy/wavelets.py
index f377c0e..48ef317 100644
--- a/ssqueezepy/wavelets.py
+++ b/ssqueezepy/wavelets.py
@@ -399,7 +399,7 @@ class Wavelet():
         elif not isinstance(dtype, (type, np.dtype, torch.dtype)):
             raise TypeError("`dtype` must be string or type (np./torch.dtype) "
                             "(got %s)" % dtype)
-        return dtype if not as_str else str(dtype).split('.')[-1]
+        return dtype if not as_str else str(dtype).split('.')[-1].rstrip("'>")
 
     #### Init ################################################################
     @classmethod
-- 
2.43.0


From 3c4bcec6e1d7e601efea3079f562535cddc0d840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:06 +0000
Subject: [PATCH 76/87] fix: integrate_analytic skipped the interval next to .1

---
 ssqueezepy/utils/cwt_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssqueezepy/utils/cwt_utils.py b/ssqueezepy/utils/cwt_utils.py
index 3d2a16e..60137f7 100644
--- a/ssqueezepy/utils/cwt_utils.py
+++ b/ssqueezepy/utils/cwt_utils.py
@@ -601,7 +601,7 @@ def integrate_analytic(int_fn, nowarn=False):
     Integrates near zero separately in log space (useful for e.g. 1/x).
     """
     def _est_arr(mxlim, N):
-        t = np.linspace(mxlim, .1, N, endpoint=False)[::-1].copy()
+        t = np.linspace(mxlim, .1, N)[::-1].copy()
         arr = int_fn(t)
 
         max_idx = np.argmax(arr)
-- 
2.43.0


From 8cc4be3b929f094d79c6a4e8f942e85fe1fcc639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:06 +0000
Subject: [PATCH 77/87] fix: integrate_analytic finds the peak of complex
 integrands by magnitude

---
 ssqueezepy/utils/cwt_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssqueezepy/utils/cwt_utils.py b/ssqueezepy/utils/cwt_utils.py
index 60137f7..f537a05 100644
--- a/ssqueezepy/utils/cwt_utils.py
+++ b/ssqueezepy/utils/cwt_utils.py
@@ -604,7 +604,7 @@ def integrate_analytic(int_fn, nowarn=False):
         t = np.linspace(mxlim, .1, N)[::-1].copy()
         arr = int_fn(t)
 
-        max_idx = np.argmax(arr)
+        max_idx = np.argmax(np.abs(arr))
         min_neglect_idx = _min_neglect_idx(np.abs(arr[max_idx:]),
                                            th=1e-15) + max_idx
         return arr, t, min_neglect_idx
-- 
2.43.0


From 87b1aa173f3f5a9d864c79bc3b522ff7b40c0148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:06 +0000
Subject: [PATCH 78/87] fix: find_maximum, find_first_occurrence hung or
 skipped with steps_per_search * step_size not an integer

---
 ssqueezepy/algos.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ssqueezepy/algos.py b/ssqueezepy/algos.py
index a9ffd39..7098198 100644
--- a/ssqueezepy/algos.py
+++ b/ssqueezepy/algos.py
@@ -640,7 +640,7 @@ def find_maximum(fn, step_size=1e-3, steps_per_search=1e4, step_start=0,
     """
     steps_per_search = int(steps_per_search)
     largest_max = min_value
-    increment = int(steps_per_search * step_size)
+    increment = steps_per_search * step_size
 
     input_values = np.linspace(step_start, increment)
     output_values = -1 * np.ones(steps_per_search)
@@ -677,7 +677,7 @@ def find_first_occurrence(fn, value, step_size=1e-3, steps_per_search=1e4,
     Takes absolute value of fn's outputs.
     """
     steps_per_search = int(steps_per_search)
-    increment = int(steps_per_search * step_size)
+    increment = steps_per_search * step_size
     output_values = -1 * np.ones(steps_per_search)
 
     step_limit_exceeded = False
-- 
2.43.0


From 7f92832d601b93b3fd05c32be1991e82986fd651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:06 +0000
Subject: [PATCH 79/87] fix: find_first_occurrence returns the earliest
 crossing

---
 ssqueezepy/algos.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ssqueezepy/algos.py b/ssqueezepy/algos.py
index 7098198..87bf6b2 100644
--- a/ssqueezepy/algos.py
+++ b/ssqueezepy/algos.py
@@ -695,7 +695,12 @@ def find_first_occurrence(fn, value, step_size=1e-3, steps_per_search=1e4,
 
         # more reliable than `argmin not in (0, len - 1)` for smooth `fn`
         if np.any(np.abs(output_values - value) <= mxdiff):
-            idx = np.argmin(np.abs(output_values - value))
+            diffs = np.abs(output_values - value)
+            crossings = np.flatnonzero(np.diff(np.sign(output_values - value)))
+            if len(crossings) > 0:  # earliest
+                idx = crossings[0] + np.argmin(diffs[crossings[0]:][:2])
+            else:
+                idx = np.argmin(diffs)
             break
         search_idx += 1
 
-- 
2.43.0


From ff64ffc32b62d869d05ee922d71f4868583ffd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:06 +0000
Subject: [PATCH 80/87] fix: trigdiff with padding and 3D input

---
 ssqueezepy/utils/common.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ssqueezepy/utils/common.py b/ssqueezepy/utils/common.py
index f14d617..a50e4c3 100644
--- a/ssqueezepy/utils/common.py
+++ b/ssqueezepy/utils/common.py
@@ -210,7 +210,10 @@ def trigdiff(A, fs=1., padtype=None, rpadded=None, N=None, n1=None, window=None,
 
     if padtype is not None:
         N = N or A.shape[-1]
-        A, _, n1, *_ = padsignal(A, padtype, get_params=True)
+        shape = A.shape[:-1]
+        A, _, n1, *_ = padsignal(A.reshape(-1, A.shape[-1]), padtype,
+                                 get_params=True)
+        A = A.reshape(*shape, -1)
 
     if transform == 'cwt':
         xi = S.asarray(_xifn(1, A.shape[-1]), A.dtype)
-- 
2.43.0


From dcf0d73c6947326d7e4068ab59dc54fd1175d442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:06 +0000
Subject: [PATCH 81/87] fix: phase_ssqueeze passes Sfs to phase_transform

---
 ssqueezepy/experimental.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ssqueezepy/experimental.py b/ssqueezepy/experimental.py
index 74cc578..ac6c301 100644
--- a/ssqueezepy/experimental.py
+++ b/ssqueezepy/experimental.py
@@ -178,7 +178,8 @@ def phase_ssqueeze(Wx, dWx=None, ssq_freqs=None, scales=None, Sfs=None, fs=1.,
     """
     w, Wx, dWx, Sfs, gamma = phase_transform(
         Wx, dWx, difftype, difforder=difforder, gamma=gamma, rpadded=rpadded,
-        padtype=padtype, N=N, n1=n1, get_w=get_w, fs=fs, transform=transform)
+        padtype=padtype, N=N, n1=n1, get_w=get_w, fs=fs, Sfs=Sfs,
+        transform=transform)
 
     if w is not None and not get_dWx:
         dWx = None
-- 
2.43.0


From 7d34fe596e153efc0d1f2713de399a73ddf0aa47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:06 +0000
Subject: [PATCH 82/87] fix: wavelet_heatmap accepts an array of scales

---
 ssqueezepy/visuals.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ssqueezepy/visuals.py b/ssqueezepy/visuals.py
index 885a996..95d126a 100644
--- a/ssqueezepy/visuals.py
+++ b/ssqueezepy/visuals.py
@@ -303,8 +303,7 @@ def wavelet_tf_anim(wavelet, N=2048, scales=None, width=1.1, height=1,
 
 def wavelet_heatmap(wavelet, scales='log', N=2048):
     wavelet = Wavelet._init_if_not_isinstance(wavelet)
-    if not isinstance(scales, np.ndarray):
-        scales = process_scales(scales, N, wavelet, use_padded_N=False)
+    scales = process_scales(scales, N, wavelet, use_padded_N=False)
 
     #### Compute time- & freq-domain wavelets for all scales #################
     Psi = asnumpy(wavelet.psifn(scale=scales, N=N))
-- 
2.43.0


From edd6640a0cf9303acd85577d45141f629a3ce1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:06 +0000
Subject: [PATCH 83/87] fix: plots with a single axes

---
 ssqueezepy/visuals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssqueezepy/visuals.py b/ssqueezepy/visuals.py
index 95d126a..03e38f6 100644
--- a/ssqueezepy/visuals.py
+++ b/ssqueezepy/visuals.py
@@ -834,7 +834,7 @@ def plots(X, Y=None, nrows=None, ncols=None, tight=True, sharex=False,
         X, Y, nrows, ncols, tight, skw, pkw, kw)
 
     _, axes = plt.subplots(nrows, ncols, sharex=sharex, sharey=sharey, **skw)
-    for ax, x, y, _pkw in zip(axes.flat, X, Y, pkw):
+    for ax, x, y, _pkw in zip(np.ravel(axes), X, Y, pkw):
         if isinstance(x, list):
             for _x, _y, __pkw in zip(x, y, _pkw):
                 plot(_x, _y, ax=ax, **__pkw, **kw)
-- 
2.43.0


From 8dc33fdb7b386926f4c92c66c8e40b530e0a6ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:06 +0000
Subject: [PATCH 84/87] fix: plots no longer modifies caller's tight

---
 ssqueezepy/visuals.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ssqueezepy/visuals.py b/ssqueezepy/visuals.py
index 03e38f6..d3b1abb 100644
--- a/ssqueezepy/visuals.py
+++ b/ssqueezepy/visuals.py
@@ -822,9 +822,7 @@ def plots(X, Y=None, nrows=None, ncols=None, tight=True, sharex=False,
             if not isinstance(tight, dict):
                 tight = default.copy()
             else:
-                for name in default:
-                    if name not in tight:
-                        tight[name] = default[name]
+                tight = {**default, **tight}
 
         kw['w'] = kw.get('w', .8)
         kw['h'] = kw.get('h', .8)  # default 'tight' enlarges plot
-- 
2.43.0


From 847cedecb64e7d2ae98408148b67897dbd379ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:06 +0000
Subject: [PATCH 85/87] fix: titles' options no longer modified

---
 ssqueezepy/visuals.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ssqueezepy/visuals.py b/ssqueezepy/visuals.py
index d3b1abb..2ad9a3c 100644
--- a/ssqueezepy/visuals.py
+++ b/ssqueezepy/visuals.py
@@ -975,8 +975,7 @@ def _maybe_title(title, ax=None):
     title, kw = (title if isinstance(title, tuple) else
                  (title, {}))
     defaults = gdefaults('visuals._maybe_title', get_all=True, as_dict=True)
-    for name in defaults:
-        kw[name] = kw.get(name, defaults[name])
+    kw = {**defaults, **kw}
 
     if ax:
         ax.set_title(str(title), **kw)
-- 
2.43.0


From 30430d2ed54cc0adfa724542e06a50edb1f189a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:06 +0000
Subject: [PATCH 86/87] fix: ax_equal together with xlims

---
 ssqueezepy/visuals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssqueezepy/visuals.py b/ssqueezepy/visuals.py
index 2ad9a3c..fd73ac0 100644
--- a/ssqueezepy/visuals.py
+++ b/ssqueezepy/visuals.py
@@ -995,7 +995,7 @@ def _scale_plot(fig, ax, show=False, ax_equal=False, w=None, h=None,
 
     if ax_equal:
         yabsmax = max(np.abs([*ax.get_ylim()]))
-        mx = max(yabsmax, max(np.abs([xmin, xmax])))
+        mx = max(yabsmax, max(np.abs([*ax.get_xlim()])))
         ax.set_xlim(-mx, mx)
         ax.set_ylim(-mx, mx)
         fig.set_size_inches(8*(w or 1), 8*(h or 1))
-- 
2.43.0


From 9d72012d41ef025ad3f7d95bb02b160ce6b44b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:06 +0000
Subject: [PATCH 87/87] fix: labels and ticks are set on the given axes

---
 ssqueezepy/visuals.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ssqueezepy/visuals.py b/ssqueezepy/visuals.py
index fd73ac0..139be08 100644
--- a/ssqueezepy/visuals.py
+++ b/ssqueezepy/visuals.py
@@ -1004,13 +1004,13 @@ def _scale_plot(fig, ax, show=False, ax_equal=False, w=None, h=None,
     if ylims:
         ax.set_ylim(*ylims)
     if dx1:
-        plt.xticks(np.arange(dx1))
+        ax.set_xticks(np.arange(dx1))
     if w or h:
         fig.set_size_inches(14*(w or 1), 8*(h or 1))
     if xlabel is not None:
-        plt.xlabel(xlabel, weight='bold', fontsize=15)
+        ax.set_xlabel(xlabel, weight='bold', fontsize=15)
     if ylabel is not None:
-        plt.ylabel(ylabel, weight='bold', fontsize=15)
+        ax.set_ylabel(ylabel, weight='bold', fontsize=15)
     if show:
         plt.show()
 
-- 
2.43.0

