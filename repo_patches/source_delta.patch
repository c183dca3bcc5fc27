From 6fad491e3a6e76be9425356775b6606077134c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:22 +0000
Subject: [PATCH 01/40] fix: decisions and searches start from the first
 candidate instead of a fixed sentinel

Samples far from the alphabet, and signals that are not normalised, silently
got a wrong symbol, a wrong distance or a wrong test angle.
---
 qampy/core/equalisation/pythran_equalisation.py |  8 ++++----
 qampy/core/pythran_dsp.py                       | 16 ++++++++--------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/qampy/core/equalisation/pythran_equalisation.py b/qampy/core/equalisation/pythran_equalisation.py
index 348fbf6..bb6b649 100644
--- a/qampy/core/equalisation/pythran_equalisation.py
+++ b/qampy/core/equalisation/pythran_equalisation.py
@@ -255,8 +255,8 @@ def det_symbol(X, symbs):
     d : float
         distance of X from s
     """
-    d0 = 1000.
-    s = symbs.dtype.type(1)
+    d0 = abs(X-symbs[0])**2
+    s = symbs[0]
     for j in range(symbs.shape[0]):
         d = abs(X-symbs[j])**2
         if d < d0:
@@ -285,8 +285,8 @@ def det_symbol_parallel(X, symbs): # this version can be much faster if not in a
     d : float
          distance of X from s
     """
-    d0 = 1000.
-    s = symbs.dtype.type(1)
+    d0 = abs(X-symbs[0])**2
+    s = symbs[0]
     d0_priv = d0
     s_priv = s
     ##omp parallel for
diff --git a/qampy/core/pythran_dsp.py b/qampy/core/pythran_dsp.py
index c9f1365..d7da426 100644
--- a/qampy/core/pythran_dsp.py
+++ b/qampy/core/pythran_dsp.py
@@ -14,7 +14,8 @@ def cal_exp_sum(sym , syms, z, sigma):
 
 #we need to use this version because of #1133 which made argmin significantly slower
 def det_symbol(X, symbs):
-    d0 = 1000.
+    d0 = cabsq(X-symbs[0])
+    s = symbs[0]
     for j in range(symbs.shape[0]):
         d = cabsq(X-symbs[j])
         if d < d0:
@@ -28,7 +29,7 @@ def select_angle_index(x, N):
     csum = np.zeros((L, M), dtype=x.dtype)
     idx = np.zeros(L, dtype=np.int32)
     for i in range(1, L):
-        dmin = 1000.
+        dmin = 0.
         if i < N:
             for k in range(M):
                 csum[i, k] = csum[i-1, k] + x[i, k]
@@ -36,7 +37,7 @@ def select_angle_index(x, N):
             for k in range(M):
                 csum[i, k] = csum[i-1, k] + x[i, k]
                 dtmp = csum[i, k] - csum[i-N, k]
-                if dtmp < dmin:
+                if k == 0 or dtmp < dmin:
                     idx[i-N//2] = k
                     dmin = dtmp
     return idx
@@ -70,7 +71,7 @@ def bps(E, testangles, symbols, N):
     M = symbols.shape[0]
     Ntestangles = testangles.shape[1]
     comp = np.exp(1j*testangles)
-    dists = np.zeros((L, Ntestangles), dtype=testangles.dtype)+100.
+    dists = np.zeros((L, Ntestangles), dtype=testangles.dtype)
     #omp parallel for
     for i in range(L):
         if p > 1:
@@ -80,8 +81,7 @@ def bps(E, testangles, symbols, N):
         for j in range(Ntestangles):
             tmp = E[i] * comp[ph_idx, j]
             s, dtmp = det_symbol(tmp, symbols)
-            if dtmp < dists[i, j]:
-                dists[i, j] = dtmp
+            dists[i, j] = dtmp
     return select_angle_index(dists, 2*N)
 
 def cal_l_values(btx, rx, snr):
@@ -104,8 +104,8 @@ def soft_l_value_demapper(rx_symbs, num_bits, snr, bits_map):
     return L_values
 
 def find_minmax(btx, rx):
-    tmp = 10000.
-    tmp2 = 10000.
+    tmp = abs(btx[0,1] - rx)**2
+    tmp2 = abs(btx[0,0] - rx)**2
     k = btx.shape[0]
     for l in range(k):
         tmp3 = abs(btx[l,1] - rx)**2
-- 
2.43.0


From 3e22ed23844ecc56dd837734ede3b101174d38e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:04 +0000
Subject: [PATCH 02/40] fix: estimate_snr ignores constellation points that
 were never sent

An alphabet point missing from the transmitted sequence selected an empty
set of samples, whose mean and variance (0/0) turned the whole estimate
into nan.
---
 qampy/core/pythran_dsp.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/qampy/core/pythran_dsp.py b/qampy/core/pythran_dsp.py
index d7da426..6292f10 100644
--- a/qampy/core/pythran_dsp.py
+++ b/qampy/core/pythran_dsp.py
@@ -276,12 +276,13 @@ def estimate_snr(signal_rx, symbols_tx, gray_symbols):
     for ind in range(N):
         sel_symbs = signal_rx[symbols_tx == gray_symbols[ind]]
         K = sel_symbs.shape[0]
-        Px = K/L
-        mu = np.mean(sel_symbs)
-        #dif = sel_symbs-mu
-        sigma = np.sqrt(np.sum(abs(sel_symbs-mu)**2)/K)
-        N0 += abs(sigma)**2*Px
-        in_pow += abs(mu)**2*Px
+        if K > 0: # symbols which were never sent do not contribute
+            Px = K/L
+            mu = np.mean(sel_symbs)
+            #dif = sel_symbs-mu
+            sigma = np.sqrt(np.sum(abs(sel_symbs-mu)**2)/K)
+            N0 += abs(sigma)**2*Px
+            in_pow += abs(mu)**2*Px
     snr = in_pow/N0
     return snr, in_pow, N0
 
-- 
2.43.0


From 180857575563d145285f5a5de18ce741b00b3f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:43 +0000
Subject: [PATCH 03/40] fix: segment_axis copies arrays that are not contiguous
 in memory

---
 qampy/core/segmentaxis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qampy/core/segmentaxis.py b/qampy/core/segmentaxis.py
index 1d3c6e2..37fd089 100644
--- a/qampy/core/segmentaxis.py
+++ b/qampy/core/segmentaxis.py
@@ -114,10 +114,11 @@ def segment_axis(a, length, overlap=0, axis=None, end='cut', endvalue=0):
             shape=newshape,
             buffer=a,
             dtype=a.dtype)
-    except TypeError:
+    except (TypeError, ValueError):
         warnings.warn("Problem with ndarray creation forces copy.")
         a = a.copy()
         # Shape doesn't change but strides does
+        s = a.strides[axis]
         newstrides = a.strides[:axis] + (
             (length - overlap) * s, s) + a.strides[axis + 1:]
         return N.ndarray.__new__(
-- 
2.43.0


From 02472e901117859cce4a9b4be962d4604ac3e3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:43 +0000
Subject: [PATCH 04/40] fix: wrapped frames and rolling windows stay inside the
 array when longer than the data

---
 qampy/core/segmentaxis.py | 2 +-
 qampy/core/utils.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/qampy/core/segmentaxis.py b/qampy/core/segmentaxis.py
index 37fd089..5ddfa72 100644
--- a/qampy/core/segmentaxis.py
+++ b/qampy/core/segmentaxis.py
@@ -89,7 +89,7 @@ def segment_axis(a, length, overlap=0, axis=None, end='cut', endvalue=0):
             if end == 'pad':
                 b[..., l:] = endvalue
             elif end == 'wrap':
-                b[..., l:] = a[..., :roundup - l]
+                b[..., l:] = a.take(N.arange(l, roundup) % l, axis=-1)
             a = b
 
         a = a.swapaxes(-1, axis)
diff --git a/qampy/core/utils.py b/qampy/core/utils.py
index 502f341..9611403 100644
--- a/qampy/core/utils.py
+++ b/qampy/core/utils.py
@@ -185,7 +185,7 @@ def rolling_window(data, size, wrap=False):
     if wrap:
         dt = size - 1
         shape = data.shape[:-1] + (data.shape[-1], size)
-        data = np.hstack([data, data[:dt]])
+        data = np.take(data, np.arange(data.shape[-1] + dt), axis=-1, mode="wrap")
     else:
         shape = data.shape[:-1] + (data.shape[-1] - size + 1, size)
     strides = data.strides + (data.strides[-1], )
-- 
2.43.0


From 3348553329cf71f78a7fcaccec3b322989f36abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:13 +0000
Subject: [PATCH 05/40] fix: extending a sequence keeps the requested length
 when the offset is a multiple of its length

---
 qampy/core/ber_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qampy/core/ber_functions.py b/qampy/core/ber_functions.py
index d8e6e1d..c6f91be 100644
--- a/qampy/core/ber_functions.py
+++ b/qampy/core/ber_functions.py
@@ -273,7 +273,7 @@ def adjust_data_length(data_tx, data_rx, method=None, offset=0):
                 data_tx = _adjust_to(data_tx, data_rx.shape[0])
             else:
                 data_tx1 = _adjust_to(data_tx, offset, back=False)
-                data_tx2 = _adjust_to(data_tx, data_rx.shape[0]-offset)
+                data_tx2 = _adjust_to(data_tx, data_rx.shape[0]-data_tx1.shape[0])
                 data_tx = np.hstack([data_tx1, data_tx2])
             return data_tx, data_rx
         else:
@@ -316,7 +316,7 @@ def _adjust_to(data, N, back=True):
     if back:
         data = np.hstack([tmp, data[:rem]])
     else:
-        data = np.hstack([data[-rem:], tmp])
+        data = np.hstack([data[L-rem:], tmp])
     return data
 
 def cal_ber_syncd(data_rx, data_tx, threshold=0.2):
-- 
2.43.0


From 164008a4b26da8778beedb27a3754795c9514e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:13 +0000
Subject: [PATCH 06/40] fix: find_sequence_offset_complex accepts sequences
 without any correlation

---
 qampy/core/ber_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/core/ber_functions.py b/qampy/core/ber_functions.py
index c6f91be..5aac8e8 100644
--- a/qampy/core/ber_functions.py
+++ b/qampy/core/ber_functions.py
@@ -91,7 +91,7 @@ def find_sequence_offset_complex(x, y):
     ii : integer
         power for complex rotation angle 1.j**ii
     """
-    acm = 0.
+    acm = -np.inf
     if not np.iscomplexobj(x) and not np.iscomplexobj(y):
         idx, acm = find_sequence_offset(x, y, show_cc=True)
         return idx, y, 0, acm
-- 
2.43.0


From 14db4d3b080ec9a1ff8083d9b756b160abf01569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:58 +0000
Subject: [PATCH 07/40] fix: find_offset ignores byte matches that straddle two
 elements

---
 qampy/core/utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/qampy/core/utils.py b/qampy/core/utils.py
index 9611403..95d2d71 100644
--- a/qampy/core/utils.py
+++ b/qampy/core/utils.py
@@ -150,7 +150,12 @@ def find_offset(sequence, data):
         data = data.astype(sequence.dtype)
     # using this string conversion method is much faster than array methods,
     # however it only finds the first occurence
-    return data.tostring().index(sequence.tostring()) // data.itemsize
+    # skip matches that straddle elements
+    d, s = data.tobytes(), sequence.tobytes()
+    idx = d.index(s)
+    while idx % data.itemsize:
+        idx = d.index(s, idx + 1)
+    return idx // data.itemsize
 
 
 def rolling_window(data, size, wrap=False):
-- 
2.43.0


From d2b25ebf34243b09adeef675ca87c65fb308728f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:16 +0000
Subject: [PATCH 08/40] fix: add_dispersion keeps the order of the modes

---
 qampy/core/impairments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/core/impairments.py b/qampy/core/impairments.py
index 4a325e8..f1bfd04 100644
--- a/qampy/core/impairments.py
+++ b/qampy/core/impairments.py
@@ -698,6 +698,6 @@ def add_dispersion(sig, fs, D, L, wl0=1550e-9):
     beta2 = D * wl0**2 / (C*np.pi*2)
     H = np.exp(-0.5j * omega**2 * beta2 * L).astype(sig.dtype)
     sff = fft.fft(fft.ifftshift(sig, axes=-1), axis=-1)
-    sig_out = fft.fftshift(fft.ifft(sff*H))
+    sig_out = fft.fftshift(fft.ifft(sff*H, axis=-1), axes=-1)
     return sig_out
 
-- 
2.43.0


From 1bd04a0f2fc2a4dcbf0410e126739a976f3f6498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:16 +0000
Subject: [PATCH 09/40] fix: simulate_transmission applies the requested
 dispersion

---
 qampy/impairments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/impairments.py b/qampy/impairments.py
index b4543ab..5677b29 100644
--- a/qampy/impairments.py
+++ b/qampy/impairments.py
@@ -165,7 +165,7 @@ def simulate_transmission(sig, snr=None, freq_off=None, lwdth=None, dgd=None, th
     if modal_delay is not None:
         sig = add_modal_delay(sig, modal_delay)
     if dispersion is not None:
-        sig = add_dispersion(sig, D, 1)
+        sig = add_dispersion(sig, dispersion, 1)
     if dgd is not None:
         sig = apply_PMD(sig, theta, dgd)
     return sig
-- 
2.43.0


From bab0101d35d8431b52a9107a37cfba70327e4a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:28 +0000
Subject: [PATCH 10/40] fix: comp_IQ_inbalance leaves its input unchanged

---
 qampy/core/analog_frontend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/core/analog_frontend.py b/qampy/core/analog_frontend.py
index 9454f04..8288b91 100644
--- a/qampy/core/analog_frontend.py
+++ b/qampy/core/analog_frontend.py
@@ -34,7 +34,7 @@ def comp_IQ_inbalance(signal):
     """
     
     # Center signal around a mean of 0
-    signal -= np.mean(signal)
+    signal = signal - np.mean(signal)
     I = signal.real
     Q = signal.imag
 
-- 
2.43.0


From 426d8c2e7121b5f2deeb5ddc3b73ecd9c2a69429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:28 +0000
Subject: [PATCH 11/40] fix: comp_IQ_inbalance handles quadratures that are
 stronger than the in-phase component

The balanced quadrature is rescaled afterwards, so the arcsin (nan when the
projection exceeds one) is not needed.
---
 qampy/core/analog_frontend.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/qampy/core/analog_frontend.py b/qampy/core/analog_frontend.py
index 8288b91..6270321 100644
--- a/qampy/core/analog_frontend.py
+++ b/qampy/core/analog_frontend.py
@@ -40,8 +40,7 @@ def comp_IQ_inbalance(signal):
 
     # phase balance
     mon_signal = np.sum(I*Q)/np.sum(I**2)
-    phase_inbalance = np.arcsin(-mon_signal)
-    Q_balcd = (Q + np.sin(phase_inbalance)*I)/np.cos(phase_inbalance)
+    Q_balcd = Q - mon_signal*I
     
     # Amplidue imbalance
     amp_inbalance = np.sum(I**2)/np.sum(Q_balcd**2)
-- 
2.43.0


From 2287bc09424ff9337639afd661048fd7ab93cc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:28 +0000
Subject: [PATCH 12/40] fix: orthonormalize_signal normalises the
 orthogonalised quadrature

---
 qampy/core/analog_frontend.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qampy/core/analog_frontend.py b/qampy/core/analog_frontend.py
index 6270321..4475b27 100644
--- a/qampy/core/analog_frontend.py
+++ b/qampy/core/analog_frontend.py
@@ -118,12 +118,13 @@ def orthonormalize_signal(E, os=1):
 
         # Calculate scalar products
         mean_pow_inphase = np.mean(real_out**2)
-        mean_pow_quadphase = np.mean(tmp_imag**2)
         mean_pow_imb = np.mean(real_out*tmp_imag)
+        imag_out = tmp_imag - mean_pow_imb * real_out / mean_pow_inphase
+        mean_pow_quadphase = np.mean(imag_out**2)
 
         # Output, Imag orthogonal to Real part of signal
         sig_out = real_out / np.sqrt(mean_pow_inphase) +\
-                                    1j*(tmp_imag - mean_pow_imb * real_out / mean_pow_inphase) / np.sqrt(mean_pow_quadphase)
+                                    1j*imag_out / np.sqrt(mean_pow_quadphase)
         # Final total normalization to ensure IQ-power equals 1
         E_out[l,:] = sig_out - np.mean(sig_out[::os])
         E_out[l,:] = E_out[l,:] / np.sqrt(np.mean(np.abs(E_out[l,::os])**2))
-- 
2.43.0


From b275a0d4322c9d6879f171f4f08fe9594c4652e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:28 +0000
Subject: [PATCH 13/40] fix: normalise_and_center_pil accepts a single mode

---
 qampy/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/helpers.py b/qampy/helpers.py
index c3c8c85..0eec7ff 100644
--- a/qampy/helpers.py
+++ b/qampy/helpers.py
@@ -60,7 +60,7 @@ def normalise_and_center_pil(sig, idx_pil):
     """
     Normalise and center the input field only based on pilot symbols, by calculating the mean power for each polarisation separate and dividing by its square-root
     """
-    sig_pil = sig[:, idx_pil]
+    sig_pil = sig[..., idx_pil]
     if sig.ndim > 1:
         ct_fac = - np.mean(sig_pil, axis=-1)[:, np.newaxis]
         sig_pil = sig_pil + ct_fac
-- 
2.43.0


From 41a83a652461f6c8006b76a286ff000bc7c0d316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:28 +0000
Subject: [PATCH 14/40] fix: rescale_signal accepts a single mode

---
 qampy/helpers.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/qampy/helpers.py b/qampy/helpers.py
index 0eec7ff..8a86146 100644
--- a/qampy/helpers.py
+++ b/qampy/helpers.py
@@ -99,13 +99,13 @@ def rescale_signal(E, swing=1):
     """
     Rescale the (1-pol) signal to (-swing, swing).
     """
-    swing = np.atleast_1d(swing)
+    if E.ndim > 1:
+        swing = np.atleast_1d(swing)[:, np.newaxis]
     if np.iscomplexobj(E):
-        scale_factor = np.maximum(np.max(abs(E.real), axis=-1), np.max(abs(E.imag), axis=-1))
-        return E / scale_factor[:, np.newaxis] * swing[:,np.newaxis]
+        scale_factor = np.maximum(np.max(abs(E.real), axis=-1, keepdims=True), np.max(abs(E.imag), axis=-1, keepdims=True))
     else:
-        scale_factor = np.max(abs(E), axis=-1)
-        return E / scale_factor[:, np.newaxis] * swing[:,np.newaxis]
+        scale_factor = np.max(abs(E), axis=-1, keepdims=True)
+    return E / scale_factor * swing
 
 def set_mid_and_resale(E,mid_pos=0,swing=1):
     """
-- 
2.43.0


From 2910dcbb87a8187f8584abc71dd35161e8d2681e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:52 +0000
Subject: [PATCH 15/40] fix: quantize_signal leaves its input unchanged

---
 qampy/core/impairments.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/qampy/core/impairments.py b/qampy/core/impairments.py
index f1bfd04..e2f3f3d 100644
--- a/qampy/core/impairments.py
+++ b/qampy/core/impairments.py
@@ -347,8 +347,7 @@ def quantize_signal(sig, nbits=6, rescale=True, re_normalize=True):
 
     # Rescale to
     if rescale:
-        for pol in range(npols):
-            sig[pol] /= np.abs(sig[pol]).max()
+        sig = sig / np.abs(sig).max(axis=-1, keepdims=True)
 
 
     levels = np.linspace(-1,1,2**(nbits))
-- 
2.43.0


From a1ced63986a2e63ce207597c61ab605310590197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:52 +0000
Subject: [PATCH 16/40] fix: quantize_signal_New quantises the input when it is
 not rescaled

---
 qampy/core/impairments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/core/impairments.py b/qampy/core/impairments.py
index e2f3f3d..2081d00 100644
--- a/qampy/core/impairments.py
+++ b/qampy/core/impairments.py
@@ -386,7 +386,7 @@ def quantize_signal_New(sig_in, nbits=6, rescale_in=True, rescale_out=True):
     npols = sig_in.shape[0]
 
     # Rescale to
-    sig = np.zeros((npols, sig_in.shape[1]), dtype=sig_in.dtype)
+    sig = sig_in
     if rescale_in:
         sig = rescale_signal(sig_in, swing=1)
 
-- 
2.43.0


From 91d744bbea3551136a7dc8bc435c2d72a485779d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:31 +0000
Subject: [PATCH 17/40] fix: make_prbs_intXOR passes the register length to
 prbs_int

---
 qampy/core/prbs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/core/prbs.py b/qampy/core/prbs.py
index acfb793..795ef68 100644
--- a/qampy/core/prbs.py
+++ b/qampy/core/prbs.py
@@ -91,6 +91,6 @@ def make_prbs_intXOR(order, nbits, seed=None):
             seed = utils.bool2bin(seed)
         except TypeError:
             seed = seed
-    out = prbs_int(seed, masks[order], nbits)
+    out = prbs_int(seed, masks[order], order, nbits)
     return out.astype(bool)
 
-- 
2.43.0


From 6980b94d5706311e2019d46380a223ff2721472e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:31 +0000
Subject: [PATCH 18/40] fix: SignalQAMGrayCoded.from_symbol_array sets the bits
 of every mode

---
 qampy/signals.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qampy/signals.py b/qampy/signals.py
index 7d489bf..6148a1b 100644
--- a/qampy/signals.py
+++ b/qampy/signals.py
@@ -765,8 +765,9 @@ class SignalQAMGrayCoded(SignalBase):
         scale = np.sqrt(theory.cal_scaling_factor_qam(M)) / np.sqrt((abs(np.unique(symbs)) ** 2).mean())
         coded_symbols, graycode, encoding, bitmap_mtx = cls._generate_mapping(M, scale, dtype=dtype)
         out = np.empty_like(symbs).astype(dtype)
+        idx = np.empty(symbs.shape, dtype=int)
         for i in range(symbs.shape[0]):
-            out[i], _, idx = make_decision(np.copy(symbs[i]), coded_symbols) # need a copy to avoid a pythran error
+            out[i], _, idx[i] = make_decision(np.copy(symbs[i]), coded_symbols) # need a copy to avoid a pythran error
         bits = cls._demodulate(idx, encoding)
         obj = np.asarray(out).view(cls)
         obj._M = M
-- 
2.43.0


From d23ea73462a6942d20c9df2201311e300d817369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:10 +0000
Subject: [PATCH 19/40] fix: train_equaliser uses the sign error function for
 sgncma

---
 qampy/core/equalisation/pythran_equalisation.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/qampy/core/equalisation/pythran_equalisation.py b/qampy/core/equalisation/pythran_equalisation.py
index bb6b649..6fd9770 100644
--- a/qampy/core/equalisation/pythran_equalisation.py
+++ b/qampy/core/equalisation/pythran_equalisation.py
@@ -131,7 +131,7 @@ def train_equaliser(E, TrSyms, Niter, os, mu, wx, modes, adaptive, symbols,  met
     if method == "mcma":
         errorfct = mcma_error
     elif method == "sgncma":
-        errorfct = cma_error
+        errorfct = sgncma_error
     elif method == "cma2":
         errorfct = cma2_error
     elif method == "cma":
@@ -184,8 +184,9 @@ def cma2_error(Xest, s1, i):
     return d*Xest
 
 def sgncma_error(Xest, s1, i):
-    d = np.sign(s1[0] - abs(Xest)**2)
-    return d*(np.sign(Xest.real)+1j*np.sign(Xest.imag))
+    J = Xest.dtype.type(1j)
+    d = np.sign(s1[0].real - abs(Xest)**2)
+    return d*np.sign(Xest.real) + d*np.sign(Xest.imag)*J
 
 def mcma_error(Xest, s1, i):
     J = Xest.dtype.type(1j)
-- 
2.43.0


From 45da25b59dec114e85198c3926e02b2212d1e68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:53 +0000
Subject: [PATCH 20/40] fix: generate_partition_codes_complex when real and
 imaginary levels differ in number

---
 qampy/core/equalisation/equalisation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qampy/core/equalisation/equalisation.py b/qampy/core/equalisation/equalisation.py
index 4bef90f..bb9b602 100644
--- a/qampy/core/equalisation/equalisation.py
+++ b/qampy/core/equalisation/equalisation.py
@@ -329,6 +329,10 @@ def generate_partition_codes_complex(M):
     syms /= np.sqrt(scale)
     syms_r = np.unique(abs(syms.real)**4/abs(syms.real)**2)
     syms_i = np.unique(abs(syms.imag)**4/abs(syms.imag)**2)
+    # the number of levels can differ (e.g. 8-QAM), repeat the outermost one so that both have the same number of codes
+    n = max(syms_r.size, syms_i.size)
+    syms_r = np.pad(syms_r, (0, n - syms_r.size), mode="edge")
+    syms_i = np.pad(syms_i, (0, n - syms_i.size), mode="edge")
     codes = syms_r + 1.j * syms_i
     part_r = syms_r[:-1] + np.diff(syms_r)/2
     part_i = syms_i[:-1] + np.diff(syms_i)/2
-- 
2.43.0


From af75bcea4b90f263740b30e7c1a741add0ffdf92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:41 +0000
Subject: [PATCH 21/40] fix: dual_mode_equalisation generates or selects the
 symbols of each method

---
 qampy/core/equalisation/equalisation.py | 9 ++++++---
 qampy/equalisation.py                   | 6 ++++--
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/qampy/core/equalisation/equalisation.py b/qampy/core/equalisation/equalisation.py
index bb9b602..a09ee42 100644
--- a/qampy/core/equalisation/equalisation.py
+++ b/qampy/core/equalisation/equalisation.py
@@ -458,9 +458,12 @@ def dual_mode_equalisation(E, os, mu, M, wxy=None, Ntaps=None, TrSyms=(None,None
 
     if apply is False do not return E
     """
-    symbols = np.atleast_1d(symbols)
-    if symbols.ndim < 3:
-        symbols = np.tile(symbols, (2,1,1))
+    if symbols is None:
+        symbols = (None, None)
+    elif len(symbols) != 2 or any(np.ndim(s) != 2 for s in symbols):
+        symbols = np.atleast_1d(symbols)
+        if symbols.ndim < 3:
+            symbols = np.tile(symbols, (2,1,1))
     wxy, err1 = equalise_signal(E, os, mu[0], M, wxy=wxy, Ntaps=Ntaps, TrSyms=TrSyms[0], Niter=Niter[0], method=methods[0], adaptive_stepsize=adaptive_stepsize[0], symbols=symbols[0],  modes=modes,**kwargs)
     wxy2, err2 = equalise_signal(E, os, mu[1], M, wxy=wxy, TrSyms=TrSyms[1], Niter=Niter[1], method=methods[1], adaptive_stepsize=adaptive_stepsize[1],  symbols=symbols[1],  modes=modes, **kwargs)
     if apply:
diff --git a/qampy/equalisation.py b/qampy/equalisation.py
index 209b959..23483e8 100644
--- a/qampy/equalisation.py
+++ b/qampy/equalisation.py
@@ -244,14 +244,16 @@ def dual_mode_equalisation(sig, mu, Ntaps, TrSyms=(None, None), Niter=(1, 1), me
 
     """
     if symbols is None:
+        symbols = []
         for method in methods:
             if method in core.equalisation.DATA_AIDED:
-                symbols = sig.symbols
+                symbols.append(np.atleast_2d(sig.symbols))
             else:
                 try:
-                    symbols = sig.coded_symbols
+                    symbols.append(np.atleast_2d(sig.coded_symbols))
                 except AttributeError:
                     symbols = None
+                    break
     if apply:
         sig_out, wx, err = core.equalisation.dual_mode_equalisation(sig, sig.os, mu, sig.M, Ntaps=Ntaps, TrSyms=TrSyms, methods=methods,
                                                        adaptive_stepsize=adaptive_stepsize, symbols=symbols, Niter=Niter,
-- 
2.43.0


From 1fedac14b437f287de37680a41fa188b01d80c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:26 +0000
Subject: [PATCH 22/40] fix: dual_mode_equalisation applies real-valued taps of
 selected modes

---
 qampy/core/equalisation/equalisation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qampy/core/equalisation/equalisation.py b/qampy/core/equalisation/equalisation.py
index a09ee42..6151eb4 100644
--- a/qampy/core/equalisation/equalisation.py
+++ b/qampy/core/equalisation/equalisation.py
@@ -465,11 +465,12 @@ def dual_mode_equalisation(E, os, mu, M, wxy=None, Ntaps=None, TrSyms=(None,None
         if symbols.ndim < 3:
             symbols = np.tile(symbols, (2,1,1))
     wxy, err1 = equalise_signal(E, os, mu[0], M, wxy=wxy, Ntaps=Ntaps, TrSyms=TrSyms[0], Niter=Niter[0], method=methods[0], adaptive_stepsize=adaptive_stepsize[0], symbols=symbols[0],  modes=modes,**kwargs)
-    wxy2, err2 = equalise_signal(E, os, mu[1], M, wxy=wxy, TrSyms=TrSyms[1], Niter=Niter[1], method=methods[1], adaptive_stepsize=adaptive_stepsize[1],  symbols=symbols[1],  modes=modes, **kwargs)
+    out = equalise_signal(E, os, mu[1], M, wxy=wxy, TrSyms=TrSyms[1], Niter=Niter[1], method=methods[1], adaptive_stepsize=adaptive_stepsize[1],  symbols=symbols[1],  modes=modes, apply=apply, **kwargs)
     if apply:
-        Eest = apply_filter(E, os, wxy2, modes=modes)
+        Eest, wxy2, err2 = out
         return Eest, wxy2, (err1, err2)
     else:
+        wxy2, err2 = out
         return wxy2, (err1, err2)
 
 def equalise_signal(E, os, mu, M, wxy=None, Ntaps=None, TrSyms=None, Niter=1, method="mcma", adaptive_stepsize=False,  symbols=None,  modes=None, apply=False,  **kwargs):
-- 
2.43.0


From d3905828ef6097948f462297785a8e626beb39b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:07 +0000
Subject: [PATCH 23/40] fix: SignalWithPilots generates pilots for every frame
 with repeat_pilots=False

---
 qampy/signals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/signals.py b/qampy/signals.py
index 6148a1b..6404942 100644
--- a/qampy/signals.py
+++ b/qampy/signals.py
@@ -1499,7 +1499,7 @@ class SignalWithPilots(SignalBase):
         if repeat_pilots:
             pilots = np.tile(SignalQAMGrayCoded(Mpilots, np.count_nonzero(idx_pil), nmodes=nmodes, dtype=dtype, **kwargs) * pilot_scale, (1, nframes))
         else:
-            pilots = SignalQAMGrayCoded(Mpilots, np.count_nonzero(idx_pil), nmodes=nmodes, dtype=dtype, **kwargs) * pilot_scale
+            pilots = SignalQAMGrayCoded(Mpilots, np.count_nonzero(idx_pil)*nframes, nmodes=nmodes, dtype=dtype, **kwargs) * pilot_scale
 
         # Note that currently the phase pilots start one symbol after the sequence
         # TODO: we should probably fix this
-- 
2.43.0


From 06be3bf229f40f0af33f0211a2d4e5538315ca07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:28 +0000
Subject: [PATCH 24/40] fix: SignalWithPilots.get_data selects the requested
 frames

---
 qampy/signals.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/qampy/signals.py b/qampy/signals.py
index 6404942..7c80778 100644
--- a/qampy/signals.py
+++ b/qampy/signals.py
@@ -1767,16 +1767,15 @@ class SignalWithPilots(SignalBase):
         """
         if frames is None:
             frames = np.arange(self.nframes)
-            nframes = self.nframes
         else:
             frames = np.atleast_1d(frames)
-            nframes = np.max(frames)
-            assert nframes <= self.nframes, "Signal object only contains {} frames can't extract more".format(self.nframes)
+            nframes = np.max(frames) + 1
+            assert nframes <= max(self.nframes, 1), "Signal object only contains {} frames can't extract more".format(self.nframes)
         #idx = np.hstack([np.nonzero(self._idx_dat)[0] + i * self._frame_len for i in frames] )
-        if nframes < 1:
+        if self.nframes < 1:
             idx = self._idx_dat[:self.shape[-1]]
         else:
-            idx = np.zeros(self.frame_len*nframes, dtype=bool)
+            idx = np.zeros(self.shape[-1], dtype=bool)
             for i in frames:
                 idx[i*self.frame_len:(i+1)*self.frame_len] = self._idx_dat
         return self.symbols.recreate_from_np_array(self[:, idx].copy()) # better save to make copy here
@@ -1799,8 +1798,8 @@ class SignalWithPilots(SignalBase):
             frames = np.arange(self.nframes)
         else:
             frames = np.atleast_1d(frames)
-            nframes = np.max(frames)
-            assert nframes <= self.nframes, "Signal object only contains {} frames can't extract more".format(self.nframes)
+            nframes = np.max(frames) + 1
+            assert nframes <= max(self.nframes, 1), "Signal object only contains {} frames can't extract more".format(self.nframes)
         idx = np.hstack([np.nonzero(self._idx_pil)[0] + i * self._frame_len for i in frames] )
         return self.pilots.recreate_from_np_array(self[:, idx])
 
-- 
2.43.0


From 78dd0056b89fb1296ba0d826c2fb7999e2cfe787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:28 +0000
Subject: [PATCH 25/40] fix: from_symbol_array with pilot_idx keeps boolean
 masks

---
 qampy/signals.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qampy/signals.py b/qampy/signals.py
index 7c80778..bef8651 100644
--- a/qampy/signals.py
+++ b/qampy/signals.py
@@ -1598,8 +1598,8 @@ class SignalWithPilots(SignalBase):
             idx = np.arange(frame_len)
             pidx = np.zeros(idx.shape, dtype=bool)
             pidx[pilot_idx] = True
-            idx_pil = idx[pidx]
-            idx_dat = idx[~pidx]
+            idx_pil = pidx
+            idx_dat = ~pidx
         assert np.count_nonzero(idx_dat) <= N, "data frame is to short for the given frame length"
         if "M" in kwargs:
             assert "M" not in payload_kwargs, "M can not be provided as a argument for payload and signal"
-- 
2.43.0


From c56d8bec819c4f8b0daaba674af7f547da52a1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:28 +0000
Subject: [PATCH 26/40] fix: from_symbol_array does not alter its default
 payload_kwargs

---
 qampy/signals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/signals.py b/qampy/signals.py
index bef8651..18e883f 100644
--- a/qampy/signals.py
+++ b/qampy/signals.py
@@ -1604,7 +1604,7 @@ class SignalWithPilots(SignalBase):
         if "M" in kwargs:
             assert "M" not in payload_kwargs, "M can not be provided as a argument for payload and signal"
             M = kwargs.pop("M")
-            payload_kwargs["M"] = M
+            payload_kwargs = dict(payload_kwargs, M=M)
         if np.count_nonzero(idx_dat) > N:
             warnings.warn("Data for frame is shorter than length of data array, truncating")
         if payload_is_frame:
-- 
2.43.0


From e6ca632f514a93750a4cf28726f7a5298a517652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:20 +0000
Subject: [PATCH 27/40] fix: viterbiviterbi returns the phase of every mode

---
 qampy/core/phaserecovery.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qampy/core/phaserecovery.py b/qampy/core/phaserecovery.py
index 13882ee..b979732 100644
--- a/qampy/core/phaserecovery.py
+++ b/qampy/core/phaserecovery.py
@@ -58,6 +58,7 @@ def viterbiviterbi(E, N, M):
     E2d = np.atleast_2d(E)
     Eout = np.zeros_like(E2d)
     L = E2d.shape[1]
+    phases = np.zeros((E2d.shape[0], L - N + 1))
     for i in range(E2d.shape[0]):
         Et = E2d[i]
         L = len(Et)
@@ -67,6 +68,7 @@ def viterbiviterbi(E, N, M):
         phase_est = np.sum(sa, axis=1)
         phase_est = np.unwrap(np.angle(phase_est))
         phase_est = (phase_est - np.pi)/M
+        phases[i] = phase_est
         if N % 2:
             Eout[i, (N - 1) // 2:L - (N - 1) // 2] = E2d[i, (N - 1) // 2:L - (N - 1) // 2] * np.exp(-1.j*phase_est)
         else:
@@ -74,9 +76,9 @@ def viterbiviterbi(E, N, M):
     #if M == 4: # QPSK needs pi/4 shift
     # need a shift by pi/M for constellation points to not be on the axis
     if E.ndim == 1:
-        return  Eout.flatten(), phase_est.flatten()
+        return  Eout.flatten(), phases.flatten()
     else:
-        return Eout, phase_est
+        return Eout, phases
 
 def _bps_idx_py(E, angles, symbols, N):
     """
-- 
2.43.0


From 2820a002354c982e28b9798f1269036787bbacfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:20 +0000
Subject: [PATCH 28/40] fix: pilot_based_cpe_new limits the reference pilots
 per frame to max_num_blocks

---
 qampy/core/pilotbased_receiver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/core/pilotbased_receiver.py b/qampy/core/pilotbased_receiver.py
index e60dc63..b482c65 100644
--- a/qampy/core/pilotbased_receiver.py
+++ b/qampy/core/pilotbased_receiver.py
@@ -308,7 +308,7 @@ def pilot_based_cpe_new(signal, pilot_symbs,  pilot_idx, frame_len, seq_len=None
     ilim = pilot_idx_full < nlen
     pilot_idx_full = pilot_idx_full[ilim]
     rec_pilots = signal[:, pilot_idx_full]
-    pilot_symbs = np.tile(pilot_symbs[:, ::use_pilot_ratio], nframes)[:, :rec_pilots.shape[-1]]
+    pilot_symbs = np.tile(pilot_symbs[:, :max_num_blocks:use_pilot_ratio], nframes)[:, :rec_pilots.shape[-1]]
     assert rec_pilots.shape == pilot_symbs.shape, "Inproper pilot configuration, the number of"\
             +" received pilots differs from reference ones"
     # Check for a out of bounch error
-- 
2.43.0


From 3a5e8d4303461083cf436e332f22beea510b1cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:20 +0000
Subject: [PATCH 29/40] fix: pilot_based_cpe works for any number of modes

---
 qampy/core/pilotbased_receiver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/core/pilotbased_receiver.py b/qampy/core/pilotbased_receiver.py
index b482c65..814466c 100644
--- a/qampy/core/pilotbased_receiver.py
+++ b/qampy/core/pilotbased_receiver.py
@@ -238,7 +238,7 @@ def pilot_based_cpe(rec_symbs, pilot_symbs, pilot_ins_ratio, num_average = 1, us
     pp1 = pilot_phase_base[:, :int((num_average-1)/2)]
     pp2 = pilot_phase_average[:]
     t = pilot_phase_base[:,:int((num_average-1)/2)]
-    t2 = pp2[:, -1].reshape(2,1)
+    t2 = pp2[:, -1:]
     pp3 = np.ones(t.shape)*t2
     pilot_phase = np.hstack([pp1, pp2, pp3])
     pilot_pos = np.arange(0,pilot_phase.shape[-1]*pilot_ins_ratio*use_pilot_ratio, pilot_ins_ratio*use_pilot_ratio)
-- 
2.43.0


From 35cfb2184721c1616d3f5b17a10e401c54557d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:06 +0000
Subject: [PATCH 30/40] fix: pilot_cpe uses the phase pilots of one frame as
 reference for every frame

---
 qampy/phaserec.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qampy/phaserec.py b/qampy/phaserec.py
index 77e8020..a7201b0 100644
--- a/qampy/phaserec.py
+++ b/qampy/phaserec.py
@@ -185,7 +185,8 @@ def pilot_cpe(signal, N=3, pilot_rat=1, max_blocks=None, nframes=1, use_seq=Fals
     else:
         seq_len = None
         idx = np.nonzero(signal._idx_pil)[0][signal._pilot_seq_len:]
-        pilots = signal.ph_pilots
+        # the pilots of the first frame, the core function repeats them for every frame
+        pilots = signal.pilots[:, :np.count_nonzero(signal._idx_pil)][:, signal._pilot_seq_len:]
     out, phase = core.pilotbased_receiver.pilot_based_cpe_new(signal, pilots, idx, signal.frame_len, seq_len=seq_len,
                                                            max_num_blocks=max_blocks, use_pilot_ratio=pilot_rat, num_average=N,
                                                             nframes=nframes)
-- 
2.43.0


From 7d820bd878e95da35e02310349396da8a9aac9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:06 +0000
Subject: [PATCH 31/40] fix: rcos_time returns the limit where the general
 formula is undefined

---
 qampy/core/special_fcts.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/qampy/core/special_fcts.py b/qampy/core/special_fcts.py
index eb3c6e5..6280266 100644
--- a/qampy/core/special_fcts.py
+++ b/qampy/core/special_fcts.py
@@ -127,8 +127,12 @@ def sech(x, A, x0, w):
 
 def rcos_time(t, beta, T):
     """Time response of a raised cosine filter with a given roll-off factor and width """
-    return np.sinc(t / T) * np.cos(t / T * np.pi * beta) / (1 - 4 *
-                                                            (beta * t / T)**2)
+    x = t / T
+    with np.errstate(divide='ignore', invalid='ignore'):
+        rcos = np.sinc(x) * np.cos(x * np.pi * beta) / (1 - 4 * (beta * x)**2)
+    # at 2*beta*|t| = T the general formula is undefined, take its limit there
+    special = abs(abs(2 * beta * x) - 1) < np.sqrt(np.finfo(np.asarray(x).dtype).eps)
+    return np.where(special, np.pi / 4 * np.sinc(x), rcos)[()]
 
 
 def rcos_freq(f, beta, T):
-- 
2.43.0


From 09e01dac455044f19afb62aeba609859a3dd509a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:06 +0000
Subject: [PATCH 32/40] fix: rcos_freq works without roll-off and for integer
 frequencies

---
 qampy/core/special_fcts.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qampy/core/special_fcts.py b/qampy/core/special_fcts.py
index 6280266..bbf09bb 100644
--- a/qampy/core/special_fcts.py
+++ b/qampy/core/special_fcts.py
@@ -137,8 +137,10 @@ def rcos_time(t, beta, T):
 
 def rcos_freq(f, beta, T):
     """Frequency response of a raised cosine filter with a given roll-off factor and width """
-    rc = np.zeros(f.shape[0], dtype=f.dtype)
+    rc = np.zeros(f.shape[0], dtype=np.result_type(f.dtype, np.float32))
     rc[np.where(np.abs(f) <= (1 - beta) / (2 * T))] = T
+    if beta == 0: # square spectrum without roll-off
+        return rc
     idx = np.where((np.abs(f) > (1 - beta) / (2 * T)) & (np.abs(f) <= (
         1 + beta) / (2 * T)))
     rc[idx] = T / 2 * (1 + np.cos(np.pi * T / beta *
-- 
2.43.0


From 0803a238b0fea0f7243b7fb1fbb155c8ceffa843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:06 +0000
Subject: [PATCH 33/40] fix: rrcos_time replaces only the points where the
 general formula is undefined

---
 qampy/core/special_fcts.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/qampy/core/special_fcts.py b/qampy/core/special_fcts.py
index bbf09bb..4b3d9fb 100644
--- a/qampy/core/special_fcts.py
+++ b/qampy/core/special_fcts.py
@@ -201,11 +201,13 @@ def rrcos_time(t, beta, T):
     """
     with np.errstate(divide='ignore', invalid='ignore'):
         rrcos = 1/T*((np.sin(np.pi*t/T*(1-beta)) +  4*beta*t/T*np.cos(np.pi*t/T*(1+beta)))/(np.pi*t/T*(1-(4*beta*t/T)**2)))
-        eps = abs(t[0]-t[1])/4
-        idx1 = np.where(abs(t)<eps)
+        # use the limits only where the general formula is undefined (up to rounding)
+        eps = np.sqrt(np.finfo(rrcos.dtype).eps)
+        idx1 = np.where(abs(t/T)<eps)
         rrcos[idx1] = 1/T*(1+beta*(4/np.pi-1))
-        idx2 = np.where(abs(abs(t)-abs(T/(4*beta)))<eps)
-        rrcos[idx2] = beta/(T*np.sqrt(2))*((1+2/np.pi)*np.sin(np.pi/(4*beta))+(1-2/np.pi)*np.cos(np.pi/(4*beta)))
+        if beta != 0:
+            idx2 = np.where(abs(abs(4*beta*t/T)-1)<eps)
+            rrcos[idx2] = beta/(T*np.sqrt(2))*((1+2/np.pi)*np.sin(np.pi/(4*beta))+(1-2/np.pi)*np.cos(np.pi/(4*beta)))
     return rrcos
 
 
-- 
2.43.0


From 06806f392651b818b24996ad287f23198198a593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:06 +0000
Subject: [PATCH 34/40] fix: hybrid_qam_ber_vs_esn0 and generate_ps_symbols
 refer to existing functions

---
 qampy/theory.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qampy/theory.py b/qampy/theory.py
index 11e27a3..73cbc36 100644
--- a/qampy/theory.py
+++ b/qampy/theory.py
@@ -26,7 +26,7 @@ from scipy.special import erfc
 from qampy.core.special_fcts import q_function
 from qampy.core import pythran_dsp
 from qampy.core.utils import bin2gray
-from qampy.helpers import dB2lin
+from qampy.helpers import dB2lin, normalise_and_center
 
 
 # All the formulas below are taken from dsplog.com
@@ -244,7 +244,7 @@ def generate_ps_symbols(N, symbs, px, normalize=True):
     mod_symbs = np.random.choice(symbs, N, p=px) + \
                 1j * np.random.choice(symbs, N, p=px)
     if normalize:
-        mod_symbs = utils.normalise_and_center(mod_symbs)
+        mod_symbs = normalise_and_center(mod_symbs)
     return mod_symbs
 
 def hybrid_qam_ber_vs_esn0(snr, pr, fr, M1, M2):
@@ -277,7 +277,7 @@ def hybrid_qam_ber_vs_esn0(snr, pr, fr, M1, M2):
     snr = 10**(snr/10)
     bps1 = np.log2(M1)
     bps2 = np.log2(M2)
-    return 1/((1-fr)*bps1+fr*bps2)*((1-fr)*bps1*theory.MQAM_BERvsEsN0(snr/((1-fr)+fr*pr), M1) + fr*bps2*theory.MQAM_BERvsEsN0(pr*snr/((1-fr)+fr*pr), M2))
+    return 1/((1-fr)*bps1+fr*bps2)*((1-fr)*bps1*ber_vs_es_over_n0_qam(snr/((1-fr)+fr*pr), M1) + fr*bps2*ber_vs_es_over_n0_qam(pr*snr/((1-fr)+fr*pr), M2))
 
 def cal_gmi(M, snr, N=10**3):
     """
-- 
2.43.0


From e0726131db2dd4974fc7b0e7f62fee24f41c898f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:10 +0000
Subject: [PATCH 35/40] fix: equalise_signal does not overwrite the taps passed
 in

---
 qampy/core/equalisation/equalisation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/core/equalisation/equalisation.py b/qampy/core/equalisation/equalisation.py
index 6151eb4..bc984a5 100644
--- a/qampy/core/equalisation/equalisation.py
+++ b/qampy/core/equalisation/equalisation.py
@@ -552,7 +552,7 @@ def equalise_signal(E, os, mu, M, wxy=None, Ntaps=None, TrSyms=None, Niter=1, me
     if wxy is None:
         wxy = _init_taps(Ntaps, nmodes, nmodes, E.dtype)
     else:
-        wxy = np.ascontiguousarray(wxy, dtype=E.dtype)
+        wxy = np.array(wxy, dtype=E.dtype, order='C') # the training updates the taps in place
         Ntaps = wxy.shape[-1]
         assert wxy.ndim == 3, "wxy needs to be three dimensional"
         assert wxy.shape[:2] == (nmodes, nmodes), "The first 2 dimensions of wxy need to be the same shape as E"
-- 
2.43.0


From 6fe8366375da083af294147a158d1232b14995cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:10 +0000
Subject: [PATCH 36/40] fix: sim_mi_mc does not rescale the symbols passed in

---
 qampy/theory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/theory.py b/qampy/theory.py
index 73cbc36..55ebaeb 100644
--- a/qampy/theory.py
+++ b/qampy/theory.py
@@ -327,7 +327,7 @@ def sim_mi_mc(symbols, snr, N):
         mi : float
             Mutual information of the symbol alphabet at the given SNR
     """
-    symbols /= np.sqrt(np.mean(abs(symbols)**2))
+    symbols = symbols / np.sqrt(np.mean(abs(symbols)**2))
     N0 = 10**(-snr/10)
     sigma = np.sqrt(N0/2)
     noise = (np.random.randn(N) + 1j*np.random.randn(N))*sigma
-- 
2.43.0


From bc068b83fd33cde2d4d169bfd0809aeb7d6dfe74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:10 +0000
Subject: [PATCH 37/40] fix: TDHQAMSymbols.from_symbol_arrays does not rescale
 the symbols passed in

---
 qampy/signals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/signals.py b/qampy/signals.py
index 18e883f..45897f4 100644
--- a/qampy/signals.py
+++ b/qampy/signals.py
@@ -1343,7 +1343,7 @@ class TDHQAMSymbols(SignalBase):
         assert syms_M1.shape[0] == syms_M2.shape[0], "Number of modes must be the same"
         f_M, f_M1, f_M2 = cls._cal_fractions(fr)
         scale = cls.calculate_power_ratio(syms_M1.coded_symbols, syms_M2.coded_symbols, power_method)
-        syms_M2 /= np.sqrt(scale)
+        syms_M2 = syms_M2 / np.sqrt(scale)
         N1 = syms_M1.shape[1]
         N2 = syms_M2.shape[1]
         N = N1 + N2
-- 
2.43.0


From aac7f021acbfc7cef57aa4ef76a6713eeb9a6c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:10 +0000
Subject: [PATCH 38/40] fix: correct_shifts does not alter the shift factors
 passed in

---
 qampy/core/pilotbased_receiver.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/qampy/core/pilotbased_receiver.py b/qampy/core/pilotbased_receiver.py
index 814466c..8520cc0 100644
--- a/qampy/core/pilotbased_receiver.py
+++ b/qampy/core/pilotbased_receiver.py
@@ -439,8 +439,7 @@ def correct_shifts(shift_factors, ntaps, os):
     if not((ntaps[1]-ntaps[0])%os  ==  0):
         raise ValueError("Taps for search and convergence impropper configured")
     tap_cor = int((ntaps[1]-ntaps[0])/2)
-    shift_factors -= tap_cor
-    return shift_factors
+    return shift_factors - tap_cor
 
 def shift_signal(sig, shift_factors):
     k = len(shift_factors)
-- 
2.43.0


From f4fa9e9321e364163ee6b5041fefe58cf3b68451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:10 +0000
Subject: [PATCH 39/40] fix: shift_signal does not shift its input in place

---
 qampy/core/pilotbased_receiver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qampy/core/pilotbased_receiver.py b/qampy/core/pilotbased_receiver.py
index 8520cc0..d582799 100644
--- a/qampy/core/pilotbased_receiver.py
+++ b/qampy/core/pilotbased_receiver.py
@@ -444,6 +444,7 @@ def correct_shifts(shift_factors, ntaps, os):
 def shift_signal(sig, shift_factors):
     k = len(shift_factors)
     if k > 1:
+        sig = sig.copy()
         for i in range(k):
             sig[i] = np.roll(sig[i], -shift_factors[i])
     else:
-- 
2.43.0


From 3ede6eec24f9f66b9fa20667deaf4ea3b5f745b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:10 +0000
Subject: [PATCH 40/40] fix: applying taps to a pilot signal does not alter its
 shift factors

---
 qampy/equalisation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/equalisation.py b/qampy/equalisation.py
index 23483e8..4c304f5 100644
--- a/qampy/equalisation.py
+++ b/qampy/equalisation.py
@@ -45,7 +45,7 @@ def _apply_to_pilotsignal(sig, wxy, frames):
     if Ntaps != sig.synctaps:
         shiftfctrs = shiftfctrs - (Ntaps - sig.synctaps)//2
     if np.min(shiftfctrs) < 0:
-        shiftfctrs += sig.os*sig.frame_len
+        shiftfctrs = shiftfctrs + sig.os*sig.frame_len
     assert shiftfctrs.max() + sig.os*sig.frame_len*(max(frames)+1) < sig.shape[-1] - (Ntaps - 1), \
         "Trying to equalise frame {}, but signal is not long enough".format(max(frames))
     if np.all(np.diff(frames) == 1):
-- 
2.43.0

