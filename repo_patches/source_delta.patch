From 1bbe535c9b2097dcddb2a69a97a15c41743697c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:39 +0000
Subject: [PATCH 01/33] fix: harmonic_balance overwrote the caller's initial
 guess

With one tone or one harmonic the reshaped vj_initial is a view, so the
in-place Newton update changed the array passed in by the caller.
---
 qmix/harmonic_balance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmix/harmonic_balance.py b/qmix/harmonic_balance.py
index bb4937f..1adc432 100644
--- a/qmix/harmonic_balance.py
+++ b/qmix/harmonic_balance.py
@@ -112,7 +112,7 @@ def harmonic_balance(cct, resp, num_b=15, max_it=10, stop_rerror=0.001, vj_initi
     # voltage) will be transformed into a matrix with shape 6 x npts.
 
     # Change format of data from [f, p] to [p] (reduce by one dimension)
-    vj_2d = vj_initial[1:, 1:, :].reshape((num_n, npts))
+    vj_2d = vj_initial[1:, 1:, :].reshape((num_n, npts)).copy()
     vt_2d = vt[1:, 1:].reshape(num_n)
     zt_2d = zt[1:, 1:].reshape(num_n)
 
-- 
2.43.0


From b95957f0df096e87461cad4d41cde1aaee0c40d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:39 +0000
Subject: [PATCH 02/33] fix: harmonic_balance reported non-convergence when the
 last iteration converged

mode='x' returned False whenever the number of iterations equalled max_it,
even if the error target was met on that iteration.
---
 qmix/harmonic_balance.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/qmix/harmonic_balance.py b/qmix/harmonic_balance.py
index 1adc432..27660f1 100644
--- a/qmix/harmonic_balance.py
+++ b/qmix/harmonic_balance.py
@@ -222,8 +222,7 @@ def harmonic_balance(cct, resp, num_b=15, max_it=10, stop_rerror=0.001, vj_initi
     if mode == "o":  # return vj
         return vj_out
     elif mode == "x":  # return vj, number of iterations, and if converged
-        did_not_hit_max_it = iteration != max_it
-        return vj_out, iteration, did_not_hit_max_it
+        return vj_out, iteration, bool(max_rel_error <= stop_rerror)
     elif mode == "m":  # return vj and mask
         return vj_out, finished_points
 
-- 
2.43.0


From c536c8ae5835eb45433c42b59277817c51db6792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 03/33] fix: harmonic_balance ignored the output mode when all
 impedances are zero

mode='x' and mode='m' must return the extra values in this case as well.
---
 qmix/harmonic_balance.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/qmix/harmonic_balance.py b/qmix/harmonic_balance.py
index 27660f1..629c8d5 100644
--- a/qmix/harmonic_balance.py
+++ b/qmix/harmonic_balance.py
@@ -86,7 +86,12 @@ def harmonic_balance(cct, resp, num_b=15, max_it=10, stop_rerror=0.001, vj_initi
     if (zt == 0).all():
         if verbose:
             print("Done.\n")
-        return vt[:, :, None] * np.ones(npts, dtype=complex)
+        vj_out = vt[:, :, None] * np.ones(npts, dtype=complex)
+        if mode == "x":
+            return vj_out, 0, True
+        elif mode == "m":
+            return vj_out, np.ones(npts, dtype=bool)
+        return vj_out
 
     # Check whether any Thevenin voltages are zero (prevents div0 errors) ----
 
-- 
2.43.0


From 374e03d3a3a73643bdc36644c122b9a507dc1a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 04/33] fix: EmbeddingCircuit left igap unset when fgap and rn
 are given

The gap voltage is derived from fgap in that case, so the gap current is known.
---
 qmix/circuit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qmix/circuit.py b/qmix/circuit.py
index fb83274..ab076f6 100644
--- a/qmix/circuit.py
+++ b/qmix/circuit.py
@@ -231,8 +231,8 @@ class EmbeddingCircuit(object):
         # Normal-state resistance
         if rn is not None:
             self.rn = float(rn)
-        if vgap is not None and rn is not None:
-            self.igap = vgap / rn
+        if self.vgap is not None and self.rn is not None:
+            self.igap = self.vgap / self.rn
 
         # Initialize embedding circuit
         self.freq = np.zeros((num_f + 1), dtype=float)
-- 
2.43.0


From f13047b38a97067b3cd505fcfb988370da343725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 05/33] fix: EmbeddingCircuit.vph raised AttributeError

The backwards-compatible photon voltage is the normalized frequency.
---
 qmix/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmix/circuit.py b/qmix/circuit.py
index ab076f6..00fc90d 100644
--- a/qmix/circuit.py
+++ b/qmix/circuit.py
@@ -575,7 +575,7 @@ class EmbeddingCircuit(object):
 
         """
 
-        return self.cct
+        return self.freq
 
 
 def read_circuit(filename):
-- 
2.43.0


From 3451721f0b2e1945f3b57f2e73de8fe53913243b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 06/33] fix: set_freq demanded a gap frequency for normalized
 units

---
 qmix/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmix/circuit.py b/qmix/circuit.py
index 00fc90d..7d1f86b 100644
--- a/qmix/circuit.py
+++ b/qmix/circuit.py
@@ -439,7 +439,7 @@ class EmbeddingCircuit(object):
 
         """
 
-        if units.lower != 'norm':
+        if units.lower() != 'norm':
             assert self.fgap is not None, 'Gap frequency must be defined!'
 
         if units.lower() == 'hz':
-- 
2.43.0


From 284151140a29d9d7b69d8e4925c254a52672bed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 07/33] fix: set_alpha used the fundamental's photon voltage
 for harmonics

The drive level of harmonic p is its voltage divided by p*freq.
---
 qmix/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmix/circuit.py b/qmix/circuit.py
index 7d1f86b..fe67835 100644
--- a/qmix/circuit.py
+++ b/qmix/circuit.py
@@ -405,7 +405,7 @@ class EmbeddingCircuit(object):
         assert self.zt[f, p] != 0, 'Embedding impedance must be defined!'
         assert self.freq[f] != 0, 'Frequency must be defined!'
 
-        self.vt[f, p] = alpha * self.freq[f] * (self.zt[f, p] / zj + 1)
+        self.vt[f, p] = alpha * p * self.freq[f] * (self.zt[f, p] / zj + 1)
 
     def set_freq(self, value, f=1, units='Hz'):
         """Set the frequency of tone ``f``.
-- 
2.43.0


From 86f59ce434f50fb1951b76ff343a436594354ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:54 +0000
Subject: [PATCH 08/33] fix: interpolation error check ignored negative
 deviations

check_error compared the signed maximum of the deviation with the limit, so a
curve lying above the tabulated data by any amount was accepted.
---
 qmix/respfn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qmix/respfn.py b/qmix/respfn.py
index 59db44f..d7e33e7 100644
--- a/qmix/respfn.py
+++ b/qmix/respfn.py
@@ -809,9 +809,9 @@ def _setup_interpolation(voltage, current, current_kk, **params):
 
     # Check error
     if check_error:
-        assert err_dc.max() < interp_error, \
+        assert np.abs(err_dc).max() < interp_error, \
             "Interpolation error too high. Please increase max_npts_dc"
-        assert err_kk.max() < interp_error, \
+        assert np.abs(err_kk).max() < interp_error, \
             "Interpolation error too high. Please increase max_npts_kk"
 
     return f_dc, f_kk, f_ddc, f_dkk
-- 
2.43.0


From 34add0d1c5e92fb1e4133026ea53da1d9ffdd866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:54 +0000
Subject: [PATCH 09/33] fix: Gaussian window was off-centre for non-integer
 widths

Starting the window at -n_sigma*sigma placed the samples (and the peak) off
the centre unless n_sigma*sigma is an integer, which shifted filtered data and
broke the odd symmetry of smeared response functions.
---
 qmix/mathfn/filters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qmix/mathfn/filters.py b/qmix/mathfn/filters.py
index 487c97d..f2e0407 100644
--- a/qmix/mathfn/filters.py
+++ b/qmix/mathfn/filters.py
@@ -49,7 +49,8 @@ def _gauss(sigma, n_sigma=3):
     """
 
     x_range = n_sigma * sigma
-    x = np.arange(-x_range, x_range + 1e-5, 1, dtype=float)
+    n_side = np.floor(x_range + 1e-5)
+    x = np.arange(-n_side, n_side + 1, 1, dtype=float)
 
     y = 1 / (sigma * np.sqrt(2 * np.pi)) * np.exp(-0.5 * (x / sigma)**2)
 
-- 
2.43.0


From f7ac039455ecabfe1da8227e6ff4daaaa205d150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:54 +0000
Subject: [PATCH 10/33] fix: user-defined I/V offsets were not used for bipolar
 data

voffset and ioffset were only an initial guess for the automatic search even
if both were given, contrary to the documentation and to iv_curve.
---
 qmix/exp/iv_data.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/qmix/exp/iv_data.py b/qmix/exp/iv_data.py
index ac0b56e..b2f69dc 100644
--- a/qmix/exp/iv_data.py
+++ b/qmix/exp/iv_data.py
@@ -535,6 +535,12 @@ def _correct_offset(volt_v, curr_a, **kw):
         curr_a -= ioffset
         return volt_v, curr_a, (voffset, ioffset)
 
+    # Use the offset values exactly as given by the user
+    if voffset is not None and ioffset is not None:
+        volt_v -= voffset
+        curr_a -= ioffset
+        return volt_v, curr_a, (voffset, ioffset)
+
     # Take area around origin
     mask = (voffset_range[0] <= volt_v) & (volt_v <= voffset_range[1])
     volt_v_red, curr_a_red = volt_v[mask], curr_a[mask]
-- 
2.43.0


From 9afa90f2e82c9adc5bdbc1349ac26eb0c5fedd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:18 +0000
Subject: [PATCH 11/33] fix: ideal and polynomial models truncated integer
 voltages

---
 qmix/mathfn/ivcurve_models.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qmix/mathfn/ivcurve_models.py b/qmix/mathfn/ivcurve_models.py
index a9ed2b1..144b315 100644
--- a/qmix/mathfn/ivcurve_models.py
+++ b/qmix/mathfn/ivcurve_models.py
@@ -30,7 +30,7 @@ def perfect(voltage):
     """
 
     if isinstance(voltage, np.ndarray):
-        current = np.copy(voltage)
+        current = np.array(voltage, dtype=float)
         current[voltage == 1.] = 0.5
         current[voltage == -1.] = -0.5
         current[np.abs(voltage) < 1] = 0
@@ -96,6 +96,9 @@ def polynomial(voltage, order=50):
 
     """
 
+    # avoid integer overflow
+    voltage = voltage * 1.
+
     current = voltage ** (2 * order + 1) / (1 + voltage ** (2 * order))
 
     return current
-- 
2.43.0


From 31d13eb8092ef90a1e2a1e5a7d651dad02febb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:18 +0000
Subject: [PATCH 12/33] fix: smeared perfect response function had a spurious
 peak at the gap

---
 qmix/respfn.py | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/qmix/respfn.py b/qmix/respfn.py
index d7e33e7..cb9fc0e 100644
--- a/qmix/respfn.py
+++ b/qmix/respfn.py
@@ -696,15 +696,6 @@ class RespFnPerfect(RespFn):
         # Smear IV curve (optional)
         else:
 
-            tmp = np.zeros_like(voltage)
-            idx = np.abs(voltage - 1.).argmin()
-            tmp[idx] = 1.
-
-            v_step = voltage[1] - voltage[0]
-            current = gauss_conv(tmp, sigma=params['v_smear']/v_step) + iv.perfect(voltage)
-            if params['verbose']:
-                print(" - Voltage smear: {:.4f}".format(params['v_smear']))
-
             RespFn.__init__(self, voltage, current, **params)
 
     def __str__(self):
-- 
2.43.0


From ba2f69d3f1deec544df04387da6a8c0fb698a805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:18 +0000
Subject: [PATCH 13/33] fix: response function from I-V data was discontinuous
 at zero bias

---
 qmix/respfn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qmix/respfn.py b/qmix/respfn.py
index cb9fc0e..e34b55c 100644
--- a/qmix/respfn.py
+++ b/qmix/respfn.py
@@ -533,8 +533,8 @@ class RespFnFromIVData(RespFn):
         current = current[mask]
         voltage = voltage[mask]
         b = current[-1] - voltage[-1]
-        current = np.append(current, [50. + b])
-        voltage = np.append(voltage, [50.])
+        current = np.r_[0., current, 50. + b]
+        voltage = np.r_[0., voltage, 50.]
 
         # Re-sample I-V data
         current = np.interp(VINIT, voltage, current)
-- 
2.43.0


From a15928682133a2ad3ece734c0aadfe9b85bd1d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:18 +0000
Subject: [PATCH 14/33] fix: kk_trans_trapz accepted unevenly spaced voltages

---
 qmix/mathfn/kktrans.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmix/mathfn/kktrans.py b/qmix/mathfn/kktrans.py
index 234bdaa..2480123 100644
--- a/qmix/mathfn/kktrans.py
+++ b/qmix/mathfn/kktrans.py
@@ -64,7 +64,7 @@ def kk_trans_trapz(v, i):
     """
 
     # Ensure v has even spacing
-    assert ((v[1:] - v[:-1]) - (v[1] - v[0])).max() < 1e-5
+    assert np.abs((v[1:] - v[:-1]) - (v[1] - v[0])).max() < 1e-5
 
     # very crude integration
     ikk = []
-- 
2.43.0


From b860e9c12416fbd2dfe34428d73e4eb7471b68f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:50 +0000
Subject: [PATCH 15/33] fix: removing doubles failed for single samples and for
 other columns than the first

---
 qmix/exp/clean_data.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/qmix/exp/clean_data.py b/qmix/exp/clean_data.py
index 87bcbc4..4318178 100644
--- a/qmix/exp/clean_data.py
+++ b/qmix/exp/clean_data.py
@@ -63,7 +63,7 @@ def remove_doubles_xy(x, y, check=True):
 
     # Check to see if x is sorted
     if check:
-        assert (x[1:] - x[:-1]).min() >= 0
+        assert (x[1:] >= x[:-1]).all()
 
     # Find doubles
     mask = np.ones(len(x), dtype=bool)
@@ -159,11 +159,12 @@ def remove_doubles_matrix(matrix, col=0, check=True):
 
     """
 
+    column = matrix[:, col]
+
     if check:
-        # Check to see if x is sorted
-        assert (matrix[1:, 0] - matrix[:-1, 0]).min() >= 0
+        # Check to see if column is sorted
+        assert (column[1:] >= column[:-1]).all()
 
-    column = matrix[:, col]
     mask = np.ones_like(column, dtype=bool)
     mask[1:] = (column[1:] != column[:-1])
 
-- 
2.43.0


From 14ca7c8c23ffe02df4503a0bc9b232666bf21a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:50 +0000
Subject: [PATCH 16/33] fix: series resistance correction gave NaN voltages
 where the current is zero

---
 qmix/exp/iv_data.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/qmix/exp/iv_data.py b/qmix/exp/iv_data.py
index b2f69dc..f79006d 100644
--- a/qmix/exp/iv_data.py
+++ b/qmix/exp/iv_data.py
@@ -719,12 +719,4 @@ def _correct_series_resistance(vmeas, imeas, **kw):
     if rseries is None:
         return vmeas, imeas
 
-    rstatic = vmeas / imeas
-    rstatic[rstatic < 0] = 0.
-    mask = np.invert(np.isnan(rstatic))
-    rj = rstatic - rseries
-    v0 = imeas[mask] * rj[mask]
-
-    idc = imeas.copy()[mask]
-
-    return v0, idc
+    return vmeas - imeas * rseries, imeas.copy()
-- 
2.43.0


From cad8fb1f2c6487a9eb039a9b6fe8895473900e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:50 +0000
Subject: [PATCH 17/33] fix: IF data with series resistance was lost where the
 DC current is zero

---
 qmix/exp/if_data.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/qmix/exp/if_data.py b/qmix/exp/if_data.py
index 2488ebf..a602912 100644
--- a/qmix/exp/if_data.py
+++ b/qmix/exp/if_data.py
@@ -416,13 +416,8 @@ def _load_if(ifdata, dc, **kwargs):
     # Correct for series resistance
     if rseries is not None:
         v = ifdata[:, 0]
-        rstatic = dc.vraw / dc.iraw
-        rstatic[rstatic < 0] = 0.
-        rstatic = np.interp(v, dc.vraw, rstatic)
         iraw = np.interp(v, dc.vraw, dc.iraw)
-        rj = rstatic - rseries
-        v0 = iraw * rj
-        ifdata[:, 0] = v0
+        ifdata[:, 0] = v - iraw * rseries
 
     # Normalize voltage to gap voltage
     ifdata[:, 0] /= dc.vgap
-- 
2.43.0


From e2ce5dca281c48ae96be92fa669c2e69e764c212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:25 +0000
Subject: [PATCH 18/33] fix: find the gap voltage of coarsely or unevenly
 sampled I-V curves

The step used to scale the filter was the first sample's, and the line
around the largest derivative was fitted over +-10 uV whatever the spacing
of the data, so that it could hold one sample or none (a meaningless gap
voltage or a TypeError).
---
 qmix/exp/iv_data.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/qmix/exp/iv_data.py b/qmix/exp/iv_data.py
index f79006d..c84a8d5 100644
--- a/qmix/exp/iv_data.py
+++ b/qmix/exp/iv_data.py
@@ -638,14 +638,15 @@ def _find_gap_voltage(volt_v, curr_a, **kw):
     prn = np.polyfit(vtmp, itmp, 1)
 
     # Find max derivative in I-V curve
-    vstep = volt_v[1] - volt_v[0]
+    vstep = (volt_v[-1] - volt_v[0]) / (len(volt_v) - 1)
     mask = 2e-3 < volt_v
     der = slope(volt_v[mask], curr_a[mask])
     der = gauss_conv(der, sigma=0.2e-3 / vstep)
     vgap = volt_v[mask][der.argmax()]
 
-    # Fit line around max derivative
-    mask = (vgap - 0.1e-4 < volt_v) & (volt_v < vgap + 0.1e-4)
+    # Fit line around max derivative (using at least a few data points)
+    dv = max(0.1e-4, 2 * vstep)
+    mask = (vgap - dv < volt_v) & (volt_v < vgap + dv)
     vtmp, itmp = volt_v[mask], curr_a[mask]
     pgap = np.polyfit(vtmp, itmp, 1)
 
-- 
2.43.0


From 3b9450ed476403e57224dee7466a099c3978fa65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:20 +0000
Subject: [PATCH 19/33] fix: import IF data given as integers

The voltages were scaled in place, which raises UFuncTypeError for arrays
of integers (e.g., voltages in microvolts and power in counts).
---
 qmix/exp/if_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmix/exp/if_data.py b/qmix/exp/if_data.py
index a602912..96a5986 100644
--- a/qmix/exp/if_data.py
+++ b/qmix/exp/if_data.py
@@ -394,10 +394,10 @@ def _load_if(ifdata, dc, **kwargs):
     v_fmt = kwargs.get('v_fmt', PARAMS['v_fmt'])
 
     # Import raw IF data
-    ifdata = ifdata.copy()
     assert isinstance(ifdata, np.ndarray), 'IF data should be a Numpy array.'
     assert ifdata.ndim == 2, 'IF data should be 2-dimensional.'
     assert ifdata.shape[1] == 2, 'IF data should have 2 columns.'
+    ifdata = ifdata.astype(float)
 
     # Units for voltage
     ifdata[:, 0] *= _vfmt_dict[v_fmt]
-- 
2.43.0


From 0fe2d6cf3c08947c2ec3aa1d16bcee9dc3f42c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:28 +0000
Subject: [PATCH 20/33] fix: mark the leakage current at the leakage voltage in
 DC I-V plots

---
 qmix/exp/exp_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmix/exp/exp_data.py b/qmix/exp/exp_data.py
index 00f21c0..e6afada 100644
--- a/qmix/exp/exp_data.py
+++ b/qmix/exp/exp_data.py
@@ -304,7 +304,7 @@ class DCData(object):
                 marker='o', ls='None', color='r', mfc='None', ms=8,
                 markeredgewidth=1, label=lgd_str3)
         # Label leakage current
-        ax.plot(2, i_leak * ua,
+        ax.plot(self.vleak * 1e3, i_leak * ua,
                 marker='o', ls='None', color='g', mfc='None', ms=8,
                 markeredgewidth=1, label=lgd_str4)
         # Fit line to normal resistance slope
-- 
2.43.0


From 8ca9a8fac97be6b24389a1c987b29b3ed56fe25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:28 +0000
Subject: [PATCH 21/33] fix: plot all pumped data without IF data

---
 qmix/exp/exp_data.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qmix/exp/exp_data.py b/qmix/exp/exp_data.py
index e6afada..b4adba5 100644
--- a/qmix/exp/exp_data.py
+++ b/qmix/exp/exp_data.py
@@ -1442,8 +1442,9 @@ class PumpedData(object):
 
         # Generate plots
         self.plot_iv(fig1, **kw)
-        self.plot_ivif(fig2, **kw)
-        self.plot_noise_temp(fig5, **kw)
+        if self.if_hot is not None:
+            self.plot_ivif(fig2, **kw)
+            self.plot_noise_temp(fig5, **kw)
         # self.plot_gain_noise_temp(fig6, **kw)
         if self.zt is not None:
             self.plot_error_surface(fig3)
-- 
2.43.0


From a1825a04b995d1155ab9b404c771ffe3a8002751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:28 +0000
Subject: [PATCH 22/33] fix: initialize results directory without trailing
 slash

---
 qmix/exp/exp_data.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qmix/exp/exp_data.py b/qmix/exp/exp_data.py
index b4adba5..28fc78c 100644
--- a/qmix/exp/exp_data.py
+++ b/qmix/exp/exp_data.py
@@ -1949,7 +1949,8 @@ def initialize_dir(fig_folder):  # pragma: no cover
     folder_list += list(_file_structure.values())
 
     for folder in folder_list:
-        if not os.path.exists(fig_folder + folder):
-            os.makedirs(fig_folder + folder)
+        path = os.path.join(fig_folder, folder)
+        if not os.path.exists(path):
+            os.makedirs(path)
             print('   - Created: ' + folder)
     print(" ")
-- 
2.43.0


From 08c4275eb9f1324406f55b50b042de4e0550b971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:28 +0000
Subject: [PATCH 23/33] fix: plot IF data on the axis that was passed in

---
 qmix/exp/exp_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmix/exp/exp_data.py b/qmix/exp/exp_data.py
index 28fc78c..78b3c48 100644
--- a/qmix/exp/exp_data.py
+++ b/qmix/exp/exp_data.py
@@ -923,6 +923,7 @@ class PumpedData(object):
 
         if ax is None:
             fig, ax1 = plt.subplots()
+            ax2 = ax1.twinx()
         else:
             ax1, ax2 = ax
             fig = ax1.get_figure()
@@ -941,7 +942,6 @@ class PumpedData(object):
 
         # Plot IF data
         mv = self.if_hot[:, 0] * self.vgap * 1e3
-        ax2 = ax1.twinx()
         mask = self.if_hot[:, 1] != 0
         ax2.plot(mv[mask], self.if_hot[mask, 1], '#f96b6b', label='Hot')
         mask = self.if_cold[:, 1] != 0
-- 
2.43.0


From 337d1dc4a60b09c3096a28e728c777d7ce3aa176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:50 +0000
Subject: [PATCH 24/33] fix: printc wrote the sign of a negative imaginary part
 twice

---
 qmix/misc/terminal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmix/misc/terminal.py b/qmix/misc/terminal.py
index d1ab427..f0f82a1 100644
--- a/qmix/misc/terminal.py
+++ b/qmix/misc/terminal.py
@@ -195,4 +195,4 @@ def printc(complex_number):  # pragma: no cover
         sign = '-'
 
     return str("{:+6.2f} {} j{:5.2f}".format(complex_number.real, sign,
-                                             complex_number.imag))
+                                             abs(complex_number.imag)))
-- 
2.43.0


From 1cb0541f28fd0d814734103202b7840e72668632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:33 +0000
Subject: [PATCH 25/33] fix: cut_low and cut_high (deprecated, documented as
 backwards compatible) were ignored

---
 qmix/exp/exp_data.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/qmix/exp/exp_data.py b/qmix/exp/exp_data.py
index 78b3c48..5b67ea3 100644
--- a/qmix/exp/exp_data.py
+++ b/qmix/exp/exp_data.py
@@ -558,6 +558,11 @@ class PumpedData(object):
         # Import keyword arguments
         tmp = deepcopy(PARAMS)
         tmp.update(kw)
+        if 'fit_range' not in kw and ('cut_low' in kw or 'cut_high' in kw):
+            # Deprecated keywords (cut_high counts from the end of the step)
+            low, high = PARAMS['fit_range']
+            tmp['fit_range'] = (kw.get('cut_low', low),
+                                1 - kw.get('cut_high', 1 - high))
         kw = tmp
         self.kwargs = kw
 
-- 
2.43.0


From 8f27a9a329e37a765060bd3459dc0aa0abe552b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:33 +0000
Subject: [PATCH 26/33] fix: rn_vmin and rn_vmax (documented as backwards
 compatible) were ignored

---
 qmix/exp/iv_data.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/qmix/exp/iv_data.py b/qmix/exp/iv_data.py
index c84a8d5..6a6fc72 100644
--- a/qmix/exp/iv_data.py
+++ b/qmix/exp/iv_data.py
@@ -126,6 +126,12 @@ def dciv_curve(ivdata, **kwargs):
     vmax = kwargs.get('vmax', PARAMS['vmax'])
     npts = kwargs.get('npts', PARAMS['npts'])
 
+    # Older keywords for the range of the normal resistance
+    if 'rn_vmin' in kwargs or 'rn_vmax' in kwargs:
+        vrn = kwargs.get('vrn', PARAMS['vrn'])
+        kwargs['vrn'] = (kwargs.get('rn_vmin', vrn[0]),
+                         kwargs.get('rn_vmax', vrn[1]))
+
     # Import and do some basic cleaning (remove nans, sort by voltage, etc.)
     # voltage in V, current in A
     volt_v, curr_a = _load_iv(ivdata, **kwargs)
-- 
2.43.0


From b92da0a834ea4ecb84ff3c627592e71cbfe3aec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:33 +0000
Subject: [PATCH 27/33] fix: the default range for the normal resistance ended
 at 5 kV instead of the documented 4.5 mV

---
 qmix/exp/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmix/exp/parameters.py b/qmix/exp/parameters.py
index 22884ff..adc762c 100644
--- a/qmix/exp/parameters.py
+++ b/qmix/exp/parameters.py
@@ -185,7 +185,7 @@ params = dict(
               freq =           None,
               vgap =           None,
               # Analyzing DC I-V curve
-              vrn =            (3.5e-3, 5e3),
+              vrn =            (3.5e-3, 4.5e-3),
               vrsg =           2e-3,
               vleak =          2e-3,
               # Analyzing DC IF data
-- 
2.43.0


From a97303331bf61ee057ac55ab2a849593cc89f7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:44 +0000
Subject: [PATCH 28/33] fix: documented defaults of voffset_range and of the
 response function interpolation did not match the code

---
 qmix/exp/parameters.py | 2 +-
 qmix/respfn.py         | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/qmix/exp/parameters.py b/qmix/exp/parameters.py
index adc762c..546d75e 100644
--- a/qmix/exp/parameters.py
+++ b/qmix/exp/parameters.py
@@ -46,7 +46,7 @@ values.
           units [A].
         - ``voffset = None`` : Offset of the DC bias voltage data in units
           [V].
-        - ``voffset_range = (-5e-4, 5e-4)`` : Voltage range over which to look
+        - ``voffset_range = (-1e-3, 1e-3)`` : Voltage range over which to look
           for the voltage offset in units [V]. The ``DCData`` class will
           look from ``voffset_range[0]`` to ``+voffset_range[1]`` for the
           voltage offset.
diff --git a/qmix/respfn.py b/qmix/respfn.py
index e34b55c..e3df1c4 100644
--- a/qmix/respfn.py
+++ b/qmix/respfn.py
@@ -505,9 +505,9 @@ class RespFnFromIVData(RespFn):
 
     Keyword Args:
         verbose (bool, default is True): print info to terminal?
-        max_npts_dc (int, default is 101): maximum number of points in DC I-V
+        max_npts_dc (int, default is 81): maximum number of points in DC I-V
             curve
-        max_npts_kk (int, default is 151): maximum number of points in KK
+        max_npts_kk (int, default is 101): maximum number of points in KK
             transform
         max_interp_error (float, default is 0.001): maximum interpolation error
             (in units of normalized current)
@@ -609,7 +609,7 @@ class RespFnExponential(RespFn):
         verbose (bool, default is True): print info to terminal?
         max_npts_dc (int, default is 101): maximum number of points in DC I-V
             curve
-        max_npts_kk (int, default is 151): maximum number of points in KK
+        max_npts_kk (int, default is 251): maximum number of points in KK
             transform
         max_interp_error (float, default is 0.001): maximum interpolation error
             (in units of normalized current)
-- 
2.43.0


From d768c5e10e247079a95bc55d1aa097e6376c1ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:52 +0000
Subject: [PATCH 29/33] fix: polynomial I-V model is NaN above the gap for
 large orders

---
 qmix/mathfn/ivcurve_models.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qmix/mathfn/ivcurve_models.py b/qmix/mathfn/ivcurve_models.py
index 144b315..9183409 100644
--- a/qmix/mathfn/ivcurve_models.py
+++ b/qmix/mathfn/ivcurve_models.py
@@ -99,7 +99,9 @@ def polynomial(voltage, order=50):
     # avoid integer overflow
     voltage = voltage * 1.
 
-    current = voltage ** (2 * order + 1) / (1 + voltage ** (2 * order))
+    # (written such that large powers of the voltage cannot give inf / inf)
+    with np.errstate(divide='ignore', over='ignore'):
+        current = voltage / (1 + np.float_power(voltage, -2 * order))
 
     return current
 
-- 
2.43.0


From e285188494eeb5012fc4ab4a9f3473f73b15a3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:45 +0000
Subject: [PATCH 30/33] fix: report the largest interpolation error of a
 response function, not the largest signed one

---
 qmix/respfn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qmix/respfn.py b/qmix/respfn.py
index e3df1c4..dd1d033 100644
--- a/qmix/respfn.py
+++ b/qmix/respfn.py
@@ -791,11 +791,11 @@ def _setup_interpolation(voltage, current, current_kk, **params):
         print(msg1)
         print(msg2.format(len(dc_idx)))
         print(msg3.format(np.mean(np.abs(err_dc))))
-        print(msg4.format(err_dc.max(), err_v[err_dc.argmax()]))
+        print(msg4.format(np.abs(err_dc).max(), err_v[np.abs(err_dc).argmax()]))
         print(msg5)
         print(msg6.format(len(kk_idx)))
         print(msg7.format(np.mean(np.abs(err_kk))))
-        print(msg8.format(err_kk.max(), err_v[err_kk.argmax()]))
+        print(msg8.format(np.abs(err_kk).max(), err_v[np.abs(err_kk).argmax()]))
         print(msg9)
 
     # Check error
-- 
2.43.0


From 852b14159dba5abcf742002b3fc8f91cd0c4f956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:45 +0000
Subject: [PATCH 31/33] fix: perfect and perfect_kk return a value for NumPy
 integers

---
 qmix/mathfn/ivcurve_models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qmix/mathfn/ivcurve_models.py b/qmix/mathfn/ivcurve_models.py
index 9183409..114be69 100644
--- a/qmix/mathfn/ivcurve_models.py
+++ b/qmix/mathfn/ivcurve_models.py
@@ -35,7 +35,7 @@ def perfect(voltage):
         current[voltage == -1.] = -0.5
         current[np.abs(voltage) < 1] = 0
         return current
-    elif isinstance(voltage, float) or isinstance(voltage, int):
+    elif isinstance(voltage, (float, int, np.number)):
         if np.abs(voltage) < 1:
             return 0
         if np.abs(voltage) > 1:
@@ -74,7 +74,7 @@ def perfect_kk(voltage, max_kk=100.):
 
         return kk
 
-    elif isinstance(voltage, float) or isinstance(voltage, int):
+    elif isinstance(voltage, (float, int, np.number)):
 
         if abs(voltage) == 1.:
             return max_kk
-- 
2.43.0


From 2b189bc32e1469547580421f3cfed744f82cc474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:45 +0000
Subject: [PATCH 32/33] fix: slope and slope_span_n no longer overflow for
 small or unsigned integers

---
 qmix/mathfn/misc.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qmix/mathfn/misc.py b/qmix/mathfn/misc.py
index d7a8256..0d9ce78 100644
--- a/qmix/mathfn/misc.py
+++ b/qmix/mathfn/misc.py
@@ -21,6 +21,8 @@ def slope(x, y):
 
     """
 
+    x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
+
     der = np.zeros(len(x), dtype=float)
 
     rise = y[2:] - y[:-2]
@@ -57,6 +59,8 @@ def slope_span_n(x, y, n=11, nozeros=True):
     assert n % 2 == 1, "N must be odd."
     n = (n - 1) // 2
 
+    x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
+
     der = np.zeros(len(x), dtype=float)
 
     rise = y[2 * n + 1:] - y[:-2 * n - 1]
-- 
2.43.0


From adc8f8e80aec46a0b17e09fbadb8c423487459b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:45 +0000
Subject: [PATCH 33/33] fix: round requested frequencies in double precision

---
 qmix/qtcurrent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmix/qtcurrent.py b/qmix/qtcurrent.py
index 7bc13d7..ecba51e 100644
--- a/qmix/qtcurrent.py
+++ b/qmix/qtcurrent.py
@@ -87,7 +87,7 @@ def qtcurrent(vj, cct, resp, freq_list, num_b=15, verbose=True, resp_matrix=None
 
     # TODO: there must be a better way...
     for i, freq_val in enumerate(freq_list):
-        freq_list[i] = round(freq_val, ROUND_FREQ)
+        freq_list[i] = round(float(freq_val), ROUND_FREQ)
     freq_npts = len(freq_list)
 
     freq = cct.freq
-- 
2.43.0

