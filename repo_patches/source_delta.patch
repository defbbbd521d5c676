From ab30e58044acee03e45b029dcb3de83daacfe05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:40 +0000
Subject: [PATCH 01/40] fix: evaluate the main pulse of the pileup fits at its
 exact time

The chi^2 of ofamp_pileup and ofamp_pileup_iterative used the filtered
signal at the bin int(t1 * fs), which is the wrong bin when t1 * fs is
rounded down (e.g. 21 / 625e3 * 625e3) and is not the value at t1 when t1
lies between bins.
---
 qetpy/core/_fitting.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/qetpy/core/_fitting.py b/qetpy/core/_fitting.py
index 4c9b45e..1a2f5f1 100644
--- a/qetpy/core/_fitting.py
+++ b/qetpy/core/_fitting.py
@@ -687,16 +687,19 @@ class OptimumFilter(object):
 
         a2s = self.signalfilt_td - a1 * templatefilt_td / self.norm
 
-        if t1<0:
-            t1ind = int(t1 * self.fs + self.nbins)
-        else:
-            t1ind = int(t1 * self.fs)
+        # filtered signal at the time of the main pulse
+        signalfilt_t1 = np.real(
+            np.sum(
+                self.signalfilt * np.exp(2.0j * np.pi * self.freqs * t1),
+                axis=-1,
+            )
+        ) * self.df
 
         # do a1 part of chi2
         chit = (
             a1**2 * self.norm
         ) - (
-            2 * a1 * self.signalfilt_td[t1ind] * self.norm
+            2 * a1 * signalfilt_t1 * self.norm
         )
 
         # do a1, a2 combined part of chi2
@@ -1294,14 +1297,12 @@ def ofamp_pileup(signal, template, inputpsd, fs, a1=None, t1=None,
     # first fitting part of chi2
     chit = (a1**2 + a2s**2) * norm + 2 * a1 * a2s * templatefilt_td
 
-    if t1<0:
-        t1ind = int(t1 * fs + nbins)
-    else:
-        t1ind = int(t1 * fs)
+    # filtered signal at the time of the first pulse
+    signalfilt_t1 = np.real(np.sum(signalfilt * np.exp(1.0j * omega * t1))) * df
 
     # last part of chi2
     chil = (
-        2 * a1 * signalfilt_td[t1ind] * norm
+        2 * a1 * signalfilt_t1 * norm
     ) + (
         2 * a2s * signalfilt_td * norm
     )
-- 
2.43.0


From 826943ed56b9425c94f5f8fa8f3b00fc738ad328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:40 +0000
Subject: [PATCH 02/40] fix: coincident pulses in the stationary pileup fits
 share the amplitude

At zero time difference the two amplitudes were divided by the norm once
too often, so the chi^2 of that bin was not the minimum and a fit allowed
to choose it could return the wrong pair of amplitudes.
---
 qetpy/core/_fitting.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qetpy/core/_fitting.py b/qetpy/core/_fitting.py
index 1a2f5f1..4e39e89 100644
--- a/qetpy/core/_fitting.py
+++ b/qetpy/core/_fitting.py
@@ -830,8 +830,8 @@ class OptimumFilter(object):
         ) / denom[1:]
 
         # calculate the zero freq bins to avoid divide by zero
-        a1s[0] = self.signalfilt_td[0] / (2 * self.norm)
-        a2s[0] = self.signalfilt_td[0] / (2 * self.norm)
+        a1s[0] = self.signalfilt_td[0] / 2
+        a2s[0] = self.signalfilt_td[0] / 2
 
         # signal part of chi^2
         if self.chi0 is None:
@@ -1426,8 +1426,8 @@ def ofamp_pileup_stationary(signal, template, inputpsd, fs, coupling='AC',
     ) / denom[1:]
 
     # calculate the zero freq bins to avoid divide by zero
-    a1s[0] = signalfilt_td[0] / (2 * norm**2)
-    a2s[0] = signalfilt_td[0] / (2 * norm**2)
+    a1s[0] = signalfilt_td[0] / (2 * norm)
+    a2s[0] = signalfilt_td[0] / (2 * norm)
 
     # signal part of chi^2
     chi0 = np.real(np.dot(v.conjugate() / psd, v)) * df
-- 
2.43.0


From 4ebf59cacc5a0fb256e8c6e121439bd1fa5479b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:12 +0000
Subject: [PATCH 03/40] fix: interpolate the start time when the best bin is
 the last one

---
 qetpy/core/_fitting.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qetpy/core/_fitting.py b/qetpy/core/_fitting.py
index 4e39e89..affe138 100644
--- a/qetpy/core/_fitting.py
+++ b/qetpy/core/_fitting.py
@@ -293,9 +293,11 @@ class OptimumFilter(object):
         """
 
         sf = 1 / (2 * delta**2)
+        # the time shifts are circular, as is the negative index below
+        nextind = (bestind + 1) % len(vals)
 
-        a = sf * (vals[bestind + 1] - 2 * vals[bestind] + vals[bestind - 1])
-        b = sf * delta * (vals[bestind + 1] - vals[bestind - 1])
+        a = sf * (vals[nextind] - 2 * vals[bestind] + vals[bestind - 1])
+        b = sf * delta * (vals[nextind] - vals[bestind - 1])
         c = sf * 2 * delta**2 * vals[bestind]
 
         if t_interp is None:
-- 
2.43.0


From 7a2ecc328acab7486eab997621e5cf733c10b21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:29 +0000
Subject: [PATCH 04/40] fix: shift time-domain pulse shapes by the nearest
 whole sample

---
 qetpy/core/_fitting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qetpy/core/_fitting.py b/qetpy/core/_fitting.py
index affe138..a9e7ed2 100644
--- a/qetpy/core/_fitting.py
+++ b/qetpy/core/_fitting.py
@@ -1777,7 +1777,7 @@ class OFnonlin(object):
         ) - (
             (A + B + C) * (np.exp(-self.time / tau_r))
         )
-        return shift(pulse, int(t0 * self.fs))
+        return shift(pulse, int(np.round(t0 * self.fs)))
 
     def threepole(self, A, B, tau_r, tau_f1, tau_f2, t0):
         """
@@ -1876,7 +1876,7 @@ class OFnonlin(object):
         ) - (
             (A + B) * (np.exp(-self.time / tau_r))
         )
-        return shift(pulse, int(t0 * self.fs))
+        return shift(pulse, int(np.round(t0 * self.fs)))
 
 
     def twopole(self, A, tau_r, tau_f, t0):
@@ -1985,7 +1985,7 @@ class OFnonlin(object):
                 A * (np.exp(-self.time / tau_r))
             )
 
-        return shift(pulse, int(t0 * self.fs))
+        return shift(pulse, int(np.round(t0 * self.fs)))
 
 
     def onepole(self, A, tau_f, t0):
-- 
2.43.0


From 1d1a5087682f15823edff001b54f16e0f010eb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:29 +0000
Subject: [PATCH 05/40] fix: sign of the frequency-domain two-pole pulse when
 the rise is slower than the fall

---
 qetpy/core/_fitting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qetpy/core/_fitting.py b/qetpy/core/_fitting.py
index a9e7ed2..66663c7 100644
--- a/qetpy/core/_fitting.py
+++ b/qetpy/core/_fitting.py
@@ -1918,8 +1918,8 @@ class OFnonlin(object):
             delta = tau_r - tau_f
             rat = tau_r / tau_f
             amp = A / (rat**(-tau_r / delta) - rat**(-tau_f / delta))
-            pulse = amp * np.abs(
-                tau_r-tau_f
+            pulse = amp * (
+                tau_f - tau_r
             ) / (
                 1 + omega * tau_f * 1j
             ) / (
-- 
2.43.0


From fec4d9e2aed328c8360c840aac8de82e3bf2a6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:29 +0000
Subject: [PATCH 06/40] fix: amplitude guess of the pulse fit for pulses
 peaking in the first samples

---
 qetpy/core/_fitting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qetpy/core/_fitting.py b/qetpy/core/_fitting.py
index 66663c7..eade562 100644
--- a/qetpy/core/_fitting.py
+++ b/qetpy/core/_fitting.py
@@ -2224,7 +2224,7 @@ class OFnonlin(object):
                 # on the detector being analyzed.
                 # good guess for t0 particularly important to provide
                 Aguess = np.mean(
-                    templateforguess[maxind - 7:maxind + 7]
+                    templateforguess[max(maxind - 7, 0):maxind + 7]
                 ) * ampscale
                 Bguess = Aguess / 3
                 Cguess = Aguess / 3
@@ -2235,7 +2235,7 @@ class OFnonlin(object):
                 t0guess = maxind / self.fs
             elif (self.npolefit==3):
                 Aguess = np.mean(
-                    templateforguess[maxind - 7:maxind + 7]
+                    templateforguess[max(maxind - 7, 0):maxind + 7]
                 ) * ampscale
                 Bguess = Aguess / 3
                 tauriseguess = 20e-6
@@ -2244,7 +2244,7 @@ class OFnonlin(object):
                 t0guess = maxind / self.fs
             else:
                 ampguess = np.mean(
-                    templateforguess[maxind-7:maxind+7]
+                    templateforguess[max(maxind - 7, 0):maxind + 7]
                 ) * ampscale
                 tauval = 0.37 * ampguess
                 endt_val = int(300e-6 * self.fs)
-- 
2.43.0


From 3a97e56227d4b68fbee1e8e262ef2e0cf58dfec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:37 +0000
Subject: [PATCH 07/40] fix: slope background template has exactly nbin samples

---
 qetpy/core/_of_nsmb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qetpy/core/_of_nsmb.py b/qetpy/core/_of_nsmb.py
index c361bf0..0422d1e 100644
--- a/qetpy/core/_of_nsmb.py
+++ b/qetpy/core/_of_nsmb.py
@@ -1192,7 +1192,7 @@ def get_slope_dc_template_nsmb(nbin):
     backgroundtemplates = np.ones((nbin,2))
     
     # construct the sloped background
-    backgroundtemplates[:,-2] = np.arange(0,1,1/nbin)
+    backgroundtemplates[:,-2] = np.arange(nbin)/nbin
     
     backgroundtemplatesshifts = np.empty((2))
     backgroundtemplatesshifts[:] = np.nan
@@ -1290,7 +1290,7 @@ def maketemplate_ttlfit_nsmb(template, fs, ttlrate, lgcconstrainpolarity=False,
                 backgroundpolarityconstraint[ii] = -1
             
     # construct the sloped background for the second to last template
-    backgroundtemplates[:,-2] = np.arange(0,1,1/nbin)
+    backgroundtemplates[:,-2] = np.arange(nbin)/nbin
 
     # the slope and dc background don't have a bin shift,
     # so set these values to nan
-- 
2.43.0


From 22bf1b1db990a94478ff1951c187c655c8a617e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:37 +0000
Subject: [PATCH 08/40] fix: NSMB fits with a single (remaining) template

---
 qetpy/core/_of_nsmb.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/qetpy/core/_of_nsmb.py b/qetpy/core/_of_nsmb.py
index 0422d1e..c4c1507 100644
--- a/qetpy/core/_of_nsmb.py
+++ b/qetpy/core/_of_nsmb.py
@@ -149,7 +149,7 @@ def of_nsmb_getPt(Pfs, P, combind=2**20, bindelay=0, bitcomb=None, bitmask=None)
     nsbmask = np.sum(bitmask)
     
     # get indices of the nonzero elements in the mask
-    indexbitmask = np.squeeze(np.nonzero(bitmask)) 
+    indexbitmask = np.nonzero(bitmask)[0] 
         
     try:
         Pmask = P[np.ix_(indexbitmask[0:ns], indexbitmask[0:nsbmask])]
@@ -284,7 +284,7 @@ def of_nsmb_setup(stemplatet, btemplatet, psd, fs):
                 P[jr,jc,:] = P[jc,jr,:]
    
     # invert the background-background matrix
-    B = np.squeeze(B)
+    B = B[:, :, 0]
     iB = np.linalg.pinv(B)
     
     bitcomb = [list(i) for i in itertools.product([0,1],repeat=nsb)]
@@ -449,7 +449,7 @@ def of_mb(pulset, phi, sbtemplatef, sbtemplate, iB, B, psddnu, fs, ns, nb, lfind
     bitcombfitBackground = 1 - bitcomb_forcezero
 
     numBCon = np.sum(bitcombfitBackground)
-    indexBitMaskBackground = np.squeeze(np.nonzero(bitcombfitBackground))
+    indexBitMaskBackground = np.nonzero(bitcombfitBackground)[0]
 
     tempBackgroundSum  = backgroundsum[np.ix_(indexBitMaskBackground)]
 
@@ -849,7 +849,7 @@ def of_nsmb_con(pulset, phi, Pfs, P, sbtemplatef, sbtemplate, psddnu, fs, indwin
         a_tset_boundary = np.copy(a_tset)
 
         # set the elements in disallowed region to boundary (0.0)
-        index_forcezero = np.squeeze(np.nonzero(bitcomb_forcezero))
+        index_forcezero = np.nonzero(bitcomb_forcezero)[0]
         a_tset_boundary[index_forcezero] = 0.0
 
         # calculate vector from absolute minimum to closest allowed point
@@ -875,7 +875,7 @@ def of_nsmb_con(pulset, phi, Pfs, P, sbtemplatef, sbtemplate, psddnu, fs, indwin
         Pt_tsetMask, iPt_tsetMask = of_nsmb_getPt(Pfs, P, combind=None,
                                         bindelay=ii,bitcomb=bitcomb,bitmask=bitcombfit_it1)
         # select the elements that are not zero
-        indexBitMask = np.squeeze(np.nonzero(bitcombfit_it1))
+        indexBitMask = np.nonzero(bitcombfit_it1)[0]
         
         qt_tsetMask = qt_tset[np.ix_(indexBitMask)]
         # redo fit in collapsed space
@@ -895,7 +895,7 @@ def of_nsmb_con(pulset, phi, Pfs, P, sbtemplatef, sbtemplate, psddnu, fs, indwin
         a_tset_boundary = np.expand_dims(np.copy(a_tsetnew[:,ii]), axis=1)
 
         # set the elements in disallowed region to boundary (0.0)
-        index_forcezero = np.squeeze(np.nonzero(bitcomb_forcezero))
+        index_forcezero = np.nonzero(bitcomb_forcezero)[0]
         a_tset_boundary[index_forcezero] = 0.0
         vecfromabsmin = a_tset_boundary - a_tset
 
@@ -913,7 +913,7 @@ def of_nsmb_con(pulset, phi, Pfs, P, sbtemplatef, sbtemplate, psddnu, fs, indwin
             Pt_tsetMask, iPt_tsetMask = of_nsmb_getPt(Pfs, P, combind=None,
                                             bindelay=ii,bitcomb=bitcomb,bitmask=bitcombfit_it2)
             # select the elements that are not zero
-            indexBitMask = np.squeeze(np.nonzero(bitcombfit_it2))
+            indexBitMask = np.nonzero(bitcombfit_it2)[0]
             
             qt_tsetMask = qt_tset[np.ix_(indexBitMask)]
             a_tsetMask = np.matmul(iPt_tsetMask,qt_tsetMask)
@@ -939,7 +939,7 @@ def of_nsmb_con(pulset, phi, Pfs, P, sbtemplatef, sbtemplate, psddnu, fs, indwin
             Pt_tsetMask, iPt_tsetMask = of_nsmb_getPt(Pfs, P, combind=None,
                                         bindelay=ii,bitcomb=bitcomb,bitmask=bitcombfit_it3)
             # select the elements that are not zero
-            indexBitMask = np.squeeze(np.nonzero(bitcombfit_it3))
+            indexBitMask = np.nonzero(bitcombfit_it3)[0]
 
             qt_tsetMask = qt_tset[np.ix_(indexBitMask)]
             a_tsetMask = np.matmul(iPt_tsetMask,qt_tsetMask)
-- 
2.43.0


From 725aa5dd34cd536abc0742ffefd3b3e62655d649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:37 +0000
Subject: [PATCH 09/40] fix: chi2 interpolation of of_nsmb_con at the first and
 last delay bin

---
 qetpy/core/_of_nsmb.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/qetpy/core/_of_nsmb.py b/qetpy/core/_of_nsmb.py
index c4c1507..3b818a5 100644
--- a/qetpy/core/_of_nsmb.py
+++ b/qetpy/core/_of_nsmb.py
@@ -1110,10 +1110,17 @@ def _interpchi2(indmin, chi2, amp, time):
 
     """
 
-    t_to_interp = time[int(indmin-1):int(indmin+2)]
-        
-    chi2_interp = chi2[int(indmin-1):int(indmin+2)]
-    amin_s_interp = amp[int(indmin-1):int(indmin+2)]
+    # the neighbors of the first and last bins are circular
+    indmin = int(np.squeeze(indmin))
+    if 0 < indmin < len(chi2) - 1:
+        inds = np.arange(indmin - 1, indmin + 2)
+        t_to_interp = time[inds]
+    else:
+        inds = np.arange(indmin - 1, indmin + 2) % len(chi2)
+        t_to_interp = time[indmin] + (time[1] - time[0]) * np.arange(-1, 2)
+
+    chi2_interp = chi2[inds]
+    amin_s_interp = amp[inds]
 
     z_interp = np.polyfit(t_to_interp, chi2_interp,2)
     f_interp = np.poly1d(z_interp)
-- 
2.43.0


From dab64f5d573ed77f71525a94b2d6a8bab387f6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:49 +0000
Subject: [PATCH 10/40] fix: fold the frequency axis of multi-dimensional PSDs
 in calc_psd

---
 qetpy/core/_noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/core/_noise.py b/qetpy/core/_noise.py
index 19d59ef..a617505 100644
--- a/qetpy/core/_noise.py
+++ b/qetpy/core/_noise.py
@@ -78,7 +78,7 @@ def calc_psd(x, fs=1.0, folded_over=True):
             
         # multiply the necessary frequencies by two (zeroth frequency should be the same, as
         # should the last frequency when x.shape[-1] is odd)
-        psd[1:x.shape[-1]//2+1 - (x.shape[-1]+1)%2] *= 2.0
+        psd[..., 1:x.shape[-1]//2+1 - (x.shape[-1]+1)%2] *= 2.0
         f = rfftfreq(x.shape[-1], d=1.0/fs)
     else:
         # if folded_over = False, we calculate the Fourier Transform for all frequencies
-- 
2.43.0


From 13d78f05464cc343bb800147e2d19bb3cd97687c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:06 +0000
Subject: [PATCH 11/40] fix: make_decreasing kept neither zeros nor arrays
 whose minimum is the first value

---
 qetpy/utils/_utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/qetpy/utils/_utils.py b/qetpy/utils/_utils.py
index 627b0e4..ea1cfdf 100644
--- a/qetpy/utils/_utils.py
+++ b/qetpy/utils/_utils.py
@@ -236,16 +236,18 @@ def make_decreasing(y, x=None):
     if x is None:
         x = np.arange(len(y))
 
-    y_dec = np.zeros(len(y))
-    y_dec[0] = y[0]
+    interp_inds = np.zeros(len(y), dtype=bool)
+    interp_inds[0] = True
     last_val = y[0]
 
     for ii, val in enumerate(y):
         if (last_val > val):
             last_val = y[ii]
-            y_dec[ii] = y[ii]
+            interp_inds[ii] = True
 
-    interp_inds = y_dec!=0
+    # nothing to interpolate if only the first value is left
+    if np.sum(interp_inds) == 1:
+        return np.full(len(y), y[0])
 
     f = interpolate.interp1d(
         x[interp_inds], y[interp_inds], fill_value="extrapolate",
-- 
2.43.0


From d1eee3312353bfca915cd3cb02e0fe56e0bd44cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:16 +0000
Subject: [PATCH 12/40] fix: gen_noise no longer changes the caller's PSD

---
 qetpy/core/_noise.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qetpy/core/_noise.py b/qetpy/core/_noise.py
index a617505..e87d001 100644
--- a/qetpy/core/_noise.py
+++ b/qetpy/core/_noise.py
@@ -148,6 +148,7 @@ def gen_noise(psd, fs=1.0, ntraces=1):
     """
     
     if np.isinf(psd[0]):
+        psd = np.copy(psd)
         psd[0] = 0
     
     traces = np.zeros((ntraces, len(psd)))
-- 
2.43.0


From 2d52954f7de167281b2ce89f25ec48eeda1799d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:16 +0000
Subject: [PATCH 13/40] fix: Noise.calculate_psd does not double the zero and
 Nyquist frequencies

---
 qetpy/core/_noise.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/qetpy/core/_noise.py b/qetpy/core/_noise.py
index e87d001..4b70faa 100644
--- a/qetpy/core/_noise.py
+++ b/qetpy/core/_noise.py
@@ -306,9 +306,14 @@ class Noise(object):
         imag_psd_chan = np.imag(fft)**2
         # take the average of the psd's for each trace, normalize, and fold over the 
         # negative frequencies since they are symmetric
-        psd = np.mean(psd_chan, axis = 0)*2.0/(traceshape[2]*self.fs) 
-        real_psd = np.mean(real_psd_chan, axis = 0)*2.0/(traceshape[2]*self.fs)
-        imag_psd = np.mean(imag_psd_chan, axis = 0)*2.0/(traceshape[2]*self.fs)  
+        # (the zeroth frequency, and the Nyquist frequency when the length is even, are not doubled)
+        fold = np.full(lenpsd, 2.0)
+        fold[0] = 1.0
+        if traceshape[2] % 2 == 0:
+            fold[-1] = 1.0
+        psd = np.mean(psd_chan, axis = 0)*fold/(traceshape[2]*self.fs) 
+        real_psd = np.mean(real_psd_chan, axis = 0)*fold/(traceshape[2]*self.fs)
+        imag_psd = np.mean(imag_psd_chan, axis = 0)*fold/(traceshape[2]*self.fs)  
       
         self.psd = psd
         self.real_psd = real_psd
-- 
2.43.0


From d2f502c48f8cb7de08552374e0168e0db5b673c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:33 +0000
Subject: [PATCH 14/40] fix: align_traces uses its cut_off_freq and fs
 arguments

---
 qetpy/utils/_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/utils/_utils.py b/qetpy/utils/_utils.py
index ea1cfdf..0b1dcb1 100644
--- a/qetpy/utils/_utils.py
+++ b/qetpy/utils/_utils.py
@@ -424,7 +424,7 @@ def align_traces(traces, lgcjustshifts=False, n_cut=5000, cut_off_freq=5000.0,
 
     # Filter and truncate all traces to speed up.
     traces_filt = lowpassfilter(
-        traces[:, :n_cut], cut_off_freq=5000, fs=625e3,
+        traces[:, :n_cut], cut_off_freq=cut_off_freq, fs=fs,
     )
     traces_temp = traces_filt - np.mean(traces_filt, axis=-1, keepdims=True)
     traces_norm = traces_temp / (np.amax(traces_temp, axis=-1, keepdims=True))
-- 
2.43.0


From 26f7dee540e527142aa81fb14da69b75b136ae4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:36 +0000
Subject: [PATCH 15/40] fix: calc_offset drops no period or sample to rounding

period = 1 / sgfreq is rounded, so that e.g. 49 samples at fs = sgfreq = 49 lost
a sample.
---
 qetpy/utils/_utils.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/qetpy/utils/_utils.py b/qetpy/utils/_utils.py
index 0b1dcb1..4ce593e 100644
--- a/qetpy/utils/_utils.py
+++ b/qetpy/utils/_utils.py
@@ -288,10 +288,8 @@ def calc_offset(x, fs=1.0, sgfreq=100.0, is_didv=False):
     """
 
     if is_didv:
-        period =  1.0 / sgfreq
-        period_bins = period * fs
-        n_periods = int(x.shape[-1] / period_bins)
-        x = x[..., :int(n_periods * period_bins)]
+        n_periods = int(x.shape[-1] * sgfreq / fs)
+        x = x[..., :int(n_periods * fs / sgfreq)]
 
     offset = np.mean(np.mean(x, axis=-1), axis=0)
     std = np.std(np.mean(x, axis=-1), axis=0) / np.sqrt(x.shape[0])
-- 
2.43.0


From 3dd9bef79bb681bc4e11968661bae88a2c8031b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:36 +0000
Subject: [PATCH 16/40] fix: energy_absorbed joins the two baseline regions
 along time

np.hstack joins arrays of three or more dimensions along their second axis.
---
 qetpy/utils/_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qetpy/utils/_utils.py b/qetpy/utils/_utils.py
index 4ce593e..482576c 100644
--- a/qetpy/utils/_utils.py
+++ b/qetpy/utils/_utils.py
@@ -607,7 +607,9 @@ def energy_absorbed(trace, ioffset, qetbias, rload, rsh, fs=None,
         else:
             raise ValueError('Must provide indbasepre or baseline')
         if indbasepost is not None:
-            base_traces = np.hstack((base_traces, trace[..., indbasepost:]))
+            base_traces = np.concatenate(
+                (base_traces, trace[..., indbasepost:]), axis=-1,
+            )
         baseline = np.mean(base_traces, axis=-1, keepdims=True)
 
     baseline_p0 = powertrace_simple(baseline, ioffset, qetbias, rload, rsh)
-- 
2.43.0


From 5356908fa568afccd0b46f1df440b1ccef0da1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:32 +0000
Subject: [PATCH 17/40] fix: IV.rfit_err is the error of the fitted resistance

---
 qetpy/core/_iv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/core/_iv.py b/qetpy/core/_iv.py
index e2af134..ed3a0dc 100644
--- a/qetpy/core/_iv.py
+++ b/qetpy/core/_iv.py
@@ -297,7 +297,7 @@ class IV(object):
         self.ioff = ioff[:,:,0]
         self.ioff_err = ioff_err[:,:,0]
         self.rfit = rfit[:,:,0]
-        self.rfit_err = rfit[:,:,0]
+        self.rfit_err = rfit_err[:,:,0]
         self.rnorm = rnorm[:,:,0]
         self.rnorm_err = rnorm_err[:,:,0]
 
-- 
2.43.0


From 2993c9a1e18a4ede3a1930677d1cf098be5af8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:32 +0000
Subject: [PATCH 18/40] fix: IV stores load resistances given for every bias
 point

They were accepted but never stored, so that calc_iv raised AttributeError.
---
 qetpy/core/_iv.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/qetpy/core/_iv.py b/qetpy/core/_iv.py
index ed3a0dc..02740c7 100644
--- a/qetpy/core/_iv.py
+++ b/qetpy/core/_iv.py
@@ -205,8 +205,8 @@ class IV(object):
         self.vb_err = np.reshape(vb_err, (ntemps, nch, niters))
 
         if np.isscalar(rload):
-            self.rload = np.ones_like(dites)*rload
-            self.rload_err = np.ones_like(dites)*rload_err
+            self.rload = np.ones_like(self.dites)*rload
+            self.rload_err = np.ones_like(self.dites)*rload_err
 
         elif rload.shape==(nch,):
             self.rload = np.tile(np.tile(rload,(niters,1)).transpose(),(ntemps,1,1))
@@ -216,7 +216,11 @@ class IV(object):
             self.rload = np.swapaxes(np.tile(rload.transpose(),(niters,1,1)),0,-1)
             self.rload_err = np.swapaxes(np.tile(rload_err.transpose(),(niters,1,1)),0,-1)
 
-        elif rload.shape!=(ntemps,nch,niters):
+        elif rload.shape==(ntemps,nch,niters):
+            self.rload = rload
+            self.rload_err = rload_err
+
+        else:
             raise ValueError("the shape of rload doesn't match the data")
         
         self.chan_names = chan_names
-- 
2.43.0


From 63887f91c3f2c123f0c002ddef6aa54ec6b9ae6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:32 +0000
Subject: [PATCH 19/40] fix: IBIS accepts scalar rp_guess for 1- and
 2-dimensional data and one per bias point

A scalar guess took the shape of the data as given and was then indexed as if it
were 3-dimensional; guesses for every bias point were never stored.
---
 qetpy/core/_ibis.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/qetpy/core/_ibis.py b/qetpy/core/_ibis.py
index 58967eb..b83c4de 100644
--- a/qetpy/core/_ibis.py
+++ b/qetpy/core/_ibis.py
@@ -206,8 +206,8 @@ class IBIS(object):
         self.ibias_err = np.reshape(ibias_err, (ntemps, nch, niters))
 
         if np.isscalar(rp_guess):
-            self.rp_guess = np.ones_like(dites)*rp_guess
-            self.rp_err_guess = np.ones_like(dites)*rp_err_guess
+            self.rp_guess = np.ones_like(self.dites)*rp_guess
+            self.rp_err_guess = np.ones_like(self.dites)*rp_err_guess
 
         elif rp_guess.shape==(nch,):
             self.rp_guess = np.tile(
@@ -227,7 +227,11 @@ class IBIS(object):
                 np.tile(rp_err_guess.transpose(), (niters,1,1)), 0, -1,
             )
 
-        elif rp_guess.shape!=(ntemps,nch,niters):
+        elif rp_guess.shape==(ntemps, nch, niters):
+            self.rp_guess = rp_guess
+            self.rp_err_guess = rp_err_guess
+
+        else:
             raise ValueError("the shape of rp_guess doesn't match the data")
 
         self.chan_names = chan_names
-- 
2.43.0


From 913dde3916f5571cad33e18115aa0c0fdc16e936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:32 +0000
Subject: [PATCH 20/40] fix: error of the current offset in IBIS

The derivative of the intersection current with respect to the normal slope
lacked a factor of the slope (its terms had different units).
---
 qetpy/core/_ibis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/core/_ibis.py b/qetpy/core/_ibis.py
index b83c4de..8c4804d 100644
--- a/qetpy/core/_ibis.py
+++ b/qetpy/core/_ibis.py
@@ -579,7 +579,7 @@ class IBIS(object):
                     int_n[t, ch, 0] - int_sc[t, ch, 0]
                 ) / (
                     slope_sc[t, ch, 0] - slope_n[t, ch, 0]
-                ) + (
+                ) + slope_n[t, ch, 0] * (
                     int_n[t, ch, 0] - int_sc[t, ch, 0]
                 ) / (
                     (slope_sc[t, ch, 0] - slope_n[t, ch, 0])**2
-- 
2.43.0


From 51f1fef0a01e1051e6776d01fa5782e47e7a80ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:49 +0000
Subject: [PATCH 21/40] fix: IBIS resistance errors use the variance of the
 inverse slope once

covout[1,1] is a variance already; it was squared as if it were a standard
deviation, so that the fit error practically vanished from rfit_err and rp_err.
---
 qetpy/core/_ibis.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/qetpy/core/_ibis.py b/qetpy/core/_ibis.py
index 8c4804d..e807015 100644
--- a/qetpy/core/_ibis.py
+++ b/qetpy/core/_ibis.py
@@ -478,7 +478,7 @@ class IBIS(object):
                 covout = jac.dot(xcov.dot(jac.transpose()))
                 rfit[t, ch] = xout[1] * self.rsh
                 rfit_err[t, ch] = np.sqrt(
-                    (self.rsh * covout[1,1])**2 + (xout[1] * self.rsh_err)**2,
+                    self.rsh**2 * covout[1,1] + (xout[1] * self.rsh_err)**2,
                 )
                 
         # Do SC fit
@@ -511,9 +511,7 @@ class IBIS(object):
                     covout = jac.dot(xcov.dot(jac.transpose()))
                     rp[t, ch] = xout[1] * self.rsh - self.rsh
                     rp_err[t, ch] = np.sqrt(
-                        (
-                            self.rsh * covout[1,1]
-                        )**2 + (
+                        self.rsh**2 * covout[1,1] + (
                             (xout[1] - 1) * self.rsh_err
                         )**2,
                     )
-- 
2.43.0


From 05722bd5ec0acaf2ab6f0c8f80b4721f2b654110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:49 +0000
Subject: [PATCH 22/40] fix: offset errors of IBIS without a superconducting
 fit

The current offset is then the intercept of the normal fit and the bias offset
is zero, but their errors were propagated through an intersection with a
non-existent superconducting line (the intercept error cancelled).
---
 qetpy/core/_ibis.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/qetpy/core/_ibis.py b/qetpy/core/_ibis.py
index e807015..856f988 100644
--- a/qetpy/core/_ibis.py
+++ b/qetpy/core/_ibis.py
@@ -600,6 +600,12 @@ class IBIS(object):
                 covout = jac_int.dot(cov_int.dot(jac_int.transpose()))
                 ioff_err[t,ch] = np.sqrt(np.sum(covout))
 
+        # without a SC fit, the offsets are the intercept of the normal fit
+        # and zero
+        if not self.fitsc:
+            ioff_err = int_n_err
+            ibias_off_err = np.zeros_like(int_n)
+
         # if yoff and xoff are specified, use these instead of the
         # calculated values
         if yoff is None:
-- 
2.43.0


From e68ea3e14044e24d26de38d4d79f0ce74a105abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:49 +0000
Subject: [PATCH 23/40] fix: IBIS.analyze accepts float yoff and xoff as
 documented

---
 qetpy/core/_ibis.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qetpy/core/_ibis.py b/qetpy/core/_ibis.py
index 856f988..d66cee8 100644
--- a/qetpy/core/_ibis.py
+++ b/qetpy/core/_ibis.py
@@ -611,13 +611,13 @@ class IBIS(object):
         if yoff is None:
             ioff = int_point_y
         else:
-            ioff = yoff
-            ioff_err = yoff_err
+            ioff = np.zeros_like(int_n) + yoff
+            ioff_err = np.zeros_like(int_n) + yoff_err
         if xoff is None:
             ibias_off = int_point_x
         else:
-            ibias_off = xoff
-            ibias_off_err = xoff_err
+            ibias_off = np.zeros_like(int_n) + xoff
+            ibias_off_err = np.zeros_like(int_n) + xoff_err
 
         self.slope_n = slope_n
         self.slope_sc = slope_sc
-- 
2.43.0


From e9bd906f78881787aa6ca4f9cded9490adf22bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:19 +0000
Subject: [PATCH 24/40] fix: resample_factors covers the whole denominator of
 fs/sgfreq

---
 qetpy/utils/_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qetpy/utils/_utils.py b/qetpy/utils/_utils.py
index 482576c..74d8234 100644
--- a/qetpy/utils/_utils.py
+++ b/qetpy/utils/_utils.py
@@ -110,11 +110,13 @@ def resample_factors(fs, sgfreq):
         return 1, 1
 
     down = np.multiply.reduce(numer)
-    up = round(down / min(denom)) * min(denom)
+    # `up` must contain every factor of the denominator
+    base = np.multiply.reduce([key**-rfacs[key] for key in denom])
+    up = round(down / base) * base
 
     # round up if `sgfreq` is prime (otherwise would return 0)
     if up==0:
-        up = np.ceil(down / min(denom)).astype(int) * min(denom)
+        up = base
 
     return int(up), int(down)
 
-- 
2.43.0


From c0f4d9add132e90136dbcd605d7a0374f9007033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:32 +0000
Subject: [PATCH 25/40] fix: processing dIdV traces again does not add another
 half period to dt0

---
 qetpy/core/didv/_base_didv.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qetpy/core/didv/_base_didv.py b/qetpy/core/didv/_base_didv.py
index 792bf49..50d23f9 100644
--- a/qetpy/core/didv/_base_didv.py
+++ b/qetpy/core/didv/_base_didv.py
@@ -949,8 +949,9 @@ class _BaseDIDV(object):
         bins = np.arange(0, nbinsraw)
 
         # add half a period of the square wave frequency to the
-        # initial offset if add180phase is True
-        if (self._add180phase):
+        # initial offset if add180phase is True (only once, also if the
+        # traces are processed again)
+        if self._add180phase and self._tmean is None:
             self._dt0 = self._dt0 + 1/(2*self._sgfreq)
 
         self._time = bins*dt - self._dt0
-- 
2.43.0


From e670ccf908ac0ae7a1770dc324b9009ce2cc1294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:33 +0000
Subject: [PATCH 26/40] fix: dIdV processing drops no period to rounding

---
 qetpy/core/didv/_base_didv.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/qetpy/core/didv/_base_didv.py b/qetpy/core/didv/_base_didv.py
index 50d23f9..693ae19 100644
--- a/qetpy/core/didv/_base_didv.py
+++ b/qetpy/core/didv/_base_didv.py
@@ -958,8 +958,7 @@ class _BaseDIDV(object):
 
         # figure out how many didv periods are in the trace, including
         # the time offset
-        period = 1.0/self._sgfreq
-        nperiods = np.floor(nbinsraw*dt/period)
+        nperiods = np.floor(nbinsraw*self._sgfreq/self._fs)
 
         # find which indices to keep in order to have an
         # integer number of periods
-- 
2.43.0


From 69d0c36ecbed083fe7d893396cd4da9cf7b9dbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:33 +0000
Subject: [PATCH 27/40] fix: DIDVPriors adds the half period of add180phase
 once

---
 qetpy/core/didv/_didv_priors.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/qetpy/core/didv/_didv_priors.py b/qetpy/core/didv/_didv_priors.py
index 15dead3..2635ed4 100644
--- a/qetpy/core/didv/_didv_priors.py
+++ b/qetpy/core/didv/_didv_priors.py
@@ -255,8 +255,7 @@ class DIDVPriors(_BaseDIDV, _PlotDIDV):
             self._sgfreq,
             self._sgamp,
             self._rsh,
-            add180phase=self._add180phase,
-            dt0=self._dt0,
+            dt0=self._dt0, # includes the shift of add180phase
             rp=priors[1] if priors[1] != 0 else 0.01,
             r0=priors[2] if priors[2] != 0 else 0.1,
         )
-- 
2.43.0


From a8696fa5f5ff96eae68d0b259896685ba582bb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:06 +0000
Subject: [PATCH 28/40] fix: dIdV traces without power at an undriven frequency
 are not dropped

---
 qetpy/core/didv/_base_didv.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/qetpy/core/didv/_base_didv.py b/qetpy/core/didv/_base_didv.py
index 693ae19..a72ce1c 100644
--- a/qetpy/core/didv/_base_didv.py
+++ b/qetpy/core/didv/_base_didv.py
@@ -676,8 +676,11 @@ class _BaseDIDV(object):
         sf[tracelength//2] = 0.0j
 
         # deconvolve the trace from the square wave to get the didv in
-        # frequency space
-        dvdi = (sf/st)
+        # frequency space (zero at frequencies without signal, also if the
+        # trace has no power there either)
+        dvdi = np.zeros_like(sf)
+        signalinds = sf != 0
+        dvdi[signalinds] = sf[signalinds]/st[signalinds]
 
         # set values that are within floating point error of zero to
         # 1.0 + 1.0j (we will give these values virtually infinite error, so
-- 
2.43.0


From e8402d2fa546515b5c84b9667d3fe4f5575f8b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:44 +0000
Subject: [PATCH 29/40] fix: loadfromdidv compares noisetype by value

---
 qetpy/sim/_sim.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qetpy/sim/_sim.py b/qetpy/sim/_sim.py
index d7a3a14..02a7381 100644
--- a/qetpy/sim/_sim.py
+++ b/qetpy/sim/_sim.py
@@ -97,7 +97,7 @@ def loadfromdidv(DIDVobj, G=5.0e-10, qetbias=160e-6, tc=0.040, tload=0.9,
 
     """
 
-    if noisetype is "superconducting":
+    if noisetype == "superconducting":
         fitresult = DIDVobj.fitresult(1)
         if 'smallsignalparams' in fitresult:
             key = 'smallsignalparams'
@@ -112,7 +112,7 @@ def loadfromdidv(DIDVobj, G=5.0e-10, qetbias=160e-6, tc=0.040, tload=0.9,
         loopgain = 0
         tau0 = 0
         G = 0
-    elif noisetype is "normal":
+    elif noisetype == "normal":
         raise ValueError('Please specify rnormal.')
         fitresult = DIDVobj.fitresult(1)
         if 'smallsignalparams' in fitresult:
@@ -128,7 +128,7 @@ def loadfromdidv(DIDVobj, G=5.0e-10, qetbias=160e-6, tc=0.040, tload=0.9,
         loopgain = 0
         tau0 = 0
         G = 0
-    elif noisetype is "transition":
+    elif noisetype == "transition":
         fitresult = DIDVobj.fitresult(2)
         if 'smallsignalparams' in fitresult:
             key = 'smallsignalparams'
-- 
2.43.0


From 12845dd81102d23e8106f11e18f552b512c7bade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:44 +0000
Subject: [PATCH 30/40] fix: loadfromdidv accepts rnormal for normal noise

---
 qetpy/sim/_sim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qetpy/sim/_sim.py b/qetpy/sim/_sim.py
index 02a7381..78ff35a 100644
--- a/qetpy/sim/_sim.py
+++ b/qetpy/sim/_sim.py
@@ -113,7 +113,8 @@ def loadfromdidv(DIDVobj, G=5.0e-10, qetbias=160e-6, tc=0.040, tload=0.9,
         tau0 = 0
         G = 0
     elif noisetype == "normal":
-        raise ValueError('Please specify rnormal.')
+        if rnormal is None:
+            raise ValueError('Please specify rnormal.')
         fitresult = DIDVobj.fitresult(1)
         if 'smallsignalparams' in fitresult:
             key = 'smallsignalparams'
-- 
2.43.0


From 8c0dd300b2af811fbcb6ccde86132479b5e519a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:02 +0000
Subject: [PATCH 31/40] fix: energy_res_estimate of two-sided PSDs equals that
 of one-sided ones

---
 qetpy/sim/_sim.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/qetpy/sim/_sim.py b/qetpy/sim/_sim.py
index 78ff35a..e808638 100644
--- a/qetpy/sim/_sim.py
+++ b/qetpy/sim/_sim.py
@@ -36,6 +36,12 @@ def energy_res_estimate(freqs, tau_collect, Sp, collection_eff):
     omega = 2*np.pi*freqs
     single_pole = collection_eff/(1.+ omega*tau_collect*1j)
     integrand = 2*np.abs(single_pole)**2/(np.pi*Sp)
+    if np.any(omega < 0):
+        # two-sided PSDs share the power with the negative frequencies, which
+        # doubles both the number of frequencies and the integrand
+        inds = np.argsort(omega)
+        omega = omega[inds]
+        integrand = integrand[inds]/4
     energy_res = np.sqrt(1/np.trapz(integrand, x = omega))/constants.e
 
     return energy_res
-- 
2.43.0


From f8974b17924eaeee9145bacaa27315ad7475903b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:35 +0000
Subject: [PATCH 32/40] fix: unknown outlier algorithms of the cuts raise
 ValueError

---
 qetpy/cut/_cut.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qetpy/cut/_cut.py b/qetpy/cut/_cut.py
index 9065e4a..619097f 100644
--- a/qetpy/cut/_cut.py
+++ b/qetpy/cut/_cut.py
@@ -456,7 +456,7 @@ def pileupcut(traces, fs=625e3, outlieralgo="removeoutliers", nsig=2, removemean
     elif outlieralgo=="iterstat":
         cpileup = iterstat(abs(amps), cut=nsig, precision=10000.0)[2]
     else:
-        raise ValueErrror("Unknown outlier algorithm inputted.")
+        raise ValueError("Unknown outlier algorithm inputted.")
 
     return cpileup
 
@@ -537,7 +537,7 @@ def slopecut(traces, fs=625e3, outlieralgo="removeoutliers", nsig=2, is_didv=Fal
     elif outlieralgo=="iterstat":
         cslope = iterstat(slopes[czeromeanslopeinds], cut=nsig, precision=10000.0)[2]
     else:
-        raise ValueErrror("Unknown outlier algorithm inputted.")
+        raise ValueError("Unknown outlier algorithm inputted.")
     cslopeinds = czeromeanslopeinds[cslope]
 
     cslopetot = np.ones(len(traces), dtype=bool)
@@ -599,7 +599,7 @@ def baselinecut(traces, fs=625e3, outlieralgo="removeoutliers", nsig=2, is_didv=
     elif outlieralgo=="iterstat":
         cbaseline = iterstat(tracebegin, cut=nsig, precision=10000.0)[2]
     else:
-        raise ValueErrror("Unknown outlier algorithm inputted.")
+        raise ValueError("Unknown outlier algorithm inputted.")
 
     return cbaseline
 
@@ -654,7 +654,7 @@ def chi2cut(traces, fs=625e3, outlieralgo="iterstat", nsig=2):
     elif outlieralgo=="iterstat":
         cchi2 = iterstat(chi2, cut=nsig, precision=10000.0)[2]
     else:
-        raise ValueErrror("Unknown outlier algorithm inputted.")
+        raise ValueError("Unknown outlier algorithm inputted.")
 
     return cchi2
 
-- 
2.43.0


From 7254122d06742b800ed688e4aacda51a9be2d35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:35 +0000
Subject: [PATCH 33/40] fix: slopecut rejects the traces outside of its cut

---
 qetpy/cut/_cut.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/cut/_cut.py b/qetpy/cut/_cut.py
index 619097f..34d87fc 100644
--- a/qetpy/cut/_cut.py
+++ b/qetpy/cut/_cut.py
@@ -540,7 +540,7 @@ def slopecut(traces, fs=625e3, outlieralgo="removeoutliers", nsig=2, is_didv=Fal
         raise ValueError("Unknown outlier algorithm inputted.")
     cslopeinds = czeromeanslopeinds[cslope]
 
-    cslopetot = np.ones(len(traces), dtype=bool)
+    cslopetot = np.zeros(len(traces), dtype=bool)
     cslopetot[cslopeinds] = True
 
     return cslopetot
-- 
2.43.0


From 26ecac7a3179fa0ea8bb0fd0178dfe15dbe91724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:35 +0000
Subject: [PATCH 34/40] fix: symmetrizedist flips mostly positive values

---
 qetpy/cut/_cut.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/cut/_cut.py b/qetpy/cut/_cut.py
index 34d87fc..4bd51ee 100644
--- a/qetpy/cut/_cut.py
+++ b/qetpy/cut/_cut.py
@@ -357,7 +357,7 @@ def symmetrizedist(vals):
 
     # if most vals are positive, flip the sign of them so we can use the same code for both negative and positive vals
     if valsmean>0.0:
-        vals= vals
+        vals = -vals
 
     # choose symmetric upper and lower bounds for histogram to make the middle bin centered on zero (since we want zero mean)
     histupr=max(vals)
-- 
2.43.0


From 1eceab76976296534436bcb6a55c4cb4bc4c8819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:35 +0000
Subject: [PATCH 35/40] fix: symmetrizedist keeps values at the lower edge of
 the centre bin

---
 qetpy/cut/_cut.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/cut/_cut.py b/qetpy/cut/_cut.py
index 4bd51ee..cf0720a 100644
--- a/qetpy/cut/_cut.py
+++ b/qetpy/cut/_cut.py
@@ -375,7 +375,7 @@ def symmetrizedist(vals):
         if len(hist_num)>2: # otherwise we cannot symmetrize the distribution
             # inititalize the cut that symmetrizes the slopes
             czeromeanvals = np.zeros(nvals, dtype=bool)
-            czeromeanvals[vals>bin_edges[histbins//2]] = True
+            czeromeanvals[vals>=bin_edges[histbins//2]] = True
 
             # go through each bin and remove events until the bin number is symmetric
             for ibin in range(histbins//2, histbins-1):
-- 
2.43.0


From fba03f227cd60395b25fed87cd59c44dfb3a6c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:35 +0000
Subject: [PATCH 36/40] fix: pileupcut leaves the traces of the caller alone

---
 qetpy/cut/_cut.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/cut/_cut.py b/qetpy/cut/_cut.py
index cf0720a..cf1dea1 100644
--- a/qetpy/cut/_cut.py
+++ b/qetpy/cut/_cut.py
@@ -443,7 +443,7 @@ def pileupcut(traces, fs=625e3, outlieralgo="removeoutliers", nsig=2, removemean
 
     if removemeans:
         mean = np.mean(traces, axis=1)
-        traces -= mean[:, np.newaxis]
+        traces = traces - mean[:, np.newaxis]
 
     amps = np.zeros(len(traces))
 
-- 
2.43.0


From 52705d710559ad5f2e6ab6252b551efafe537d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:35 +0000
Subject: [PATCH 37/40] fix: get_muon_cut uses the length of the trace

---
 qetpy/cut/_cut.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/cut/_cut.py b/qetpy/cut/_cut.py
index cf1dea1..6085df6 100644
--- a/qetpy/cut/_cut.py
+++ b/qetpy/cut/_cut.py
@@ -800,7 +800,7 @@ def get_muon_cut(traces, thresh_pct = 0.95, nsatbins = 600):
         peak_loc = np.argmax(trace)
         # check that the peak is saturated (this should be true for muons that saturate the
         # detector or muon that rail the amplifier) 
-        if ((peak_loc + int(nsatbins)) < arr.shape[-1]):
+        if ((peak_loc + int(nsatbins)) < trace.shape[-1]):
             if (trace[peak_loc+int(nsatbins)] >= trace_max*thresh_pct):
                 muon_cut[ii] = True                    
     return muon_cut
-- 
2.43.0


From 011cc8d27e0597c705e3d2a40f57b171dd877200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:35 +0000
Subject: [PATCH 38/40] fix: removeoutliers does not remove all points

---
 qetpy/cut/_cut.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qetpy/cut/_cut.py b/qetpy/cut/_cut.py
index 6085df6..81d1754 100644
--- a/qetpy/cut/_cut.py
+++ b/qetpy/cut/_cut.py
@@ -41,7 +41,11 @@ def removeoutliers(x, maxiter=20, skewtarget=0.05):
     while(sk > skewtarget):
         dmed=x-np.median(x[inds])
         dist=np.min([abs(min(dmed)),abs(max(dmed))])
-        inds=inds & (abs(dmed) < dist)
+        newinds=inds & (abs(dmed) < dist)
+        if not np.any(newinds):
+            # (half of the points or more are equal to the extreme value)
+            break
+        inds=newinds
         sk=skew(x[inds])
         if(i > maxiter):
             break
-- 
2.43.0


From 9f233cdc2772b4889787cb82a8d27f85cfba7f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:41 +0000
Subject: [PATCH 39/40] fix: shift truncated interpolated and fill values for
 integer arrays

---
 qetpy/utils/_utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/qetpy/utils/_utils.py b/qetpy/utils/_utils.py
index 74d8234..0349283 100644
--- a/qetpy/utils/_utils.py
+++ b/qetpy/utils/_utils.py
@@ -47,6 +47,11 @@ def shift(arr, num, fill_value=0):
 
     """
 
+    arr = np.asarray(arr)
+    if not np.issubdtype(arr.dtype, np.inexact):
+        # interpolated and fill values do not fit in an array of integers
+        arr = arr.astype(float)
+
     result = np.empty_like(arr)
 
     if float(num).is_integer():
-- 
2.43.0


From 8cb9d3b9a5d336819b09fc14f83ce4e881325540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:41 +0000
Subject: [PATCH 40/40] fix: align_traces could not mask the shifted-in samples
 of integer traces

---
 qetpy/utils/_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qetpy/utils/_utils.py b/qetpy/utils/_utils.py
index 0349283..b4dff83 100644
--- a/qetpy/utils/_utils.py
+++ b/qetpy/utils/_utils.py
@@ -440,7 +440,7 @@ def align_traces(traces, lgcjustshifts=False, n_cut=5000, cut_off_freq=5000.0,
     orig = np.argmax(signal.fftconvolve(t1,t1[::-1],mode = 'full'))
 
     # initialize empty array to store the aligned traces
-    traces_aligned = np.zeros_like(traces)
+    traces_aligned = np.zeros(traces.shape)
     shifts = np.zeros(traces.shape[0])
 
     for ii in range(traces.shape[0]):
@@ -453,7 +453,7 @@ def align_traces(traces, lgcjustshifts=False, n_cut=5000, cut_off_freq=5000.0,
         shifts[ii] = t2_shift
         if not lgcjustshifts:
             traces_aligned[ii] = ndimage.shift(
-                traces[ii], t2_shift, cval=np.nan,
+                traces[ii].astype(float), t2_shift, cval=np.nan,
             )
 
     if lgcjustshifts:
-- 
2.43.0

