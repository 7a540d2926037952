From 175e127cb2923ce099fc3b3ee0c6dacb4ea25708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:07 +0000
Subject: [PATCH 01/10] fix: keep circular binaries out of the
 general-eccentricity branch of get_t_merge_ecc

---
 src/legwork/evol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/legwork/evol.py b/src/legwork/evol.py
index 759114a..fe0f349 100644
--- a/src/legwork/evol.py
+++ b/src/legwork/evol.py
@@ -566,7 +566,7 @@ def get_t_merge_ecc(ecc_i, a_i=None, f_orb_i=None, beta=None, m_1=None, m_2=None
         circular = ecc_i == 0.0
         small_e = np.logical_and(ecc_i > 0.0, ecc_i < small_e_tol)
         large_e = ecc_i > large_e_tol
-        other_e = np.logical_and(ecc_i >= small_e_tol, ecc_i <= large_e_tol)
+        other_e = np.logical_and(ecc_i > 0.0, np.logical_and(ecc_i >= small_e_tol, ecc_i <= large_e_tol))
 
         # calculate c0 from Peters Eq. 5.11 (avoid circular binaries)
         c0 = np.zeros_like(a_i)
-- 
2.43.0


From 3b84dc9de9cb3a618c327034922402374762aee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:53 +0000
Subject: [PATCH 02/10] fix: don't overwrite the user's timesteps in evol_ecc
 with avoid_merger

---
 src/legwork/evol.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/legwork/evol.py b/src/legwork/evol.py
index fe0f349..7230661 100644
--- a/src/legwork/evol.py
+++ b/src/legwork/evol.py
@@ -383,6 +383,9 @@ def evol_ecc(ecc_i, t_evol=None, n_step=100, timesteps=None, beta=None, m_1=None
         too_close[:, 0] = False
 
         if np.any(too_close):
+            # don't change the timesteps that the user passed in
+            timesteps = timesteps.copy()
+
             # set them all equal to the previous timestep before passing limit
             timesteps[too_close] = -1 * u.Gyr
             previous = timesteps.max(axis=1).repeat(timesteps.shape[1])
-- 
2.43.0


From 41a2b2d26639c4d994b952c38e9cad56ec87bed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:49 +0000
Subject: [PATCH 03/10] fix: robson19 confusion noise is no longer NaN where
 its exponential overflows

Above about 3 Hz exp(...) overflows to infinity while 1 + tanh(...) underflows to zero and the product is
NaN, which makes e.g. the DECIGO curve NaN in band when this model is selected.
---
 src/legwork/psd.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/legwork/psd.py b/src/legwork/psd.py
index 40e44d8..656e6eb 100644
--- a/src/legwork/psd.py
+++ b/src/legwork/psd.py
@@ -372,9 +372,11 @@ def get_confusion_noise_robson19(f, t_obs=4 * u.yr):
     # find index of the closest length to inputted observation time
     ind = np.abs(t_obs - lengths).argmin()
 
-    confusion_noise = 9e-45 * f**(-7 / 3.) * np.exp(-f**(alpha[ind]) + beta[ind]
-                                                    * f * np.sin(kappa[ind] * f))\
-        * (1 + np.tanh(gamma[ind] * (fk[ind] - f))) * u.Hz**(-1)
+    # write (1 + tanh(x)) as 2e^(2x) / (1 + e^(2x)) and combine the exponentials to avoid overflow at high f
+    x = gamma[ind] * (fk[ind] - f)
+    confusion_noise = 9e-45 * f**(-7 / 3.) * 2 * np.exp(-f**(alpha[ind]) + beta[ind]
+                                                        * f * np.sin(kappa[ind] * f) + 2 * x)\
+        / (1 + np.exp(2 * x)) * u.Hz**(-1)
     return confusion_noise
 
 
-- 
2.43.0


From d4e561052ba9a2e2892ee4bedd834b5160680055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:49 +0000
Subject: [PATCH 04/10] fix: DECIGO noise is infinite below f_low however low
 f_low is

Out-of-band frequencies are replaced by 1e-8 Hz and the band was then tested on the replaced values, so
that with f_low <= 1e-8 Hz every out-of-band frequency got the (finite) noise of 1e-8 Hz.
---
 src/legwork/psd.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/legwork/psd.py b/src/legwork/psd.py
index 656e6eb..afa685d 100644
--- a/src/legwork/psd.py
+++ b/src/legwork/psd.py
@@ -243,7 +243,8 @@ def decigo_psd(f, L=None, t_obs=4 * u.yr, approximate_R=None, confusion_noise="k
     MAX_F = f_high.to(u.Hz).value
 
     # overwrite frequencies outside the range to prevent error
-    f = np.where(np.logical_and(f >= MIN_F, f <= MAX_F), f, 1e-8)
+    in_band = np.logical_and(f >= MIN_F, f <= MAX_F)
+    f = np.where(in_band, f, 1e-8)
 
     # shot noise
     def Pshot(f):
@@ -268,7 +269,7 @@ def decigo_psd(f, L=None, t_obs=4 * u.yr, approximate_R=None, confusion_noise="k
     psd = Pshot(f) + Prad(f) + Pacc(f) + cn
 
     # replace values for bad frequencies (set to extremely high value)
-    psd = np.where(np.logical_and(f >= MIN_F, f <= MAX_F), psd, np.inf)
+    psd = np.where(in_band, psd, np.inf)
     return psd / u.Hz
 
 
-- 
2.43.0


From 5821518f3f7a3ca52fdac53a5635156cebb5c4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:49 +0000
Subject: [PATCH 05/10] fix: LISA response function is not extrapolated above
 its tabulated range

For arms longer than about 2.59e9 m the table ends below 2 Hz and the extrapolated spline soon turns
negative, and with it the LISA noise in band. Use the analytic approximation there instead.
---
 src/legwork/psd.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/legwork/psd.py b/src/legwork/psd.py
index afa685d..9ab9797 100644
--- a/src/legwork/psd.py
+++ b/src/legwork/psd.py
@@ -45,8 +45,9 @@ def load_response_function(f, fstar=19.09e-3):
     # interpolate the R values in the file
     R_data = splrep(f_R * fstar, R, s=0)
 
-    # use interpolated curve to get R values for supplied f values
-    R = splev(f, R_data, der=0)
+    # use interpolated curve to get R values for supplied f values (and the approximation above the end of
+    # the file, where extrapolating the curve would lead to negative values)
+    R = np.where(f <= f_R[-1] * fstar, splev(f, R_data, der=0), approximate_response_function(f, fstar))
     return R
 
 
-- 
2.43.0


From 6c8f58e90fcc08df4de71cb1408534d0b628638f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:44 +0000
Subject: [PATCH 06/10] fix: keep the sensitivity curve in step with sc_params
 |= and setdefault

---
 src/legwork/source.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index 991edcc..1bb9f57 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -1577,6 +1577,16 @@ class SensitivityCurveParams(dict):
         if changed:
             self._re_interpolate()
 
+    def __ior__(self, other):
+        """Change several parameters at once, in the same way as :meth:`update`"""
+        self.update(other)
+        return self
+
+    def setdefault(self, key, default=None):
+        """Every parameter always has a value, so this only checks the key and returns that value"""
+        self._check_keys([key])
+        return self[key]
+
     def __copy__(self):
         """Copy the parameters without triggering any re-interpolation"""
         return SensitivityCurveParams(dict(self), source=self._source)
-- 
2.43.0


From a0ed91b746ea669e2ec5a69379f49eaf41fbeb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:44 +0000
Subject: [PATCH 07/10] fix: keep the weights and interpolate_sc when evolving
 into a new class

---
 src/legwork/source.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index 1bb9f57..7add730 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -1291,12 +1291,12 @@ class Source():
             evolved_sources = Source(m_1=self.m_1, m_2=self.m_2, ecc=ecc_evol, dist=self.dist,
                                      n_proc=self.n_proc, f_orb=f_orb_evol, position=self.position,
                                      polarisation=self.polarisation, inclination=self.inclination,
-                                     gw_lum_tol=self.gw_lum_tol, stat_tol=self.stat_tol,
+                                     weights=self.weights, gw_lum_tol=self.gw_lum_tol, stat_tol=self.stat_tol,
                                      interpolate_g=False, interpolate_sc=False, sc_params=self.sc_params)
 
             # copy over interpolated g and sc
             evolved_sources.g = self.g
-            evolved_sources.interpolate_sc = True
+            evolved_sources.interpolate_sc = self.interpolate_sc
             evolved_sources.sc = self.sc
             evolved_sources.t_merge = None
 
-- 
2.43.0


From 2779c365ca7b25ea62597edc3f881b0d1b24fdea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:58 +0000
Subject: [PATCH 08/10] fix: check that m_1, m_2 and a have units before
 converting a to f_orb

---
 src/legwork/source.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index 7add730..02bad3e 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -172,17 +172,17 @@ class Source():
                                                                 polarisation, inclination)
             position = SkyCoord(lon=lon, lat=lat, distance=dist, frame='barycentrictrueecliptic')
 
-        # calculate the orbital frequency if it wasn't supplied
-        f_orb = utils.get_f_orb_from_a(a, m_1, m_2) if f_orb is None else f_orb
-
         # define which arguments must have units
-        unit_args = [m_1, m_2, dist, f_orb]
-        unit_args_str = ['m_1', 'm_2', 'dist', 'f_orb']
+        unit_args = [m_1, m_2, dist, a if f_orb is None else f_orb]
+        unit_args_str = ['m_1', 'm_2', 'dist', 'a' if f_orb is None else 'f_orb']
 
         for i in range(len(unit_args)):
             assert (isinstance(unit_args[i], u.quantity.Quantity)), \
                 "`{}` must have units".format(unit_args_str[i])
 
+        # calculate the orbital frequency if it wasn't supplied
+        f_orb = utils.get_f_orb_from_a(a, m_1, m_2) if f_orb is None else f_orb
+
         # make sure the inputs are arrays
         fixed_args, _ = utils.ensure_array(m_1, m_2, dist, f_orb, ecc, weights)
         m_1, m_2, dist, f_orb, ecc, weights = fixed_args
-- 
2.43.0


From 60b655aa75bc7f833bc57caa652fd5945c121b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:58 +0000
Subject: [PATCH 09/10] fix: allow a single source with a position but no
 inclination or polarisation

---
 src/legwork/source.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index 02bad3e..9435ac4 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -151,11 +151,11 @@ class Source():
             if inclination is None:
                 logger.info("Generating random values for source inclinations")
                 # inclination is sampled uniformly in cos(i) to get a range of [0, pi/2]
-                inclination = np.arccos(np.random.uniform(0, 1, len(m_1))) * u.rad
+                inclination = np.arccos(np.random.uniform(0, 1, np.size(m_1))) * u.rad
             if polarisation is None:
                 logger.info("Generating random values for source polarisations")
                 # polarisation is sampled from 0 to pi following Flanagan & Hughes 1998 (e.g. Eq. 2.34)
-                polarisation = np.random.uniform(0, np.pi, len(m_1)) * u.rad
+                polarisation = np.random.uniform(0, np.pi, np.size(m_1)) * u.rad
 
         # ensure position is in the correct coordinate frame
         if position is not None:
-- 
2.43.0


From c0e673e41adae8732fb24ee518b6db11038529eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:33 +0000
Subject: [PATCH 10/10] fix: load sources with a custom instrument from file
 when the sensitivity curve is interpolated

Source.from_file raised a TypeError for such sources although it announces that the custom_psd function
can be supplied after loading. There is no curve to interpolate until then.
---
 src/legwork/source.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/legwork/source.py b/src/legwork/source.py
index 9435ac4..dd3a949 100644
--- a/src/legwork/source.py
+++ b/src/legwork/source.py
@@ -642,9 +642,13 @@ class Source():
         """Set Source sensitivity curve function
 
         If user wants to interpolate then perform interpolation of LISA sensitivity curve using
-        ``sc_params``. Otherwise just leave the function as None.
+        ``sc_params``. Otherwise just leave the function as None. This is also left as None for a custom
+        instrument until its ``custom_psd`` is supplied, since there is nothing to interpolate before then
+        (e.g. when loading sources from a file, which can't contain the function).
         """
-        if self.interpolate_sc:
+        missing_psd = self.sc_params["instrument"] == "custom" and self.sc_params["custom_psd"] is None
+
+        if self.interpolate_sc and not missing_psd:
             # get values
             frequency_range = np.logspace(-7, np.log10(2), 10000) * u.Hz
             sc = psd.power_spectral_density(frequency_range, **self.sc_params)
-- 
2.43.0

