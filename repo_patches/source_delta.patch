From 377028d65164b1f07722e4e4f3280f13bb4e256d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:13 +0000
Subject: [PATCH 01/20] fix: use the decaying wave beyond the critical angle

For a lossless medium arcsin(n0 sin(th0) / n) > 1 lies on the branch cut, and
the root used by coh_tmm grew with depth, so for a totally reflecting backing
medium Delta came out as 360 - Delta.
---
 refellips/reflect_modelSE.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/refellips/reflect_modelSE.py b/refellips/reflect_modelSE.py
index cb1593f..5acfea7 100644
--- a/refellips/reflect_modelSE.py
+++ b/refellips/reflect_modelSE.py
@@ -142,6 +142,12 @@ def coh_tmm(n_list, d_list, th_0, lam_vac):
     # (NLAYERS, NUMPNTS)
     th_list = arcsin(n_list[0] * np.sin(th_0[None, :]) / n_list[:, None])
 
+    # beyond the critical angle of a lossless medium arcsin lies on its branch
+    # cut, where it describes a wave that grows with depth. The forward wave is
+    # the one that decays.
+    growing = np.imag(n_list[:, None] * np.cos(th_list)) < 0
+    th_list = np.where(growing, np.pi - th_list, th_list)
+
     # kz is the z-component of (complex) angular wavevector for forward-moving
     # wave. Positive imaginary part means decaying.
     # kz_list.shape = (NLAYERS, NUMPOINTS)
-- 
2.43.0


From 19676ebe93b1716a72cea343dd3cad39e07eec8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:13 +0000
Subject: [PATCH 02/20] fix: do not truncate psi and delta for integer
 wavelengths/angles

The result arrays took the dtype of the wavelength array, an integer input
truncated psi and delta to whole degrees.
---
 refellips/reflect_modelSE.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refellips/reflect_modelSE.py b/refellips/reflect_modelSE.py
index 5acfea7..a2f9b0e 100644
--- a/refellips/reflect_modelSE.py
+++ b/refellips/reflect_modelSE.py
@@ -380,7 +380,7 @@ class ReflectModelSE:
         if p is not None:
             self.parameters.pvals = np.array(p)
 
-        wavelength, aois = wavelength_aoi.T
+        wavelength, aois = np.asarray(wavelength_aoi, dtype=np.float64).T
         psi = np.zeros_like(wavelength)
         delta = np.zeros_like(wavelength)
 
-- 
2.43.0


From 268645d751eb4347cade3b6a926c2c886d9ad654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:13 +0000
Subject: [PATCH 03/20] fix: Delta_Psi_TMM must not modify the layers array of
 its caller

---
 refellips/reflect_modelSE.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/refellips/reflect_modelSE.py b/refellips/reflect_modelSE.py
index a2f9b0e..2ddf55f 100644
--- a/refellips/reflect_modelSE.py
+++ b/refellips/reflect_modelSE.py
@@ -277,6 +277,7 @@ def Delta_Psi_TMM(AOI, layers, wavelength, delta_offset, reflect_delta=False):
     AOI = np.asarray(AOI, np.float64)
     AOI = AOI * (np.pi / 180)
 
+    layers = np.array(layers, dtype=np.float64)
     layers[0, 2] = 0  # infinate medium cannot have an extinction coeff
     RIs = layers[:, 1] + layers[:, 2] * 1j
     thicks = layers[:, 0] / 10  # Ang to nm
-- 
2.43.0


From 32b0b7b473ca14afc3cb4fb800341b7aee71639f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:13 +0000
Subject: [PATCH 04/20] fix: physical root of the Bruggeman EMA for absorbing
 media

The principal square root selects the solution with negative extinction for
some absorbing mixtures. A depolarisation factor of 1, which is documented as
allowed, gave a refractive index of 0.
---
 refellips/structureSE.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/refellips/structureSE.py b/refellips/structureSE.py
index 407b914..1fc240b 100644
--- a/refellips/structureSE.py
+++ b/refellips/structureSE.py
@@ -905,15 +905,20 @@ def overall_ri(ri_A, ri_B, vf_B=0.0, ema="linear", depolarisation_factor=1 / 3):
 
         with warnings.catch_warnings():
             warnings.filterwarnings("ignore", category=RuntimeWarning)
-            v = (
-                b
-                + np.sqrt(
-                    b**2
-                    - 4
-                    * (depolarisation_factor - 1)
-                    * (E_a * E_b * depolarisation_factor)
-                )
-            ) / (2 * (1 - depolarisation_factor))
+            root = np.sqrt(
+                b**2
+                - 4
+                * (depolarisation_factor - 1)
+                * (E_a * E_b * depolarisation_factor)
+            )
+            # for absorbing media the principal square root isn't always the
+            # physically reasonable one, the other one has gain
+            root = np.where(np.imag(root) < 0, -root, root)
+            if depolarisation_factor == 1:
+                # limit of the expression below
+                v = E_a * E_b / (vf_B * E_a + (1 - vf_B) * E_b)
+            else:
+                v = (b + root) / (2 * (1 - depolarisation_factor))
             E_avg = np.where(np.isfinite(v), v, 0)
     else:
         raise RuntimeError("No other method of mixing is known")
-- 
2.43.0


From aa88a5b99e87897f557dbe2983e1188658741f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:13 +0000
Subject: [PATCH 05/20] fix: a copy of a StructureSE keeps its EMA, reversal,
 contraction, wavelength

copy.copy(structure) silently fell back to the linear EMA, an unreversed
structure, etc., so it gave different slabs.
---
 refellips/structureSE.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/refellips/structureSE.py b/refellips/structureSE.py
index 1fc240b..3604a92 100644
--- a/refellips/structureSE.py
+++ b/refellips/structureSE.py
@@ -475,7 +475,15 @@ class StructureSE(Structure):
     sld_profile = None
 
     def __copy__(self):
-        s = StructureSE(name=self.name, solvent=self._solvent)
+        s = StructureSE(
+            name=self.name,
+            solvent=self._solvent,
+            reverse_structure=self.reverse_structure,
+            contract=self.contract,
+            wavelength=self.wavelength,
+            ema=self.ema,
+            depolarisation_factor=self.depolarisation_factor,
+        )
         s.data = self.data.copy()
         return s
 
-- 
2.43.0


From 6a689155e3c5b28406175269e0d41c848ab57262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:13 +0000
Subject: [PATCH 06/20] fix: RI must not modify the wavelength array it is
 given

The conversion to nm was done in place: the array of the caller was scaled, a
second RI made from it was wrong by a factor of 1000. Lists were not usable.
---
 refellips/dispersion.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/refellips/dispersion.py b/refellips/dispersion.py
index d7170f6..3b48757 100644
--- a/refellips/dispersion.py
+++ b/refellips/dispersion.py
@@ -91,8 +91,10 @@ class RI(ScattererSE):
                 # this is if you have an (3, N) array or tuple specifying
                 # wavelength, RI, extinction coef.
                 # wavelength assumed to be in *nm*
-                self._wav, self._RI, self._EC = dispersion
-                self._wav *= 1000
+                self._wav, self._RI, self._EC = [
+                    np.asarray(d, np.float64) for d in dispersion
+                ]
+                self._wav = self._wav * 1000
             else:
                 raise TypeError("format not recognised")
 
-- 
2.43.0


From b6883a822cfb0c423023a308ed1d7baf47de912d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:13 +0000
Subject: [PATCH 07/20] fix: keep the name an RI takes from its file

---
 refellips/dispersion.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/refellips/dispersion.py b/refellips/dispersion.py
index 3b48757..8bb099e 100644
--- a/refellips/dispersion.py
+++ b/refellips/dispersion.py
@@ -74,6 +74,7 @@ class RI(ScattererSE):
                 if not len(name):
                     # if there is no name get it from the path
                     name = os.path.basename(dispersion).split(".")[0]
+                    self.name = name
 
                 vals = np.loadtxt(
                     dispersion, skiprows=1, delimiter=",", encoding="utf8"
-- 
2.43.0


From c865eb2028f27b4aa09b58451220d595e4e2a564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:13 +0000
Subject: [PATCH 08/20] fix: circular_distance for angles more than a period
 apart

The distance became negative, e.g. with a Delta offset.
---
 refellips/objectiveSE.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refellips/objectiveSE.py b/refellips/objectiveSE.py
index ce76f7d..6da4ea4 100644
--- a/refellips/objectiveSE.py
+++ b/refellips/objectiveSE.py
@@ -36,7 +36,7 @@ def circular_distance(angle1, angle2, period=360):
     Returns:
         float or np.ndarray: The shortest circular distance between the angles.
     """
-    diff = np.abs(angle1 - angle2)
+    diff = np.abs(angle1 - angle2) % period
     return np.minimum(diff, period - diff)
 
 
-- 
2.43.0


From d82d44052f5aa7d530e44911e866ce1a0d4f3da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:13 +0000
Subject: [PATCH 09/20] fix: an objective uses the Delta convention of its own
 data

The convention was only set when an objective was made, so of two objectives
sharing a model the one made first was evaluated with the other's convention.
---
 refellips/objectiveSE.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/refellips/objectiveSE.py b/refellips/objectiveSE.py
index 6da4ea4..7c70eaa 100644
--- a/refellips/objectiveSE.py
+++ b/refellips/objectiveSE.py
@@ -200,6 +200,7 @@ class ObjectiveSE(BaseObjective):
 
         wavelength, aoi, psi_d, delta_d = self.data.data
         wavelength_aoi = np.c_[wavelength, aoi]
+        self.model._flip_delta = self.data._delta_flipped
         psi, delta = self.model(wavelength_aoi)
         delta_err = circular_distance(delta, delta_d, period=360)
         return np.r_[psi - psi_d, delta_err]
@@ -389,6 +390,7 @@ class ObjectiveSE(BaseObjective):
         wavelength, aoi, psi_d, delta_d = self.data.data
         wavelength_aoi = np.c_[wavelength, aoi]
 
+        self.model._flip_delta = self.data._delta_flipped
         psi, delta = self.model(wavelength_aoi)
 
         logl = 0.0
-- 
2.43.0


From 8d35cc97cc7828ce1a93c0a9996aee7365a46ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:13 +0000
Subject: [PATCH 10/20] fix: logl includes model.logp and logp_extra

Both are documented as contributions to the log-likelihood, but were ignored.
---
 refellips/objectiveSE.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/refellips/objectiveSE.py b/refellips/objectiveSE.py
index 7c70eaa..aeb2b8a 100644
--- a/refellips/objectiveSE.py
+++ b/refellips/objectiveSE.py
@@ -418,7 +418,13 @@ class ObjectiveSE(BaseObjective):
         if np.isnan(logl).any():
             raise RuntimeError("ObjectiveSE.logl encountered a NaN.")
 
-        return -0.5 * np.sum(logl)
+        logl = -0.5 * np.sum(logl)
+        logl += self.model.logp()
+
+        if self.logp_extra is not None:
+            logl += self.logp_extra(self.model, self.data)
+
+        return logl
 
     def logpost(self, pvals=None):
         """
-- 
2.43.0


From 45f796d11033a2c9f11e4a4d846e7f7195480a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:59 +0000
Subject: [PATCH 11/20] fix: making a DataSE leaves its source as it was and
 keeps its mask

reflect_delta=True changed the delta array of the caller (or of the DataSE
that was passed) in place. A DataSE made from a DataSE lost the mask and the
Delta convention. Lists and pandas Series gave a DataSE that was unusable.
---
 refellips/dataSE.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/refellips/dataSE.py b/refellips/dataSE.py
index 50f3ba8..22067d7 100644
--- a/refellips/dataSE.py
+++ b/refellips/dataSE.py
@@ -90,21 +90,30 @@ class DataSE(object):
             self._aoi = data._aoi
             self._psi = data._psi
             self._delta = data._delta
+            self._delta_flipped = data._delta_flipped
+            self.mask = np.copy(data.mask)
 
         # If a list or tuple, then assume its in format wavelength, AOI, psi, delta.
         elif isinstance(data, (list, tuple, np.ndarray)):
-            self._wavelength = data[0]
-            self._aoi = data[1]
-            self._psi = data[2]
-            self._delta = data[3]
+            self._wavelength = np.array(data[0], dtype=float)
+            self._aoi = np.array(data[1], dtype=float)
+            self._psi = np.array(data[2], dtype=float)
+            self._delta = np.array(data[3], dtype=float)
+
+        if not isinstance(data, DataSE):
+            self._delta_flipped = False
+            self.mask = np.ones_like(self._wavelength, dtype=bool)
 
-        self._delta_flipped = False
         if reflect_delta:
-            dmask = self._delta > 180
-            self._delta[dmask] = 360 - self._delta[dmask]
-            self._delta_flipped = True
+            self._reflect_delta()
 
-        self.mask = np.ones_like(self._wavelength, dtype=bool)
+    def _reflect_delta(self):
+        # reflect delta around 180 degrees, leaving arrays that others may
+        # hold a reference to as they are.
+        self._delta = np.where(
+            self._delta > 180, 360 - self._delta, self._delta
+        )
+        self._delta_flipped = True
 
     def __len__(self):
         """Number of unmasked points in the dataset."""
-- 
2.43.0


From 1e157892ef6de2065d3803200022d27571db3656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:59 +0000
Subject: [PATCH 12/20] fix: loading a DataSE from a file handle, and refresh,
 lost rows

The header detection had already consumed the header and the first row when
the handle was given to loadtxt, which then skipped rows a second time.
Refreshing also dropped the reflection of Delta and kept a mask of the wrong
size.
---
 refellips/dataSE.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/refellips/dataSE.py b/refellips/dataSE.py
index 22067d7..bd9b256 100644
--- a/refellips/dataSE.py
+++ b/refellips/dataSE.py
@@ -243,15 +243,17 @@ class DataSE(object):
 
         skip_lines = 0
         with possibly_open_file(f, "r") as text:
-            for i in range(100):  # check the first 100 lines
-                try:
-                    float(text.readline().split(self.delimiter)[0])
-                    break
-                except ValueError:
-                    skip_lines += 1
+            lines = text.readlines()
+
+        for line in lines[:100]:  # check the first 100 lines
+            try:
+                float(line.split(self.delimiter)[0])
+                break
+            except ValueError:
+                skip_lines += 1
 
         self._wavelength, self._aoi, self._psi, self._delta = np.loadtxt(
-            f, skiprows=skip_lines, delimiter=self.delimiter, encoding="utf8"
+            lines, skiprows=skip_lines, delimiter=self.delimiter
         ).T
 
     def refresh(self):
@@ -260,8 +262,13 @@ class DataSE(object):
 
         """
         if self.filename is not None:
-            with possibly_open_file(self.filename) as f:
-                self.load(f)
+            if hasattr(self.filename, "seek"):
+                self.filename.seek(0)
+            self.load(self.filename)
+            if self._delta_flipped:
+                self._reflect_delta()
+            if self.mask.shape != self._wavelength.shape:
+                self.mask = np.ones_like(self._wavelength, dtype=bool)
 
 
 def open_EP4file(fname, reflect_delta=False):
-- 
2.43.0


From 62923d07394808c809c737de6d1631453e4c909f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:59 +0000
Subject: [PATCH 13/20] fix: Horiba files could not be read except on Windows

The "ANSI" codec only exists there. A Path can now be used as well.
---
 refellips/dataSE.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/refellips/dataSE.py b/refellips/dataSE.py
index bd9b256..4d07710 100644
--- a/refellips/dataSE.py
+++ b/refellips/dataSE.py
@@ -508,7 +508,7 @@ def open_HORIBAfile(
 
     """
 
-    name = fname[:-4]
+    name = str(fname)[:-4]
     metadata = {}
     linenodict = {}
     MDingest = False
@@ -546,7 +546,7 @@ def open_HORIBAfile(
         fname,
         skiprows=linenodict["DATA"] + 1,
         nrows=len(metadata["DATA"]) - 1,
-        encoding="ANSI",
+        encoding="latin1",
         delimiter=" ",
         usecols=["nm", "Psi", "Delta"],
     )
-- 
2.43.0


From b65bdac5e1b7230b0cb499a84d30d8b0e8449aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:41 +0000
Subject: [PATCH 14/20] fix: TaucLorentz was NaN for sqrt(2) * En < C < 2 * En

Only the square of gamma is used, and it may be negative in the documented
range C < 2 * En.
---
 refellips/dispersion.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/refellips/dispersion.py b/refellips/dispersion.py
index 8bb099e..7d81b6c 100644
--- a/refellips/dispersion.py
+++ b/refellips/dispersion.py
@@ -566,8 +566,9 @@ class TaucLorentz(ScattererSE):
         )
         a_atan = (energies**2 - Ei**2) * (Ei**2 + Eg**2) + Eg**2 * C**2
         alpha = np.sqrt(4 * Ei**2 - C**2)
-        gamma = np.sqrt(Ei**2 - C**2 / 2)
-        zeta4 = (energies**2 - gamma**2) ** 2 + 0.25 * alpha**2 * C**2
+        # gamma**2 is negative when C > sqrt(2) * Ei
+        gamma2 = Ei**2 - C**2 / 2
+        zeta4 = (energies**2 - gamma2) ** 2 + 0.25 * alpha**2 * C**2
 
         e1 = (
             A
@@ -599,11 +600,11 @@ class TaucLorentz(ScattererSE):
             * A
             * Ei
             * Eg
-            * (energies**2 - gamma**2)
+            * (energies**2 - gamma2)
             / np.pi
             / zeta4
             / alpha
-            * (np.pi + 2 * np.arctan(2 * (gamma**2 - Eg**2) / alpha / C))
+            * (np.pi + 2 * np.arctan(2 * (gamma2 - Eg**2) / alpha / C))
         )
         e1 -= (
             A
-- 
2.43.0


From 7d74cabff48d363167961c7c54569540273bad8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:43 +0000
Subject: [PATCH 15/20] fix: TaucLorentz was NaN at the bandgap energy

The two logarithms that diverge at E == Eg have coefficients that cancel there.
---
 refellips/dispersion.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/refellips/dispersion.py b/refellips/dispersion.py
index 7d81b6c..cfe9999 100644
--- a/refellips/dispersion.py
+++ b/refellips/dispersion.py
@@ -568,6 +568,8 @@ class TaucLorentz(ScattererSE):
         alpha = np.sqrt(4 * Ei**2 - C**2)
         # gamma**2 is negative when C > sqrt(2) * Ei
         gamma2 = Ei**2 - C**2 / 2
+        # the logarithmic singularities at the bandgap cancel
+        dE = np.where(energies == Eg, 1.0, np.abs(energies - Eg))
         zeta4 = (energies**2 - gamma2) ** 2 + 0.25 * alpha**2 * C**2
 
         e1 = (
@@ -614,7 +616,7 @@ class TaucLorentz(ScattererSE):
             / np.pi
             / zeta4
             / energies
-            * np.log(np.abs(energies - Eg) / (energies + Eg))
+            * np.log(dE / (energies + Eg))
         )
         e1 += (
             2
@@ -625,7 +627,7 @@ class TaucLorentz(ScattererSE):
             / np.pi
             / zeta4
             * np.log(
-                np.abs(energies - Eg)
+                dE
                 * (energies + Eg)
                 / np.sqrt((Ei**2 - Eg**2) ** 2 + Eg**2 * C**2)
             )
-- 
2.43.0


From c1364ae14c16d704ed6911840c14c470b6321fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:25 +0000
Subject: [PATCH 16/20] fix: a mask of integers, of one value, or None did not
 select points as documented

---
 refellips/dataSE.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/refellips/dataSE.py b/refellips/dataSE.py
index 4d07710..9ff0bce 100644
--- a/refellips/dataSE.py
+++ b/refellips/dataSE.py
@@ -148,6 +148,20 @@ class DataSE(object):
             loc = np.where(self.wavelength == unique_wav)
             yield unique_wav, self.aoi[loc], self.psi[loc], self.delta[loc]
 
+    @property
+    def mask(self):
+        """
+        mask, True for the points that are included.
+        """
+        return self._mask
+
+    @mask.setter
+    def mask(self, mask):
+        if mask is None:
+            mask = True
+
+        self._mask = np.broadcast_to(mask, self._wavelength.shape).astype(bool)
+
     @property
     def wavelength(self):
         """wavelength(nm)"""
-- 
2.43.0


From 23acd2155947104c0e7de0b40d7410618bd26251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:25 +0000
Subject: [PATCH 17/20] fix: a file with a single data point loads as arrays of
 one point

---
 refellips/dataSE.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refellips/dataSE.py b/refellips/dataSE.py
index 9ff0bce..e871c64 100644
--- a/refellips/dataSE.py
+++ b/refellips/dataSE.py
@@ -267,7 +267,7 @@ class DataSE(object):
                 skip_lines += 1
 
         self._wavelength, self._aoi, self._psi, self._delta = np.loadtxt(
-            lines, skiprows=skip_lines, delimiter=self.delimiter
+            lines, skiprows=skip_lines, delimiter=self.delimiter, ndmin=2
         ).T
 
     def refresh(self):
-- 
2.43.0


From 6c37a33bd92f69f51c3d553be33def308a6d0b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:41 +0000
Subject: [PATCH 18/20] fix: EP4 files of several locations at several times
 lost data

---
 refellips/dataSE.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/refellips/dataSE.py b/refellips/dataSE.py
index e871c64..4754d90 100644
--- a/refellips/dataSE.py
+++ b/refellips/dataSE.py
@@ -327,9 +327,11 @@ def open_EP4file(fname, reflect_delta=False):
         print("Treating as time series:")
         output = []
         for t in df["Time"].drop_duplicates():
-            tdf = df[df["Time"] == t]
-            output += _loadEP4(tdf)  # not sure if this will work
-            output[-1]["time"] = t
+            tdf = df[df["Time"] == t].reset_index(drop=True)
+            ops = _loadEP4(tdf)
+            for op in ops:
+                op["time"] = t
+            output += ops
     else:
         output = _loadEP4(df)
         for op in output:
-- 
2.43.0


From d7dfd85cce35a25fe2e4f147583e5637118f21a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:07 +0000
Subject: [PATCH 19/20] fix: data points were lost when an M2000 file was given
 as a file handle

---
 refellips/dataSE.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/refellips/dataSE.py b/refellips/dataSE.py
index 4754d90..33b998b 100644
--- a/refellips/dataSE.py
+++ b/refellips/dataSE.py
@@ -632,6 +632,10 @@ def open_M2000file(fname, take_every=1, dropdatapoints=1):
                 "Currently, only single and time-series datasets can be read"
             )
 
+        if file is fname:
+            # the data are read from the start of the file
+            file.seek(0)
+
     header = firstline[len("VASEmethod[") : -len("]")]
     for ele in header.split(", "):
         key, val = ele.split("=")
-- 
2.43.0


From 7bb95eeaf0927262dff2c4fe5f50d40210bd15f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:13 +0000
Subject: [PATCH 20/20] fix: Horiba files with a latin1 header, or given as a
 file handle, could not be read

---
 refellips/dataSE.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/refellips/dataSE.py b/refellips/dataSE.py
index 33b998b..6cd71b2 100644
--- a/refellips/dataSE.py
+++ b/refellips/dataSE.py
@@ -529,10 +529,15 @@ def open_HORIBAfile(
     linenodict = {}
     MDingest = False
 
-    with possibly_open_file(fname, "r") as f:
+    with possibly_open_file(fname, "rb") as f:
         lines = f.readlines()
+        if f is fname:
+            # the data are read from the start of the file
+            f.seek(0)
 
         for i, line in enumerate(lines):
+            if isinstance(line, bytes):
+                line = line.decode("latin1")
             line = line.strip()  # Drop newline character
             if not MDingest:
                 if len(line) and line[0] == "#":
-- 
2.43.0

