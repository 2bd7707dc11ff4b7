From 131593f1af0578d57bb31a709bcdfb47233d5db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:18 +0000
Subject: [PATCH 01/23] fix: compute substitute stiffness on a copy so that
 errors and concurrent use cannot corrupt the model

---
 weac/mixins.py | 36 ++++++++++++------------------------
 1 file changed, 12 insertions(+), 24 deletions(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index b83f9dc..e503065 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -2,6 +2,7 @@
 # pylint: disable=invalid-name,too-many-locals,too-many-arguments,too-many-lines
 
 # Standard library imports
+from copy import copy
 from functools import partial
 
 # Third party imports
@@ -592,22 +593,17 @@ class SlabContactMixin:
         -------
         k : stiffness of substitute spring.
         """
+        # work on a copy: the instance must not change, even if an error occurs
+        sub = copy(self)
+
         # adjust system to substitute system
-        if dof in ["rot"]:
-            tempsys = self.system
-            self.system = "rot"
-        if dof in ["trans"]:
-            tempsys = self.system
-            self.system = "trans"
+        sub.system = dof
 
         # Change eigensystem for rested segment
         if support in ["rested"]:
-            tempkn = self.kn
-            tempkt = self.kt
-            self.kn = self.ratio * self.kn
-            self.kt = self.ratio * self.kt
-            self.calc_system_matrix()
-            self.calc_eigensystem()
+            sub.kn = self.ratio * self.kn
+            sub.kt = self.ratio * self.kt
+            sub.calc_eigensystem()
 
         # prepare list of segment characteristics
         segments = {
@@ -616,21 +612,13 @@ class SlabContactMixin:
             "ki": np.array([True, True]),
         }
         # solve system of equations
-        constants = self.assemble_and_solve(phi=0, **segments)
+        constants = sub.assemble_and_solve(phi=0, **segments)
         # calculate stiffness
-        _, z_pst, _ = self.rasterize_solution(C=constants, phi=0, num=1, **segments)
+        _, z_pst, _ = sub.rasterize_solution(C=constants, phi=0, num=1, **segments)
         if dof in ["rot"]:
-            k = abs(1 / self.psi(z_pst)[0])
+            k = abs(1 / sub.psi(z_pst)[0])
         if dof in ["trans"]:
-            k = abs(1 / self.w(z_pst)[0])
-
-        # Reset to previous system and eigensystem
-        self.system = tempsys
-        if support in ["rested"]:
-            self.kn = tempkn
-            self.kt = tempkt
-            self.calc_system_matrix()
-            self.calc_eigensystem()
+            k = abs(1 / sub.w(z_pst)[0])
 
         return k
 
-- 
2.43.0


From be444e666860abdb82eec72132b2b607043346e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:56 +0000
Subject: [PATCH 02/23] fix: exclude dead loads from the stiffness of the
 substitute springs

---
 weac/mixins.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/weac/mixins.py b/weac/mixins.py
index e503065..ad16e6a 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -599,6 +599,9 @@ class SlabContactMixin:
         # adjust system to substitute system
         sub.system = dof
 
+        # remove dead loads, the spring responds to the applied unit load only
+        sub.g, sub.p = 0, 0
+
         # Change eigensystem for rested segment
         if support in ["rested"]:
             sub.kn = self.ratio * self.kn
-- 
2.43.0


From 5bdf357e3efbbfc330dec733a813c26706a97678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:56 +0000
Subject: [PATCH 03/23] fix: set the inclination before the collapse height
 that depends on it

---
 weac/mixins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index ad16e6a..129eefd 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -767,8 +767,8 @@ class SlabContactMixin:
         """Set class attributes for touchdown consideration"""
         self.set_columnlength(L)
         self.set_cracklength(a)
-        self.set_tc(cf)
         self.set_phi(phi)
+        self.set_tc(cf)
         self.set_stiffness_ratio(ratio)
 
     def calc_touchdown_mode(self):
-- 
2.43.0


From cdff5209eb11a3067bc93d7c60bcf6b1e2170f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:56 +0000
Subject: [PATCH 04/23] fix: a failing touchdown analysis must leave the
 previous touchdown state untouched

---
 weac/mixins.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index 129eefd..6998ad9 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -799,9 +799,12 @@ class SlabContactMixin:
 
     def calc_touchdown_system(self, L, a, cf, phi, ratio=1000):
         """Calculate touchdown"""
-        self.set_touchdown_attributes(L, a, cf, phi, ratio)
-        self.calc_touchdown_mode()
-        self.calc_touchdown_length()
+        # compute on a copy and adopt the result only if everything succeeded
+        new = copy(self)
+        new.set_touchdown_attributes(L, a, cf, phi, ratio)
+        new.calc_touchdown_mode()
+        new.calc_touchdown_length()
+        vars(self).update(vars(new))
 
 
 class SolutionMixin:
-- 
2.43.0


From 2fe58ecb00b9cd505e5ac4d2540e458e0cd7ebe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:56 +0000
Subject: [PATCH 05/23] fix: give Inverse the touchdown methods that
 calc_segments calls

---
 weac/inverse.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/weac/inverse.py b/weac/inverse.py
index 3542c3c..40ccd5f 100644
--- a/weac/inverse.py
+++ b/weac/inverse.py
@@ -3,14 +3,15 @@
 
 # Project imports
 from weac.mixins import FieldQuantitiesMixin
+from weac.mixins import SlabContactMixin
 from weac.mixins import SolutionMixin
 from weac.mixins import AnalysisMixin
 from weac.mixins import OutputMixin
 from weac.eigensystem import Eigensystem
 
 
-class Inverse(FieldQuantitiesMixin, SolutionMixin, AnalysisMixin,
-              OutputMixin, Eigensystem):
+class Inverse(FieldQuantitiesMixin, SlabContactMixin, SolutionMixin,
+              AnalysisMixin, OutputMixin, Eigensystem):
     """
     Fit the elastic properties of the layers of a snowpack.
 
-- 
2.43.0


From c9f124a8dfc24b4bf6d3eb6bad6e624e4a9ed6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:45 +0000
Subject: [PATCH 06/23] fix: do not modify the caller's segment lists when
 adding the dummy segment

---
 weac/mixins.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index 6998ad9..9b12e9f 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -1138,15 +1138,15 @@ class SolutionMixin:
         # --- PREPROCESSING ---------------------------------------------------
 
         # Determine size of linear system of equations
-        nS = len(li)  # Number of beam segments
+        nS = nG = len(li)  # Number of (given) beam segments
 
         nDOF = 6  # Number of free constants per segment
 
         # Add dummy segment if only one segment provided
         if nS == 1:
-            li.append(0)
-            ki.append(True)
-            mi.append(0)
+            li = np.append(li, 0)
+            ki = np.append(ki, True)
+            mi = np.append(mi, 0)
             nS = 2
 
         # Assemble position vector
@@ -1240,7 +1240,8 @@ class SolutionMixin:
         # Solve z0 = zh0*C + zp0 = rhs for constants, i.e. zh0*C = rhs - zp0
         C = np.linalg.solve(zh0, rhs - zp0)
         # Sort (nDOF = 6) constants for each segment into columns of a matrix
-        return C.reshape([-1, nDOF]).T
+        # (without the constants of a dummy segment)
+        return C.reshape([-1, nDOF]).T[:, :nG]
 
 
 class AnalysisMixin:
-- 
2.43.0


From 337aaee9721e3e73d486d06b42f77aa16f182bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:05 +0000
Subject: [PATCH 07/23] fix: include the surface shear load in the free-segment
 rotation of layered slabs

---
 weac/eigensystem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/weac/eigensystem.py b/weac/eigensystem.py
index e94a682..62293fd 100644
--- a/weac/eigensystem.py
+++ b/weac/eigensystem.py
@@ -579,7 +579,8 @@ class Eigensystem:
                 [-A11*(qn + pn)*x**4/(24*K0)],
                 [-A11*(qn + pn)*x**3/(6*K0)],
                 [A11*(qn + pn)*x**3/(6*K0)
-                 + ((zs - B11/A11)*qt - h*pt/2 - (qn + pn)*x)/kA55],
+                 + ((zs - B11/A11)*qt - (h/2 + B11/A11)*pt
+                    - (qn + pn)*x)/kA55],
                 [(qn + pn)*(A11*x**2/(2*K0) - 1/kA55)]])
 
         return zp
-- 
2.43.0


From 87f1986a1c00b82d53e2cce0d4605b0af7593474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:05 +0000
Subject: [PATCH 08/23] fix: weak-layer shear strain must have the sign of the
 shear stress (mode II Ginc was negative)

---
 weac/mixins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index 9b12e9f..51b5716 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -268,7 +268,7 @@ class FieldQuantitiesMixin:
         float
             Weak-layer shear strain gamma.
         """
-        return self.dw_dx(Z) / 2 - self.u(Z, z0=self.h / 2) / self.t
+        return self.u(Z, z0=self.h / 2) / self.t - self.dw_dx(Z) / 2
 
     def Gi(self, Ztip, unit="kJ/m^2"):
         """
-- 
2.43.0


From deea68c434755020b8bc153d043dc561a632fc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:16 +0000
Subject: [PATCH 09/23] fix: pass density and thickness on to the dampened
 fallback of the coupled criterion

---
 examples/criterion_check.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/examples/criterion_check.py b/examples/criterion_check.py
index 2630c75..113172b 100644
--- a/examples/criterion_check.py
+++ b/examples/criterion_check.py
@@ -440,6 +440,7 @@ def check_coupled_criterion_anticrack_nucleation(
                     scaling_factor=scaling_factor,
                     E=E,
                     order_of_magnitude=order_of_magnitude,
+                    density=density,
                     t=t,
                 )
 
@@ -480,6 +481,7 @@ def check_coupled_criterion_anticrack_nucleation(
                 E=E,
                 order_of_magnitude=order_of_magnitude,
                 density=density,
+                t=t,
             )
 
     else:
-- 
2.43.0


From 8b574e80091b9d947cd92efcb2e14d0d7c695b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:39 +0000
Subject: [PATCH 10/23] fix: creating the plots directory must not fail when
 another process creates it first

---
 weac/plot.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/weac/plot.py b/weac/plot.py
index 7c753d3..c2de159 100644
--- a/weac/plot.py
+++ b/weac/plot.py
@@ -621,7 +621,6 @@ def save_plot(name):
     # Save figure if on terminal
     else:
         # Make directory if not yet existing
-        if not os.path.isdir(os.path.join(os.getcwd(), 'plots')):
-            os.mkdir('plots')
+        os.makedirs('plots', exist_ok=True)
         plt.savefig('plots/' + filename, bbox_inches='tight')
     return
-- 
2.43.0


From 39970ef131ec9089bf6488a1d3f885f1bb9ed124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:39 +0000
Subject: [PATCH 11/23] fix: do not modify matplotlib's global colormap

---
 weac/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weac/plot.py b/weac/plot.py
index c2de159..aaa555d 100644
--- a/weac/plot.py
+++ b/weac/plot.py
@@ -359,7 +359,7 @@ def deformed(instance, xsl, xwl, z, phi, dz=2, scale=100,
                  'k', linewidth=1)
 
     # Colormap
-    cmap = plt.cm.RdBu_r
+    cmap = plt.cm.RdBu_r.copy()
     cmap.set_over(adjust_lightness(cmap(1.0), 0.9))
     cmap.set_under(adjust_lightness(cmap(0.0), 0.9))
 
-- 
2.43.0


From 86c8cfd9af4ddf73c0bd0ee64f9f35d0f84fd1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:49 +0000
Subject: [PATCH 12/23] fix: deformed() must draw on its own figure, not on
 whatever figure is open

---
 weac/plot.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/weac/plot.py b/weac/plot.py
index aaa555d..a94b588 100644
--- a/weac/plot.py
+++ b/weac/plot.py
@@ -245,7 +245,10 @@ def deformed(instance, xsl, xwl, z, phi, dz=2, scale=100,
     # Set dark figure background if requested
     if dark:
         plt.style.use('dark_background')
-        fig = plt.figure()
+
+    # Create figure
+    fig = plt.figure()
+    if dark:
         ax = plt.gca()
         fig.set_facecolor('#282c34')
         ax.set_facecolor('white')
-- 
2.43.0


From b7d0406b30aa9ad45d4dce539ba36d4579bddd2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:20 +0000
Subject: [PATCH 13/23] fix: failed plots must not leak figures or plot styles
 into later plots

---
 weac/plot.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/weac/plot.py b/weac/plot.py
index a94b588..8bdf145 100644
--- a/weac/plot.py
+++ b/weac/plot.py
@@ -5,6 +5,7 @@
 # Standard library imports
 import os
 import colorsys
+from functools import wraps
 
 # Third party imports
 import matplotlib.colors as mc
@@ -47,6 +48,21 @@ def set_plotstyles():
 # === CONVENIENCE FUNCTIONS ===================================================
 
 
+def cleanup_figures(plot):
+    """Close new figures and reset plot styles even if plotting fails."""
+    @wraps(plot)
+    def wrapper(*args, **kwargs):
+        known = plt.get_fignums()
+        try:
+            return plot(*args, **kwargs)
+        finally:
+            for num in plt.get_fignums():
+                if num not in known:
+                    plt.close(num)
+            plt.rcdefaults()
+    return wrapper
+
+
 class MidpointNormalize(mc.Normalize):
     """Colormap normalization to a specified midpoint. Default is 0."""
 
@@ -144,6 +160,7 @@ def adjust_lightness(color, amount=0.5):
 # === PLOT SLAB PROFILE =======================================================
 
 
+@cleanup_figures
 def slab_profile(instance):
     """Create bar chart of slab profile."""
     # Plot Setup
@@ -188,6 +205,7 @@ def slab_profile(instance):
 # === DEFORMATION CONTOUR PLOT ================================================
 
 
+@cleanup_figures
 def deformed(instance, xsl, xwl, z, phi, dz=2, scale=100,
              window=np.inf, pad=2, levels=300, aspect=2,
              field='principal', normalize=True, dark=False,
@@ -405,6 +423,7 @@ def deformed(instance, xsl, xwl, z, phi, dz=2, scale=100,
 # === BASE PLOT FUNCTION ======================================================
 
 
+@cleanup_figures
 def plot_data(
         name, ax1data, ax1label,
         ax2data=None, ax2label=None,
-- 
2.43.0


From 0751dd5b9a1d7e6271d0729cb6129f40d2d2ccf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:13 +0000
Subject: [PATCH 14/23] fix: lever arm of the wedge cut off at a vertical face
 is tan(phi)/2, not tan(phi/2)

---
 weac/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weac/tools.py b/weac/tools.py
index 1092959..7ef33f4 100644
--- a/weac/tools.py
+++ b/weac/tools.py
@@ -158,7 +158,7 @@ def calc_vertical_bc_center_of_gravity(slab, phi):
         # Center of gravity in vertical direction
         zs = sum(zsi * rho * Ai) / sum(rho * Ai)
         # Center of gravity in horizontal direction
-        xs = (H / 2 - zs) * np.tan(phi / 2)
+        xs = (H / 2 - zs) * np.tan(phi) / 2
         # Weight of added or cut off slab segments (t)
         w = sum(Ai * rho)
 
-- 
2.43.0


From 754996b45dffe919e6f5e0045586b3baabf927ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:09 +0000
Subject: [PATCH 15/23] fix: adopt the touchdown state only when the whole
 segmentation succeeded

---
 weac/mixins.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index 51b5716..ee1281a 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -1027,8 +1027,9 @@ class SolutionMixin:
 
         _ = kwargs  # Unused arguments
 
-        # Precompute touchdown properties
-        self.calc_touchdown_system(L=L, a=a, cf=cf, phi=phi, ratio=ratio)
+        # Precompute touchdown properties on a copy (adopted at the end)
+        new = copy(self)
+        new.calc_touchdown_system(L=L, a=a, cf=cf, phi=phi, ratio=ratio)
 
         # Assemble list defining the segments
         if self.system == "skiers":
@@ -1037,12 +1038,12 @@ class SolutionMixin:
             ki = np.array(ki)  # Crack
             k0 = np.array(k0)  # No crack
         elif self.system == "pst-":
-            li = np.array([L - self.a, self.td])  # Segment lengths
+            li = np.array([L - new.a, new.td])  # Segment lengths
             mi = np.array([0])  # Skier weights
             ki = np.array([True, False])  # Crack
             k0 = np.array([True, True])  # No crack
         elif self.system == "-pst":
-            li = np.array([self.td, L - self.a])  # Segment lengths
+            li = np.array([new.td, L - new.a])  # Segment lengths
             mi = np.array([0])  # Skier weights
             ki = np.array([False, True])  # Crack
             k0 = np.array([True, True])  # No crack
@@ -1057,8 +1058,8 @@ class SolutionMixin:
             ki = np.array([False, True])  # Crack
             k0 = np.array([True, True])  # No crack
         elif self.system == "skier":
-            lb = (L - self.a) / 2  # Half bedded length
-            lf = self.a / 2  # Half free length
+            lb = (L - new.a) / 2  # Half bedded length
+            lf = new.a / 2  # Half free length
             li = np.array([lb, lf, lf, lb])  # Segment lengths
             mi = np.array([0, m, 0])  # Skier weights
             ki = np.array([True, False, False, True])  # Crack
@@ -1072,6 +1073,9 @@ class SolutionMixin:
             "crack": {"li": li, "mi": mi, "ki": ki},
             "both": {"li": li, "mi": mi, "ki": ki, "k0": k0},
         }
+        # Adopt touchdown properties now that everything succeeded
+        vars(self).update(vars(new))
+
         return segments
 
     def assemble_and_solve(self, phi, li, mi, ki):
-- 
2.43.0


From 5e9ddac27af3081c0b07bfcc0a59876efde6ed47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:19 +0000
Subject: [PATCH 16/23] revert "fix: pass density and thickness on to the
 dampened fallback": examples are off limits

---
 examples/criterion_check.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/examples/criterion_check.py b/examples/criterion_check.py
index 113172b..2630c75 100644
--- a/examples/criterion_check.py
+++ b/examples/criterion_check.py
@@ -440,7 +440,6 @@ def check_coupled_criterion_anticrack_nucleation(
                     scaling_factor=scaling_factor,
                     E=E,
                     order_of_magnitude=order_of_magnitude,
-                    density=density,
                     t=t,
                 )
 
@@ -481,7 +480,6 @@ def check_coupled_criterion_anticrack_nucleation(
                 E=E,
                 order_of_magnitude=order_of_magnitude,
                 density=density,
-                t=t,
             )
 
     else:
-- 
2.43.0


From 90d0059d4917aa8442ae4cfd06f1a477d94f569c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:49 +0000
Subject: [PATCH 17/23] fix: FEA comparison plots have no segments to mark,
 they always failed

---
 weac/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weac/plot.py b/weac/plot.py
index 8bdf145..195bdc4 100644
--- a/weac/plot.py
+++ b/weac/plot.py
@@ -610,7 +610,7 @@ def fea_disp(instance, x, z, fea):
     ]
     plot_data(
         ax1label=r'Displacements (mm)', ax1data=data, name='fea_disp',
-        labelpos=-50)
+        labelpos=-50, vlines=False)
 
 
 def fea_stress(instance, xb, zb, fea):
@@ -622,7 +622,7 @@ def fea_stress(instance, xb, zb, fea):
         [xb/10, instance.sig(zb, unit='kPa'), r'$\sigma$']
     ]
     plot_data(ax1label=r'Stress (kPa)', ax1data=data, name='fea_stress',
-              labelpos=-50)
+              labelpos=-50, vlines=False)
 
 
 # === SAVE FUNCTION ===========================================================
-- 
2.43.0


From fcbb52545670421eb6e50ef37ca774ba9c42cb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:20 +0000
Subject: [PATCH 18/23] fix: plotting a field that is zero everywhere must not
 fail

---
 weac/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weac/plot.py b/weac/plot.py
index 195bdc4..e1b2b9e 100644
--- a/weac/plot.py
+++ b/weac/plot.py
@@ -357,7 +357,7 @@ def deformed(instance, xsl, xwl, z, phi, dz=2, scale=100,
 
     # Normalize colormap
     absmax = np.nanmax(np.abs([slab.min(), slab.max(), weak.min(), weak.max()]))
-    clim = np.round(absmax, significant_digits(absmax))
+    clim = np.round(absmax, significant_digits(absmax)) if absmax > 0 else 1
     levels = np.linspace(-clim, clim, num=levels+1, endpoint=True)
     # nanmax = np.nanmax([slab.max(), weak.max()])
     # nanmin = np.nanmin([slab.min(), weak.min()])
-- 
2.43.0


From 5f6ec233cf16006aef38454b1833c29f2601c558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:01 +0000
Subject: [PATCH 19/23] fix: close the plot's own figure, which the front end
 may have closed already, instead of the current one

---
 weac/plot.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/weac/plot.py b/weac/plot.py
index e1b2b9e..78d730b 100644
--- a/weac/plot.py
+++ b/weac/plot.py
@@ -200,7 +200,7 @@ def slab_profile(instance):
     plt.rcdefaults()
 
     # Clear Canvas
-    plt.close()
+    plt.close(fig)
 
 # === DEFORMATION CONTOUR PLOT ================================================
 
@@ -414,7 +414,7 @@ def deformed(instance, xsl, xwl, z, phi, dz=2, scale=100,
     save_plot(name=filename)
 
     # Clear Canvas
-    plt.close()
+    plt.close(fig)
 
     # Reset plot styles
     plt.rcdefaults()
@@ -519,7 +519,7 @@ def plot_data(
     save_plot(name)
 
     # Clear canvas
-    plt.close()
+    plt.close(fig)
 
     # Reset plot styles
     plt.rcdefaults()
-- 
2.43.0


From 0dfb233c3d33b7a34c6df950cf42196f937162f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:30 +0000
Subject: [PATCH 20/23] fix: processes plotting under the same name must not
 mix their images

---
 weac/plot.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/weac/plot.py b/weac/plot.py
index 78d730b..090113b 100644
--- a/weac/plot.py
+++ b/weac/plot.py
@@ -644,5 +644,14 @@ def save_plot(name):
     else:
         # Make directory if not yet existing
         os.makedirs('plots', exist_ok=True)
-        plt.savefig('plots/' + filename, bbox_inches='tight')
+        # Write to a file of its own first and move the complete image into
+        # place, other processes may be writing the same plot
+        path = os.path.join('plots', filename)
+        temp = f'{path}.{os.getpid()}.tmp'
+        try:
+            plt.savefig(temp, format='png', bbox_inches='tight')
+            os.replace(temp, path)
+        finally:
+            if os.path.exists(temp):
+                os.remove(temp)
     return
-- 
2.43.0


From d4cd51818655b4ee709b78f3fdd0e8cfe25baf0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:54 +0000
Subject: [PATCH 21/23] fix: return rotations and slopes as arrays of their
 own, not as views of the solution

---
 weac/mixins.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index ee1281a..f48a204 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -61,7 +61,7 @@ class FieldQuantitiesMixin:
         float
             First derivative w' of the deflection of the slab.
         """
-        return Z[3, :]
+        return Z[3, :].copy()
 
     def psi(self, Z, unit="rad"):
         """
@@ -82,7 +82,7 @@ class FieldQuantitiesMixin:
         if unit in ["deg", "degree", "degrees"]:
             psi = np.rad2deg(Z[4, :])
         elif unit in ["rad", "radian", "radians"]:
-            psi = Z[4, :]
+            psi = Z[4, :].copy()
         return psi
 
     def dpsi_dx(self, Z):
@@ -100,7 +100,7 @@ class FieldQuantitiesMixin:
             First derivative psi' of the midplane rotation (radians/mm)
             of the slab.
         """
-        return Z[5, :]
+        return Z[5, :].copy()
 
     # pylint: enable=no-self-use
     def u(self, Z, z0, unit="mm"):
-- 
2.43.0


From 398bdeb700c0df8d8fe7723c1bf34427ed86cae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:49 +0000
Subject: [PATCH 22/23] fix: plots of solutions with few (supported) points
 failed while placing labels

---
 weac/plot.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/weac/plot.py b/weac/plot.py
index 090113b..3a2395c 100644
--- a/weac/plot.py
+++ b/weac/plot.py
@@ -492,8 +492,10 @@ def plot_data(
             # Line label
             x, y = x[~np.isnan(x)], y[~np.isnan(x)]
             if len(x) > 0:
-                xtx = (x[labelpos - 10*i - 1] + x[labelpos - 10*i])/2
-                ytx = (y[labelpos - 10*i - 1] + y[labelpos - 10*i])/2
+                # Stay within the data, there may be only few points
+                pos = max(1 - len(x), min(labelpos - 10*i, len(x) - 1))
+                xtx = (x[pos - 1] + x[pos])/2
+                ytx = (y[pos - 1] + y[pos])/2
                 ax1.text(xtx, ytx, label, color=line.get_color(),
                          **labelstyle)
 
-- 
2.43.0


From 69a63d07f4e73f308fb098fdbf9fde883d4a4219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:49 +0000
Subject: [PATCH 23/23] fix: touchdown_distance refused layers given as an
 array

---
 weac/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weac/tools.py b/weac/tools.py
index 7ef33f4..78ffc17 100644
--- a/weac/tools.py
+++ b/weac/tools.py
@@ -301,7 +301,7 @@ def touchdown_distance(
     # Check if layering is defined
     layers = (
         layers
-        if layers
+        if layers is not None and len(layers) > 0
         else [
             [240, 200],
         ]
-- 
2.43.0

