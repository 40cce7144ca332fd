From b343934617583a6e5b8d4d96a6502dd33e8013e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:48 +0000
Subject: [PATCH 01/37] fix: Lattice.bz_path accepts an int for ns, as
 documented

---
 legume/phc/lattice.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/legume/phc/lattice.py b/legume/phc/lattice.py
index 27ef912..0cbf7d4 100644
--- a/legume/phc/lattice.py
+++ b/legume/phc/lattice.py
@@ -132,6 +132,7 @@ class Lattice(object):
             A dictionary with the 'kpoints', 'labels',
             'indexes', 'k_indexes', and the 'angles' corresponding to the labels.      
         """
+        if np.ndim(ns) == 0: ns = [ns]
         if not isinstance(ns, list): ns = list(ns)
         npts = len(pts)
         if npts < 2:
-- 
2.43.0


From c914410e157ab9cd2520c2c8418d4f941d26befb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:34 +0000
Subject: [PATCH 02/37] fix: repr of an Ellipse raised NameError

---
 legume/phc/shapes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/legume/phc/shapes.py b/legume/phc/shapes.py
index aeb1b56..88a363f 100644
--- a/legume/phc/shapes.py
+++ b/legume/phc/shapes.py
@@ -141,7 +141,8 @@ class Ellipse(Shape):
         super().__init__(eps=eps)
 
     def __repr__(self):
-        return f"Ellipse(eps = {eps:.2f}, x = {x:.4f}, y = {y:.4f}, rx = {rx:.4f},ry = {ry:.4f}, phi = {phi:.4f}, )"
+        return "Ellipse(eps = %.2f, x = %.4f, y = %.4f, rx = %.4f, ry = %.4f, phi = %.4f)" % \
+               (self.eps, self.x_cent, self.y_cent, self.rx, self.ry, self.phi)
 
     def compute_ft(self, gvec):
         (gx, gy) = self._parse_ft_gvec(gvec)
-- 
2.43.0


From a9fff34826d87d58cd5adee5f34e6145e5868a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:34 +0000
Subject: [PATCH 03/37] fix: a rotated Ellipse stays centred at (x_cent,
 y_cent)

---
 legume/phc/shapes.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/legume/phc/shapes.py b/legume/phc/shapes.py
index 88a363f..6e5f18b 100644
--- a/legume/phc/shapes.py
+++ b/legume/phc/shapes.py
@@ -155,16 +155,17 @@ class Ellipse(Shape):
             np.abs(np.square(g1y * self.ry)))
         gabs += 1e-10  # To avoid numerical instability at zero
 
-        ft = bd.exp(-1j*g1x*self.x_cent - 1j*g1y*self.y_cent)*self.rx*self.ry* \
+        ft = bd.exp(-1j*gx*self.x_cent - 1j*gy*self.y_cent)*self.rx*self.ry* \
                             2*np.pi/gabs*bd.bessel1(gabs)
 
         return ft
 
     def is_inside(self, x, y):
-        x1 = x * bd.cos(self.phi) + y * bd.sin(self.phi)
-        y1 = -x * bd.sin(self.phi) + y * bd.cos(self.phi)
-        return (np.square((x1 - self.x_cent) / self.rx) + np.square(
-            (y1 - self.y_cent) / self.ry) <= 1)
+        x1 = (x - self.x_cent) * bd.cos(self.phi) + \
+                (y - self.y_cent) * bd.sin(self.phi)
+        y1 = -(x - self.x_cent) * bd.sin(self.phi) + \
+                (y - self.y_cent) * bd.cos(self.phi)
+        return (np.square(x1 / self.rx) + np.square(y1 / self.ry) <= 1)
 
 
 class Poly(Shape):
-- 
2.43.0


From 6fc789129cc6e9c36338790619062e439e269cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:27 +0000
Subject: [PATCH 04/37] fix: Lattice.xy_grid accepts a number for periods and
 spans lattice vectors with negative components

---
 legume/phc/lattice.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/legume/phc/lattice.py b/legume/phc/lattice.py
index 0cbf7d4..73f2727 100644
--- a/legume/phc/lattice.py
+++ b/legume/phc/lattice.py
@@ -90,18 +90,18 @@ class Lattice(object):
         np.ndarray
             Two arrays defining a linear grid in `x` and `y`.
         """
-        if periods == None:
+        if periods is None:
             if self.type == 'square' or self.type == 'rectangular':
                 periods = [1, 1]
             else:
                 periods = [2, 2]
-        elif np.array(periods).shape == 1:
-            periods = periods[0] * np.ones((2, ))
+        elif np.size(periods) == 1:
+            periods = np.ravel(periods)[0] * np.ones((2, ))
 
-        ymax = np.abs(max([self.a1[1], self.a2[1]])) * periods[1] / 2
+        ymax = max([np.abs(self.a1[1]), np.abs(self.a2[1])]) * periods[1] / 2
         ymin = -ymax
 
-        xmax = np.abs(max([self.a1[0], self.a2[0]])) * periods[0] / 2
+        xmax = max([np.abs(self.a1[0]), np.abs(self.a2[0])]) * periods[0] / 2
         xmin = -xmax
 
         return (np.linspace(xmin, xmax, Nx), np.linspace(ymin, ymax, Ny))
-- 
2.43.0


From 87fc64dc7c4467b834ee2c14d199dbe3d0efc505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:11 +0000
Subject: [PATCH 05/37] fix: get_eps missed periodic images of shapes in skewed
 lattices

---
 legume/phc/layer.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/legume/phc/layer.py b/legume/phc/layer.py
index af8843f..d980ff8 100644
--- a/legume/phc/layer.py
+++ b/legume/phc/layer.py
@@ -192,11 +192,12 @@ class ShapesLayer(Layer):
         a1 = self.lattice.a1
         a2 = self.lattice.a2
 
-        a_p = min([np.linalg.norm(a1), np.linalg.norm(a2)])
-        nmax = np.int_(
-            np.sqrt(
-                np.square(np.max(abs(xmesh))) + np.square(np.max(abs(ymesh))))
-            / a_p) + 1
+        # Lattice coordinates of the points set how many periods are needed
+        b1 = self.lattice.b1
+        b2 = self.lattice.b2
+        s1 = np.max(abs(xmesh * b1[0] + ymesh * b1[1])) / 2 / np.pi
+        s2 = np.max(abs(xmesh * b2[0] + ymesh * b2[1])) / 2 / np.pi
+        nmax = np.int_(max([s1, s2])) + 1
 
         for shape in self.shapes:
             for n1 in range(-nmax, nmax + 1):
-- 
2.43.0


From c76f0b182c4f2d2d4ad04078c27f77416c19e531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:33 +0000
Subject: [PATCH 06/37] fix: exciton potential of a layer with several shapes
 is normalised and shifted once

---
 legume/phc/layer.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/legume/phc/layer.py b/legume/phc/layer.py
index d980ff8..85aef12 100644
--- a/legume/phc/layer.py
+++ b/legume/phc/layer.py
@@ -166,13 +166,13 @@ class ShapesLayer(Layer):
             # inside the shape and zero outside
             FT = FT + Vmax * shape.compute_ft(gvec)
 
-            FT = FT / self.lattice.ec_area
-            # If the potential is negative we must shift all energies
+        FT = FT / self.lattice.ec_area
+        # If the potential is negative we must shift all energies
 
-            ind0 = bd.abs(gvec[0, :]) + bd.abs(gvec[1, :]) < 1e-10
-            # If the first element corresponding to V(0) is negative we shift the energies by Vmax
-            if FT[ind0][0] < 0:
-                FT[ind0] += bd.abs(Vmax)
+        ind0 = bd.abs(gvec[0, :]) + bd.abs(gvec[1, :]) < 1e-10
+        # If the first element corresponding to V(0) is negative we shift the energies by Vmax
+        if FT[ind0][0] < 0:
+            FT[ind0] += bd.abs(Vmax)
         ### k near zero could be explicitly set to the potential average value, to be done!
 
         return FT
-- 
2.43.0


From 4e50a652adae721ded0885320de6bab22ca561fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:42 +0000
Subject: [PATCH 07/37] fix: circular truncation built the permittivity and
 potential matrices of the mirrored structure

---
 legume/exc/exc.py | 16 ++++++++--------
 legume/gme/gme.py | 16 ++++++++--------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/legume/exc/exc.py b/legume/exc/exc.py
index 9530376..e0e2882 100644
--- a/legume/exc/exc.py
+++ b/legume/exc/exc.py
@@ -242,10 +242,10 @@ class ExcitonSchroedEq(object):
          assuming abs-initialized reciprocal lattice
         """
 
-        ggridx = (self.gvec[0, :][np.newaxis, :] -
-                  self.gvec[0, :][:, np.newaxis]).ravel()
-        ggridy = (self.gvec[1, :][np.newaxis, :] -
-                  self.gvec[1, :][:, np.newaxis]).ravel()
+        ggridx = (self.gvec[0, :][:, np.newaxis] -
+                  self.gvec[0, :][np.newaxis, :]).ravel()
+        ggridy = (self.gvec[1, :][:, np.newaxis] -
+                  self.gvec[1, :][np.newaxis, :]).ravel()
         """
         Old code calculating all redundant delta_g = Gi-Gj
         pot_ft = self.layer.compute_exc_ft(np.vstack((ggridx, ggridy)),
@@ -256,10 +256,10 @@ class ExcitonSchroedEq(object):
         self.G1 = bd.vstack((ggridx, ggridy))
 
         # indexes corresponding to ggdrix,ggridy
-        indgridx = (self.inds1[np.newaxis, :] -
-                    self.inds1[:, np.newaxis]).ravel().astype(int)
-        indgridy = (self.inds2[np.newaxis, :] -
-                    self.inds2[:, np.newaxis]).ravel().astype(int)
+        indgridx = (self.inds1[:, np.newaxis] -
+                    self.inds1[np.newaxis, :]).ravel().astype(int)
+        indgridy = (self.inds2[:, np.newaxis] -
+                    self.inds2[np.newaxis, :]).ravel().astype(int)
 
         # We find the list of unique (indgridx,indgridy)
         indgrid = bd.array([indgridx, indgridy])
diff --git a/legume/gme/gme.py b/legume/gme/gme.py
index ef2ea8d..09f36e5 100644
--- a/legume/gme/gme.py
+++ b/legume/gme/gme.py
@@ -447,19 +447,19 @@ class GuidedModeExp(object):
 
         # x and y components of delta_G = G1-G2,
         #the dimension of ggrdix and ggrdiy is [Ng^2]
-        ggridx = (self.gvec[0, :][np.newaxis, :] -
-                  self.gvec[0, :][:, np.newaxis]).ravel()
-        ggridy = (self.gvec[1, :][np.newaxis, :] -
-                  self.gvec[1, :][:, np.newaxis]).ravel()
+        ggridx = (self.gvec[0, :][:, np.newaxis] -
+                  self.gvec[0, :][np.newaxis, :]).ravel()
+        ggridy = (self.gvec[1, :][:, np.newaxis] -
+                  self.gvec[1, :][np.newaxis, :]).ravel()
 
         # The dimension of G1 is [2,Ng^2]
         self.G1 = bd.vstack((ggridx, ggridy))
 
         # indexes corresponding to ggdrix,ggridy
-        indgridx = (self.inds1[np.newaxis, :] -
-                    self.inds1[:, np.newaxis]).ravel().astype(int)
-        indgridy = (self.inds2[np.newaxis, :] -
-                    self.inds2[:, np.newaxis]).ravel().astype(int)
+        indgridx = (self.inds1[:, np.newaxis] -
+                    self.inds1[np.newaxis, :]).ravel().astype(int)
+        indgridy = (self.inds2[:, np.newaxis] -
+                    self.inds2[np.newaxis, :]).ravel().astype(int)
 
         # We find the list of unique (indgridx,indgridy)
         # This is the bottleneck in terms of timing, we should find
-- 
2.43.0


From 9305301696f43443982c4094329f8b35dd322190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:34 +0000
Subject: [PATCH 08/37] fix: circular truncation missed reciprocal vectors of
 lattices with angles below 30 degrees

---
 legume/exc/exc.py | 7 +++----
 legume/gme/gme.py | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/legume/exc/exc.py b/legume/exc/exc.py
index e0e2882..1f272bb 100644
--- a/legume/exc/exc.py
+++ b/legume/exc/exc.py
@@ -172,10 +172,9 @@ class ExcitonSchroedEq(object):
         """
         Initialize reciprocal lattice vectors with circular truncation.
         """
-        n1max = np.int_(
-            (4 * np.pi * self.gmax) / np.linalg.norm(self.phc.lattice.b1))
-        n2max = np.int_(
-            (4 * np.pi * self.gmax) / np.linalg.norm(self.phc.lattice.b2))
+        # |n_i| <= gmax*|a_i| for every G-vector with |G| <= 2*pi*gmax
+        n1max = np.int_(self.gmax * np.linalg.norm(self.phc.lattice.a1)) + 1
+        n2max = np.int_(self.gmax * np.linalg.norm(self.phc.lattice.a2)) + 1
 
         inds1 = np.tile(np.arange(-n1max, n1max + 1), (2*n2max + 1, 1))  \
                          .reshape((2*n2max + 1)*(2*n1max + 1), order='F')
diff --git a/legume/gme/gme.py b/legume/gme/gme.py
index 09f36e5..6e7d906 100644
--- a/legume/gme/gme.py
+++ b/legume/gme/gme.py
@@ -212,10 +212,9 @@ class GuidedModeExp(object):
         """
         Initialize reciprocal lattice vectors with circular truncation.
         """
-        n1max = np.int_(
-            (4 * np.pi * self.gmax) / np.linalg.norm(self.phc.lattice.b1))
-        n2max = np.int_(
-            (4 * np.pi * self.gmax) / np.linalg.norm(self.phc.lattice.b2))
+        # |n_i| <= gmax*|a_i| for every G-vector with |G| <= 2*pi*gmax
+        n1max = np.int_(self.gmax * np.linalg.norm(self.phc.lattice.a1)) + 1
+        n2max = np.int_(self.gmax * np.linalg.norm(self.phc.lattice.a2)) + 1
 
         inds1 = np.tile(np.arange(-n1max, n1max + 1), (2*n2max + 1, 1))  \
                          .reshape((2*n2max + 1)*(2*n1max + 1), order='F')
-- 
2.43.0


From faa6c189bff6271a492be7d5ee1c5b6a30191426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:46 +0000
Subject: [PATCH 09/37] fix: toeplitz_block dropped imaginary parts when only
 the first row is real

---
 legume/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/legume/utils.py b/legume/utils.py
index 05c1c53..e8eccfc 100644
--- a/legume/utils.py
+++ b/legume/utils.py
@@ -147,7 +147,7 @@ def toeplitz_block(n, T1, T2):
     """
     ntot = T1.shape[0]
     p = int(ntot / n)  # Linear size of each block
-    Tmat = np.zeros((ntot, ntot), dtype=T1.dtype)
+    Tmat = np.zeros((ntot, ntot), dtype=np.result_type(T1, T2))
     for ind1 in range(n):
         for ind2 in range(ind1, n):
             toep1 = T1[(ind2 - ind1) * p:(ind2 - ind1 + 1) * p]
-- 
2.43.0


From 919b1aec3fab2e3b4680899b0e62fae74f40a1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:46 +0000
Subject: [PATCH 10/37] fix: patterned layers were taken as homogeneous with
 'tbt' when only mixed-sign harmonics are non-zero

---
 legume/gme/gme.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/legume/gme/gme.py b/legume/gme/gme.py
index 6e7d906..d9f5a58 100644
--- a/legume/gme/gme.py
+++ b/legume/gme/gme.py
@@ -652,11 +652,12 @@ class GuidedModeExp(object):
             self.eps_inv_mat = []
 
             if self.truncate_g == 'tbt':
+                self.hom_layer = []
                 for it, T1 in enumerate(self.T1):
-                    self.hom_layer = []
                     # For now we just use the numpy inversion. Later on we could
                     # implement the Toeplitz-Block-Toeplitz inversion (faster)
-                    if bd.sum(bd.abs(T1[1:])) < 1e-10 or only_gmodes:
+                    if (bd.sum(bd.abs(T1[1:])) < 1e-10 and bd.sum(
+                            bd.abs(self.T2[it][1:])) < 1e-10) or only_gmodes:
                         self.eps_inv_mat.append(
                             bd.eye(T1.size, T1.size) / T1[0])
                         self.hom_layer.append(True)
-- 
2.43.0


From ac482102e5c7570557032fec6eb47b534086ed28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:17 +0000
Subject: [PATCH 11/37] fix: D and E fields of the plane-wave expansion are the
 curl of H (factor |k+G| was missing)

---
 legume/pwe/pwe.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/legume/pwe/pwe.py b/legume/pwe/pwe.py
index ec9cf5a..05d21b0 100644
--- a/legume/pwe/pwe.py
+++ b/legume/pwe/pwe.py
@@ -292,14 +292,14 @@ class PlaneWaveExp(object):
 
         elif field.lower() == 'd' or field.lower() == 'e':
             if self.pol == 'te':
-                Dx_ft = 1j / omega * evec * qx
-                Dy_ft = 1j / omega * evec * qy
+                Dx_ft = gnorm / omega * evec * qx
+                Dy_ft = gnorm / omega * evec * qy
                 Dz_ft = bd.zeros(gnorm.shape)
 
             elif self.pol == 'tm':
                 Dx_ft = bd.zeros(gnorm.shape)
                 Dy_ft = bd.zeros(gnorm.shape)
-                Dz_ft = 1j / omega * evec
+                Dz_ft = -gnorm / omega * evec
 
             if field.lower() == 'd':
                 return (Dx_ft, Dy_ft, Dz_ft)
-- 
2.43.0


From 21dc168d7bb90dedafa3f5e878760477a929a397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:42 +0000
Subject: [PATCH 12/37] fix: GuidedModeExp.run_im before run raises the
 intended RuntimeError

---
 legume/gme/gme.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/legume/gme/gme.py b/legume/gme/gme.py
index d9f5a58..d985bf5 100644
--- a/legume/gme/gme.py
+++ b/legume/gme/gme.py
@@ -1194,10 +1194,10 @@ class GuidedModeExp(object):
         rad_coup = {'l_te': [], 'l_tm': [], 'u_te': [], 'u_tm': []}
         rad_gvec = {'l': [], 'u': []}
 
-        minds = np.arange(0, self.numeig)
-
         if len(self.freqs) == 0:
             raise RuntimeError("Run the GME computation first!")
+
+        minds = np.arange(0, self.numeig)
         num_k = np.shape(self.freqs)[0]
         for kind in range(len(self.freqs)):
             prbd.update_prog(kind, num_k, self.verbose,
-- 
2.43.0


From 595cb657c4d17e97daa0c766828420c7c13cb1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:42 +0000
Subject: [PATCH 13/37] fix: a second GuidedModeExp.run used the basis indexes
 of the first in the symmetry separation

---
 legume/gme/gme.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/legume/gme/gme.py b/legume/gme/gme.py
index d985bf5..923d19f 100644
--- a/legume/gme/gme.py
+++ b/legume/gme/gme.py
@@ -875,6 +875,7 @@ class GuidedModeExp(object):
         self._kpoints = kpoints
 
         self.modes_numg = []
+        self.ind_modes = []
         self.N_basis = []
         self.gmode_include = []
 
-- 
2.43.0


From 736daf9901a4d523c26bd95ee76d356d06bfebf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:42 +0000
Subject: [PATCH 14/37] fix: kz_symmetry='both' mislabels modes when odd and
 even blocks differ in size

---
 legume/gme/gme.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/legume/gme/gme.py b/legume/gme/gme.py
index 923d19f..59836a0 100644
--- a/legume/gme/gme.py
+++ b/legume/gme/gme.py
@@ -1063,7 +1063,7 @@ class GuidedModeExp(object):
                     symm1 = bd.concatenate((np.full(self.even_counts[ik],
                                                     1,
                                                     dtype=int),
-                                            np.full(self.even_counts[ik],
+                                            np.full(self.odd_counts[ik],
                                                     -1,
                                                     dtype=int)))
                     freq1 = bd.concatenate((freq1_even, freq1_odd))
-- 
2.43.0


From 128064ae6c5926f9bf7a460607e1a13cedd33204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:42 +0000
Subject: [PATCH 15/37] fix: symmetry separation failed or used wrong parities
 when a requested guided mode is not found

---
 legume/gme/gme.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/legume/gme/gme.py b/legume/gme/gme.py
index 59836a0..562d296 100644
--- a/legume/gme/gme.py
+++ b/legume/gme/gme.py
@@ -1261,7 +1261,7 @@ class GuidedModeExp(object):
         blocks = []  #
         blocks_w = []  #eigenvectors
 
-        for ind_alpha, alpha in enumerate(self.gmode_inds):
+        for ind_alpha, alpha in enumerate(self.gmode_include[ik]):
             dim = self.modes_numg[ik][ind_alpha]
 
             #Block of symmetry operator corresponding to (k,ind_alpha)
@@ -1399,7 +1399,7 @@ class GuidedModeExp(object):
         #dim_final = np.shape(mat)[0]
         dim_final = 0
 
-        for ind_alpha, alpha in enumerate(self.gmode_inds):
+        for ind_alpha, alpha in enumerate(self.gmode_include[ik]):
             dim = self.modes_numg[ik][ind_alpha]
             # These are for creating sparse matrix
             # check_g to avoid double counting on reflected g
-- 
2.43.0


From d079b3d48a2e28d675d62c3b04ba374a947f4e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:01 +0000
Subject: [PATCH 16/37] fix: a second GuidedModeExp.run with a different
 only_gmodes kept the permittivity matrices of the first

---
 legume/gme/gme.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/legume/gme/gme.py b/legume/gme/gme.py
index 562d296..1a97791 100644
--- a/legume/gme/gme.py
+++ b/legume/gme/gme.py
@@ -645,9 +645,10 @@ class GuidedModeExp(object):
         """
         Construct the inverse FT matrices for the permittivity in each layer
         """
-        try:
-            self.eps_inv_mat
-        except AttributeError:
+        # Matrices of a previous run are kept unless 'only_gmodes' has changed
+        if not hasattr(self, 'eps_inv_mat') or \
+                self._eps_inv_only_gmodes != only_gmodes:
+            self._eps_inv_only_gmodes = only_gmodes
             # List of inverse permittivity matrices for every layer
             self.eps_inv_mat = []
 
-- 
2.43.0


From 6feceb728dc79cea74013fc5dd29ca4da7f9ba61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:41 +0000
Subject: [PATCH 17/37] fix: normalization_coeff and rad_modes take 'te'/'TE'
 alike, as documented

---
 legume/gme/slab_modes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/legume/gme/slab_modes.py b/legume/gme/slab_modes.py
index 0a2afc0..2ed4164 100644
--- a/legume/gme/slab_modes.py
+++ b/legume/gme/slab_modes.py
@@ -437,7 +437,7 @@ def normalization_coeff(omega,
         chi_array = chi(omega, g, eps_array)
     As = ABref[:, 0].ravel()
     Bs = ABref[:, 1].ravel()
-    if pol == 'TM':
+    if pol.lower() == 'tm':
         term1 = (bd.abs(Bs[0])**
                  2) * J_alpha(chi_array[0] - bd.conj(chi_array[0]))
         term2 = (bd.abs(As[-1])**2) * \
@@ -448,7 +448,7 @@ def normalization_coeff(omega,
                 (bd.conj(As[1:-1]) * Bs[1:-1] + As[1:-1] * bd.conj(Bs[1:-1])) *
                 I_alpha(-chi_array[1:-1]-bd.conj(chi_array[1:-1]),d_array)  )
         return term1 + term2 + bd.sum(term3)
-    elif pol == 'TE':
+    elif pol.lower() == 'te':
         term1 = (bd.abs(chi_array[0])**2 + g**2) * \
             (bd.abs(Bs[0])**2) * J_alpha(chi_array[0]-bd.conj(chi_array[0]))
         term2 = (bd.abs(chi_array[-1])**2 + g**2) * \
@@ -512,7 +512,7 @@ def rad_modes(omega: float,
 
         # Normalize
         coeffs = coeffs / coeffs[1, -1]
-        if pol == 'te':
+        if pol.lower() == 'te':
             c_ind = [0, -1]
             coeffs = coeffs / bd.sqrt(eps_array[c_ind[clad]]) / omega
         # Assign correctly based on which cladding the modes radiate to
-- 
2.43.0


From 88c993e43e69584002a4860b30d75025720246cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:16 +0000
Subject: [PATCH 18/37] fix: GuidedModeExp.run without losses kept the losses
 of the previous run

---
 legume/gme/gme.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/legume/gme/gme.py b/legume/gme/gme.py
index 1a97791..6f8cf1b 100644
--- a/legume/gme/gme.py
+++ b/legume/gme/gme.py
@@ -875,6 +875,12 @@ class GuidedModeExp(object):
         # Bloch momenta over which band structure is simulated
         self._kpoints = kpoints
 
+        # Discard the losses of a previous run
+        self._freqs_im = []
+        self._unbalance_sp = []
+        self._rad_coup = {}
+        self._rad_gvec = {}
+
         self.modes_numg = []
         self.ind_modes = []
         self.N_basis = []
-- 
2.43.0


From e9180db81425355a7eebcefa5d871f27a38a4a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:18 +0000
Subject: [PATCH 19/37] fix: ExcitonSchroedEq.get_pot_xy failed with the 'tbt'
 truncation

---
 legume/exc/exc.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/legume/exc/exc.py b/legume/exc/exc.py
index 1f272bb..849f2be 100644
--- a/legume/exc/exc.py
+++ b/legume/exc/exc.py
@@ -411,8 +411,7 @@ class ExcitonSchroedEq(object):
             ft_coeffs = bd.hstack(
                 (self.T1, self.T2, bd.conj(self.T1), bd.conj(self.T2)))
             gvec = bd.hstack((self.G1, self.G2, -self.G1, -self.G2))
-            #ft_coeffs[0] sincewe have only one layer
-            pot_r = ftinv(ft_coeffs[0], gvec, xgrid, ygrid)
+            pot_r = ftinv(ft_coeffs, gvec, xgrid, ygrid)
         elif self.truncate_g == "abs":
             ft_coeffs = self.T1_unique
             gvec = self.G1_unique
-- 
2.43.0


From e1cc947696a8a41a8b51f6000b9cc7f73b150b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:18 +0000
Subject: [PATCH 20/37] fix: results of plane-wave, exciton and polariton
 objects raised AttributeError before the first run

---
 legume/exc/exc.py | 5 +++++
 legume/pol/pol.py | 9 +++++++++
 legume/pwe/pwe.py | 5 +++++
 3 files changed, 19 insertions(+)

diff --git a/legume/exc/exc.py b/legume/exc/exc.py
index 849f2be..c43fd07 100644
--- a/legume/exc/exc.py
+++ b/legume/exc/exc.py
@@ -76,6 +76,11 @@ class ExcitonSchroedEq(object):
         self.osc_str = osc_str
         self.truncate_g = truncate_g
 
+        # Results are empty until the first run
+        self._eners = []
+        self._eigvecs = []
+        self._kpoints = []
+
         if osc_str is not None:
             if type(self.osc_str) == list:
                 self.osc_str = np.asarray(self.osc_str)
diff --git a/legume/pol/pol.py b/legume/pol/pol.py
index 9ef059f..438060a 100644
--- a/legume/pol/pol.py
+++ b/legume/pol/pol.py
@@ -29,6 +29,15 @@ class HopfieldPol(object):
 
         self.gme = GuidedModeExp(phc, gmax, truncate_g=truncate_g)
 
+        # Results are empty until the first run
+        self._eners = []
+        self._eners_im = []
+        self._eigvecs = []
+        self._fractions_ex = []
+        self._fractions_ph = []
+        self._kpoints = []
+        self._gvec = self.gme.gvec
+
         self.exc_list = []
 
         if len(phc.qws) == 0:
diff --git a/legume/pwe/pwe.py b/legume/pwe/pwe.py
index 05d21b0..f4eedc8 100644
--- a/legume/pwe/pwe.py
+++ b/legume/pwe/pwe.py
@@ -31,6 +31,11 @@ class PlaneWaveExp(object):
 
         self.eps_eff = eps_eff
 
+        # Results are empty until the first run
+        self._freqs = []
+        self._eigvecs = []
+        self._kpoints = []
+
         # Initialize the reciprocal lattice vectors and compute the eps FT
         self._init_reciprocal()
         self._compute_ft()
-- 
2.43.0


From 477d98d975a5516ab7866b6387a075404ea022ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:18 +0000
Subject: [PATCH 21/37] fix: Hopfield matrix took the anti-resonant D block of
 the last quantum well instead of their sum

---
 legume/pol/pol.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/legume/pol/pol.py b/legume/pol/pol.py
index 438060a..8f7c653 100644
--- a/legume/pol/pol.py
+++ b/legume/pol/pol.py
@@ -238,11 +238,13 @@ class HopfieldPol(object):
         diag_phot = diag_phot + 2 * bd.real(D_final_block)
 
         row_0 = bd.hstack(
-            (diag_phot, -1j * C_final_block, -2 * D, -1j * C_final_block))
+            (diag_phot, -1j * C_final_block, -2 * D_final_block,
+             -1j * C_final_block))
         row_1 = bd.hstack((1j * C_dagger_final_block, diag_exc,
                            -1j * C_dagger_final_block, diag_exc * 0.))
         row_2 = bd.hstack(
-            (2 * D, -1j * C_final_block, -diag_phot, -1j * C_final_block))
+            (2 * D_final_block, -1j * C_final_block, -diag_phot,
+             -1j * C_final_block))
         row_3 = bd.hstack((-1j * C_dagger_final_block, diag_exc * 0.,
                            1j * C_dagger_final_block, -diag_exc))
         M = bd.vstack((row_0, row_1, row_2, row_3))
-- 
2.43.0


From 15d65cde02585f4f4791bf09be1ab8a5aafb6c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:18 +0000
Subject: [PATCH 22/37] fix: HopfieldPol.run added kpoints to the option
 dictionaries of the caller

---
 legume/pol/pol.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/legume/pol/pol.py b/legume/pol/pol.py
index 8f7c653..6222ac6 100644
--- a/legume/pol/pol.py
+++ b/legume/pol/pol.py
@@ -299,8 +299,8 @@ class HopfieldPol(object):
         self._gvec = self.gme.gvec
 
         #Force the same kpoints for gme and exc solvers
-        gme_options['kpoints'] = self.kpoints
-        exc_options['kpoints'] = self.kpoints
+        gme_options = {**gme_options, 'kpoints': self.kpoints}
+        exc_options = {**exc_options, 'kpoints': self.kpoints}
 
         #Run gme
         self.gme.run(**gme_options)
-- 
2.43.0


From 34658cc7cc0a0db1cea455ef77a1b8932622037d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:55 +0000
Subject: [PATCH 23/37] fix: polariton energies depended on the arbitrary
 phases of the photonic modes (D block transposed, real part on the diagonal)

---
 legume/pol/pol.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/legume/pol/pol.py b/legume/pol/pol.py
index 6222ac6..4e6d656 100644
--- a/legume/pol/pol.py
+++ b/legume/pol/pol.py
@@ -194,7 +194,7 @@ class HopfieldPol(object):
         for n_1 in range(self.N_max):
             for n_2 in range(self.N_max):
                 D[n_1, n_2] = bd.sum(
-                    bd.conj(C[n_1, :]) * C[n_2, :] /
+                    C[n_1, :] * bd.conj(C[n_2, :]) /
                     bd.real(exc.eners[kind, :]))
 
         return C, D
@@ -235,7 +235,7 @@ class HopfieldPol(object):
 
         np.fill_diagonal(diag_exc, exc_el)
 
-        diag_phot = diag_phot + 2 * bd.real(D_final_block)
+        diag_phot = diag_phot + 2 * D_final_block
 
         row_0 = bd.hstack(
             (diag_phot, -1j * C_final_block, -2 * D_final_block,
-- 
2.43.0


From 3a165dee89ec5e8c917ec5a30cc4cb0bd1010f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:46 +0000
Subject: [PATCH 24/37] fix: Minimize.adam snapped the starting parameters of
 the caller to the bounds in place

---
 legume/minimize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/legume/minimize.py b/legume/minimize.py
index 7e0e1e1..944bd4e 100644
--- a/legume/minimize.py
+++ b/legume/minimize.py
@@ -131,8 +131,8 @@ class Minimize(object):
             if bounds:
                 lbs = np.array([b[0] for b in self.bounds])
                 ubs = np.array([b[1] for b in self.bounds])
-                self.params[self.params < lbs] = lbs[self.params < lbs]
-                self.params[self.params > ubs] = ubs[self.params > ubs]
+                # Do not modify in place: this could be the array of the caller
+                self.params = np.clip(self.params, lbs, ubs)
 
             if callback is not None:
                 callback(self)
-- 
2.43.0


From d8ea8c61778594bcf9d218d4b29a9d78dd859d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:46 +0000
Subject: [PATCH 25/37] fix: Minimize.lbfgs(pass_self=True) evaluated the
 initial objective without the instance

---
 legume/minimize.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/legume/minimize.py b/legume/minimize.py
index 944bd4e..e2750a1 100644
--- a/legume/minimize.py
+++ b/legume/minimize.py
@@ -199,6 +199,11 @@ class Minimize(object):
         self.t_store = time.time()
         self.of_list = []
 
+        if pass_self == True:
+            arglist = list(args)
+            arglist.append(self)
+            args = tuple(arglist)
+
         # Get initial of value
         of = self.objective(self.params, *args)
         self.of_list.append(self._get_value(of))
@@ -207,11 +212,6 @@ class Minimize(object):
             """Modify the objective function slightly to allow storing
             intermediate objective values without re-evaluating the function
             """
-            if pass_self == True:
-                arglist = list(args)
-                arglist.append(self)
-                args = tuple(arglist)
-
             out = value_and_grad(self.objective)(params, *args, **kwargs)
             self.of_last = self._get_value(out[0])
             return out
-- 
2.43.0


From b3452c9392ef1b916d0693f2d3d5bc0cad456824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:54 +0000
Subject: [PATCH 26/37] fix: from_freq_to_e(0) raised ZeroDivisionError before
 its own check of the lattice constant

---
 legume/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/legume/utils.py b/legume/utils.py
index e8eccfc..ff72646 100644
--- a/legume/utils.py
+++ b/legume/utils.py
@@ -267,11 +267,11 @@ def from_freq_to_e(a):
         conversion factor
 
     """
-    conv = cs.h_eV_Hz * cs.c / a
-
     if a <= 0:
         raise ValueError("Lattice constant should be strictly positive.")
 
+    conv = cs.h_eV_Hz * cs.c / a
+
     # Maybe we should implement a warning and not a simple print?
     if a < 5e-8 or a > 5e-6:
         warnings.warn(
-- 
2.43.0


From 2977c5bd2804393d046eb2347db4cf93264edf9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:54 +0000
Subject: [PATCH 27/37] fix: grad_num failed for steps that are not a Python
 float and returned zero for integer arguments

---
 legume/utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/legume/utils.py b/legume/utils.py
index ff72646..a8bcb7b 100644
--- a/legume/utils.py
+++ b/legume/utils.py
@@ -88,13 +88,14 @@ def grad_num(fn, arg, step_size=1e-7):
     gradient = np.zeros((N, ))
     f_old = fn(arg)
 
-    if type(step_size) == float:
+    if np.ndim(step_size) == 0:
         step = step_size * np.ones((N))
     else:
-        step = step_size.ravel()
+        step = np.ravel(step_size)
 
     for i in range(N):
-        arg_new = arg.flatten()
+        # Integer arguments would truncate the step
+        arg_new = arg.flatten() + 0.
         arg_new[i] += step[i]
         f_new_i = fn(arg_new.reshape(shape))
         gradient[i] = (f_new_i - f_old) / step[i]
-- 
2.43.0


From 21e14753435fa407f637667d7d3e1aff0b8c4752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:25 +0000
Subject: [PATCH 28/37] fix: gradient of interp was NaN for a single node and
 wrong (or an IndexError) outside of the nodes

---
 legume/primitives.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/legume/primitives.py b/legume/primitives.py
index aa750cb..fc67f76 100644
--- a/legume/primitives.py
+++ b/legume/primitives.py
@@ -240,11 +240,16 @@ def vjp_maker_interp(ans, x, xp, yp):
     """
 
     def vjp(g):
+        if xp.size == 1:
+            return np.sum(g, keepdims=True)
+
         dydyp = np.zeros((x.size, xp.size))
         ix = np.arange(x.size)
-        indx = np.searchsorted(xp, x[ix]) - 1
-        dydyp[ix, indx] = 1 - (x[ix] - xp[indx]) / (xp[indx + 1] - xp[indx])
-        dydyp[ix, indx + 1] = (x[ix] - xp[indx]) / (xp[indx + 1] - xp[indx])
+        # np.interp is constant outside of the range of xp
+        xc = np.clip(x, xp[0], xp[-1])
+        indx = np.clip(np.searchsorted(xp, xc) - 1, 0, xp.size - 2)
+        dydyp[ix, indx] = 1 - (xc[ix] - xp[indx]) / (xp[indx + 1] - xp[indx])
+        dydyp[ix, indx + 1] = (xc[ix] - xp[indx]) / (xp[indx + 1] - xp[indx])
         return np.dot(g, dydyp)
 
     return vjp
-- 
2.43.0


From cbc450fce840c4d644681a5316f0c2a49d6a7627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:25 +0000
Subject: [PATCH 29/37] fix: gradient of eig raised NameError (undefined
 helpers), so polariton energies could not be differentiated

---
 legume/primitives.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/legume/primitives.py b/legume/primitives.py
index fc67f76..1c25ac6 100644
--- a/legume/primitives.py
+++ b/legume/primitives.py
@@ -353,14 +353,14 @@ def vjp_maker_eig(ans, x):
 
     def vjp(g):
         ge, gu = g
-        ge = _matrix_diag(ge)
+        ge = np.diag(ge)
         f = 1 / (e[..., np.newaxis, :] - e[..., :, np.newaxis] + 1.e-20)
-        f -= _diag(f)
+        f -= np.eye(n) * f
         ut = np.swapaxes(u, -1, -2)
-        r1 = f * _dot(ut, gu)
-        r2 = -f * (_dot(_dot(ut, np.conj(u)),
-                        np.real(_dot(ut, gu)) * np.eye(n)))
-        r = _dot(_dot(inv(ut), ge + r1 + r2), ut)
+        r1 = f * np.dot(ut, gu)
+        r2 = -f * (np.dot(np.dot(ut, np.conj(u)),
+                          np.real(np.dot(ut, gu)) * np.eye(n)))
+        r = np.dot(np.dot(np.linalg.inv(ut), ge + r1 + r2), ut)
         if not np.iscomplexobj(x):
             r = np.real(r)
             # the derivative is still complex for real input (imaginary delta is allowed), real output
-- 
2.43.0


From 77c80cc069f2655ae0cd6566e9e7b77e0c86da20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:38 +0000
Subject: [PATCH 30/37] fix: malformed reciprocal vectors raised 'exceptions
 must derive from BaseException' instead of the intended errors

---
 legume/phc/shapes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/legume/phc/shapes.py b/legume/phc/shapes.py
index 6e5f18b..870c0a8 100644
--- a/legume/phc/shapes.py
+++ b/legume/phc/shapes.py
@@ -21,17 +21,17 @@ class Shape(object):
         if type(gvec) == list:
             gvec = np.array(gvec)
         elif type(gvec) != np.ndarray:
-            raise (TypeError, "Input gvec must be either of type list or \
+            raise TypeError("Input gvec must be either of type list or \
                                     np.ndarray")
 
         if len(gvec.shape) != 2:
-            raise (ValueError, "Input gvec must be a 2D array")
+            raise ValueError("Input gvec must be a 2D array")
 
         elif gvec.shape[0] != 2:
             if gvec.shape[1] == 2:
                 gvec = gvec.T
             else:
-                raise (ValueError, "Input gvec must have length 2 \
+                raise ValueError("Input gvec must have length 2 \
                                 along one axis")
 
         return (gvec[0, :], gvec[1, :])
-- 
2.43.0


From c356df0cbedf67adcff51f57ea614a9efd890834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:12 +0000
Subject: [PATCH 31/37] fix: generate_gds_raster raised TypeError for its
 default (and any) list of levels

---
 legume/gds.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/legume/gds.py b/legume/gds.py
index 550bbac..bbf266e 100644
--- a/legume/gds.py
+++ b/legume/gds.py
@@ -99,7 +99,11 @@ def generate_gds_raster(lattice,
         Default is [0.5].
     """
 
-    contours = skimage.measure.find_contours(raster, levels)
+    # find_contours takes a single level at a time
+    contours = [
+        contour for level in np.atleast_1d(levels)
+        for contour in skimage.measure.find_contours(raster, level)
+    ]
     polygons = []
 
     T = np.hstack((lattice.a1[:, np.newaxis], lattice.a2[:, np.newaxis]))
-- 
2.43.0


From 5a3a5727485adccd5b0c1e1afbd09d610a2a90d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:12 +0000
Subject: [PATCH 32/37] fix: generate_gds_raster(cell_bound=False) raised
 UnboundLocalError

---
 legume/gds.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/legume/gds.py b/legume/gds.py
index bbf266e..442d3da 100644
--- a/legume/gds.py
+++ b/legume/gds.py
@@ -128,7 +128,6 @@ def generate_gds_raster(lattice,
                                [-0.5, +0.5, +0.5, -0.5]])
         points = [(x, y) for (x, y) in zip(bounds[0, :], bounds[1, :])]
         boundary = gdspy.Polygon(points, layer=0, datatype=1)
-
-    cell.add(boundary)
+        cell.add(boundary)
 
     gdspy.write_gds(filename, unit=unit)
-- 
2.43.0


From 3105c0a55e54650bcb42c565d62e231e4a38d6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:04 +0000
Subject: [PATCH 33/37] fix: bands with Q and both symmetries failed with
 matplotlib >= 3.9 (mpl.cm.get_cmap was removed)

---
 legume/viz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/legume/viz.py b/legume/viz.py
index 8d4850c..133d43f 100644
--- a/legume/viz.py
+++ b/legume/viz.py
@@ -138,7 +138,7 @@ def bands(gme,
                 Q = _calculate_Q(gme.freqs.flatten(),
                                  np.array(gme.freqs_im).flatten())
                 Q_max = np.max(Q[Q < Q_clip])
-                edgecolors = mpl.cm.get_cmap('bwr')(
+                edgecolors = plt.get_cmap('bwr')(
                     (np.asarray(gme.kz_symms).flatten() + 1) / 2)
 
                 p = ax.scatter(X.flatten(),
-- 
2.43.0


From b4afb283f836809de66b1b9c5fdd575c370f1d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:04 +0000
Subject: [PATCH 34/37] fix: field(periodic=False) in the xy plane applied the
 phase of the wavevector along the diagonal only, and failed for N1 != N2

---
 legume/viz.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/legume/viz.py b/legume/viz.py
index 133d43f..9a8e760 100644
--- a/legume/viz.py
+++ b/legume/viz.py
@@ -1216,8 +1216,9 @@ def field(struct,
                     np.meshgrid(grid1, grid2, np.array(z))).squeeze()
         pl, o, v = 'xy', 'z', zval
         if periodic == False:
-            kenv = np.exp(1j * grid1 * struct.kpoints[0, kind] +
-                          1j * grid2 * struct.kpoints[1, kind])
+            xgrid, ygrid = np.meshgrid(grid1, grid2)
+            kenv = np.exp(1j * xgrid * struct.kpoints[0, kind] +
+                          1j * ygrid * struct.kpoints[1, kind])
 
     elif x is not None and z is None and y is None:
         if str_type == 'pwe':
-- 
2.43.0


From 796ea386b82d0c68c5c91b939106431718bc6f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:04 +0000
Subject: [PATCH 35/37] fix: eps_ft and pot_ft raised NameError when drawing
 into a given gridspec

---
 legume/viz.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/legume/viz.py b/legume/viz.py
index 9a8e760..e6ff9a8 100644
--- a/legume/viz.py
+++ b/legume/viz.py
@@ -948,9 +948,9 @@ def eps_ft(struct,
                                        width_ratios=[1 - cbwidth, cbwidth])
     elif gridspec is not None and fig is not None:
         if cbar == False:
-            gs = mpl.gridspec.GridSpecFromSubplotSpec(len(ars), 1, gridspec)
+            gs = mpl.gridspec.GridSpecFromSubplotSpec(N_layers, 1, gridspec)
         else:
-            gs = mpl.gridspec.GridSpecFromSubplotSpec(len(ars), 2, gridspec)
+            gs = mpl.gridspec.GridSpecFromSubplotSpec(N_layers, 2, gridspec)
     else:
         raise ValueError(
             "Parameters gridspec and fig should be both specified "
@@ -1074,9 +1074,9 @@ def pot_ft(struct,
                                        width_ratios=[1 - cbwidth, cbwidth])
     elif gridspec is not None and fig is not None:
         if cbar == False:
-            gs = mpl.gridspec.GridSpecFromSubplotSpec(len(ars), 1, gridspec)
+            gs = mpl.gridspec.GridSpecFromSubplotSpec(N_layers, 1, gridspec)
         else:
-            gs = mpl.gridspec.GridSpecFromSubplotSpec(len(ars), 2, gridspec)
+            gs = mpl.gridspec.GridSpecFromSubplotSpec(N_layers, 2, gridspec)
     else:
         raise ValueError(
             "Parameters gridspec and fig should be both specified "
-- 
2.43.0


From 8c059283d01b5b322104e21d8067ae05284bd317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:08 +0000
Subject: [PATCH 36/37] fix: time of the matrix creation counted without the
 guided modes only when it contains them

With gmode_compute='interp' the guided modes are computed before the loop
over wavevectors, so subtracting their time gave negative durations in the
report.
---
 legume/gme/gme.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/legume/gme/gme.py b/legume/gme/gme.py
index 6f8cf1b..113293a 100644
--- a/legume/gme/gme.py
+++ b/legume/gme/gme.py
@@ -1170,8 +1170,10 @@ class GuidedModeExp(object):
         # convention for the units (2pi a/c)
         self._freqs = bd.array(freqs)
         self._kz_symms = bd.array(kz_symms)
-        # Guided modes are calculated inside _construct_mat()
-        self.t_creat_mat = self.t_creat_mat - self.t_guided
+        # Guided modes are calculated inside _construct_mat() only by the
+        # 'exact' method
+        if self.gmode_compute.lower() == 'exact':
+            self.t_creat_mat = self.t_creat_mat - self.t_guided
         self.t_eps_inv = t_eps_inv
 
         total_time = time.time() - t_start
-- 
2.43.0


From 43421582b96c80654b0e3324f73c018a9bf8c767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:08 +0000
Subject: [PATCH 37/37] fix: reports do not divide by a zero total time

A run shorter than the resolution of the clock ended in ZeroDivisionError
(even when silent) instead of returning its results.
---
 legume/print_utils.py | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/legume/print_utils.py b/legume/print_utils.py
index f235c52..a68a45b 100644
--- a/legume/print_utils.py
+++ b/legume/print_utils.py
@@ -16,6 +16,12 @@ except ImportError:
     RICH_AVAILABLE = False
 
 
+def percentage(t, t_tot):
+    """Percentage of t_tot taken by t; zero if no time elapsed on the clock
+    """
+    return t / t_tot * 100 if t_tot != 0 else 0.
+
+
 def load_bar(perc, precision=20):
     box = "\u2588"
     hor = "\u2500"
@@ -57,12 +63,14 @@ def update_prog(ik, num_k, verbose, text):
 
 def print_GME_report_rich(gme):
     t_tot = gme.total_time
-    t_guided, t_guided_perc = gme.t_guided, gme.t_guided / t_tot * 100
-    t_eps_inv, t_eps_inv_perc = gme.t_eps_inv, gme.t_eps_inv / t_tot * 100
-    t_diag, t_diag_perc = gme.t_eig - gme.t_symmetry, (
-        gme.t_eig - gme.t_symmetry) / t_tot * 100
-    t_creat_mat, t_creat_mat_perc = gme.t_creat_mat, gme.t_creat_mat / t_tot * 100
-    t_symmetry, t_symmetry_perc = gme.t_symmetry, gme.t_symmetry / t_tot * 100
+    t_guided, t_guided_perc = gme.t_guided, percentage(gme.t_guided, t_tot)
+    t_eps_inv, t_eps_inv_perc = gme.t_eps_inv, percentage(gme.t_eps_inv, t_tot)
+    t_diag = gme.t_eig - gme.t_symmetry
+    t_diag_perc = percentage(t_diag, t_tot)
+    t_creat_mat, t_creat_mat_perc = gme.t_creat_mat, percentage(
+        gme.t_creat_mat, t_tot)
+    t_symmetry, t_symmetry_perc = gme.t_symmetry, percentage(
+        gme.t_symmetry, t_tot)
 
     verbose_print("", gme.verbose, flush=True)
     if gme.verbose:
@@ -115,12 +123,14 @@ def print_GME_report_rich(gme):
 
 def print_GME_report(gme):
     t_tot = gme.total_time
-    t_guided, t_guided_perc = gme.t_guided, gme.t_guided / t_tot * 100
-    t_eps_inv, t_eps_inv_perc = gme.t_eps_inv, gme.t_eps_inv / t_tot * 100
-    t_diag, t_diag_perc = gme.t_eig - gme.t_symmetry, (
-        gme.t_eig - gme.t_symmetry) / t_tot * 100
-    t_creat_mat, t_creat_mat_perc = gme.t_creat_mat, gme.t_creat_mat / t_tot * 100
-    t_symmetry, t_symmetry_perc = gme.t_symmetry, gme.t_symmetry / t_tot * 100
+    t_guided, t_guided_perc = gme.t_guided, percentage(gme.t_guided, t_tot)
+    t_eps_inv, t_eps_inv_perc = gme.t_eps_inv, percentage(gme.t_eps_inv, t_tot)
+    t_diag = gme.t_eig - gme.t_symmetry
+    t_diag_perc = percentage(t_diag, t_tot)
+    t_creat_mat, t_creat_mat_perc = gme.t_creat_mat, percentage(
+        gme.t_creat_mat, t_tot)
+    t_symmetry, t_symmetry_perc = gme.t_symmetry, percentage(
+        gme.t_symmetry, t_tot)
     verbose_print("", gme.verbose, flush=True)
     verbose_print(
         f"{t_tot:.3f}s total time for real part of frequencies in GuidedModeExp, of which",
@@ -188,7 +198,7 @@ def print_ESE_report_rich(exc):
         table.add_column("% vs total T", justify="right", style="green")
         table.add_row(f"Diagonalization of the Hamiltonian",
                       f"{exc.t_eig:.4f}",
-                      f"{exc.t_eig/exc.total_time*100:.0f}%",
+                      f"{percentage(exc.t_eig, exc.total_time):.0f}%",
                       end_section=True)
         table.add_row(
             f"Total time for excitonic energies for {exc.kpoints.shape[1]} k-points",
-- 
2.43.0

