From 59415562e8078f71a6083c41709f048ff5f1e31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:01 +0000
Subject: [PATCH 01/77] fix: SphericalHarmonics works with current numpy
 (np.int, negative integer powers)

---
 electrode/spherical_harmonics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/electrode/spherical_harmonics.py b/electrode/spherical_harmonics.py
index ed73be5..e1da859 100644
--- a/electrode/spherical_harmonics.py
+++ b/electrode/spherical_harmonics.py
@@ -93,7 +93,7 @@ class SphericalHarmonics(object):
         # self.measure = np.sin(self.theta)
         self.weight = w[:, None]
         self.phi = np.arange(0, 2 * np.pi, np.pi / nmax)[None, :]
-        self.n, self.m = np.empty((2, nmax, nmax), np.int)
+        self.n, self.m = np.empty((2, nmax, nmax), int)
         for n, m, p, q in self.indices():
             self.n[p, q], self.m[p, q] = n, m
         ptmn = np.array([special.lpmn(nmax - 1, nmax - 1, xi)[0] for xi in x])
@@ -101,7 +101,7 @@ class SphericalHarmonics(object):
         b = (2 * self.n + 1) / (4 * np.pi)
         b *= special.gamma(self.n - np.absolute(self.m) + 1)
         b /= special.gamma(self.n + np.absolute(self.m) + 1)
-        c = (-1) ** np.where(self.m < 0, self.m, 0)
+        c = (-1.) ** np.where(self.m < 0, self.m, 0)
         self.ptmn = np.sqrt(b) * c * ptmn[:, np.absolute(self.m), self.n]
         # prepare weighted and measured ptmn for analysis()
         self.ptmnw = self.ptmn * (self.weight[:, :, None] * np.pi / nmax)
-- 
2.43.0


From 20bebd5a4592a55eeca268ce32ce7d7bda692e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:29 +0000
Subject: [PATCH 02/77] fix: utils.mathieu works with current numpy (np.complex
 is gone)

---
 electrode/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/utils.py b/electrode/utils.py
index 8fff71a..0412c83 100644
--- a/electrode/utils.py
+++ b/electrode/utils.py
@@ -568,7 +568,7 @@ def mathieu(r, *a):
       (see numpy.linalg.eig())
     """
     n = a[0].shape[0]
-    m = np.zeros((2*r+1, 2*r+1, 2, 2, n, n), dtype=np.complex)
+    m = np.zeros((2*r+1, 2*r+1, 2, 2, n, n), dtype=np.complex128)
     for l in range(2*r+1):
         # derivative on the diagonal
         m[l, l, 0, 0] = m[l, l, 1, 1] = np.identity(n)*2j*(l-r)
-- 
2.43.0


From 7a3c1bc43cca11f01691d36b04d9cd2024fa688f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:04 +0000
Subject: [PATCH 03/77] fix: Mathieu exponents of unbounded motion work with
 current numpy (np.complex)

---
 electrode/mathieu.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/electrode/mathieu.py b/electrode/mathieu.py
index c1de6bb..9bdaf8f 100644
--- a/electrode/mathieu.py
+++ b/electrode/mathieu.py
@@ -33,7 +33,7 @@ class Mathieu():
         # print(d0)
         rhs = d0*np.sin(np.pi/2*np.sqrt(a))**2
         if rhs < 0 or rhs > 1:
-            nu = 2./np.pi*np.arcsinh(np.sqrt(np.complex(-rhs)))    # In fact, this is mu.
+            nu = 2./np.pi*np.arcsinh(np.sqrt(complex(-rhs)))    # In fact, this is mu.
             warnings.warn('Complex characteristic exponent nu: unbounded motion.')
         else:
             nu = 2./np.pi*np.arcsin(np.sqrt(rhs))   # mu = j*nu
@@ -82,7 +82,7 @@ class Mathieu():
             t_eval = None
         sol = solve_ivp(func,[0.,np.pi],[1.,0.],method=method,t_eval=t_eval)
         if np.abs(sol.y[0,-1]) > 1.:
-            nu = np.arccosh(np.complex(sol.y[0,-1]))/np.pi    # In fact, this is mu.
+            nu = np.arccosh(complex(sol.y[0,-1]))/np.pi    # In fact, this is mu.
             warnings.warn('Complex characteristic exponent nu: unbounded motion.')
         else:
             nu = np.arccos(sol.y[0,-1])/np.pi   # mu = j*nu
-- 
2.43.0


From bc3b5130e6257bce407ecdcc29de4b6f964e6183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:04 +0000
Subject: [PATCH 04/77] fix: Mathieu.init_value returns the coefficients for t0
 != 0

---
 electrode/mathieu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/mathieu.py b/electrode/mathieu.py
index 9bdaf8f..364f3f2 100644
--- a/electrode/mathieu.py
+++ b/electrode/mathieu.py
@@ -349,7 +349,7 @@ class Mathieu():
             den = self.sol_y1(t0,0)*self.sol_y2(t0,1)-self.sol_y1(t0,1)*self.sol_y2(t0,0)
             A = (y0[0]*self.sol_y2(t0,1)-y0[1]*self.sol_y2(t0,0))/den
             B = -(y0[0]*self.sol_y1(t0,1)-y0[1]*self.sol_y1(t0,0))/den
-            return np.array(A,B)
+            return np.array([A,B])
 
     def sol_plot():
         pass
\ No newline at end of file
-- 
2.43.0


From 53ca5f86120e96167b107bd6554b9f1bc57b6b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:04 +0000
Subject: [PATCH 05/77] fix: Mathieu.init_sol has a default truncation order in
 every mode

---
 electrode/mathieu.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/electrode/mathieu.py b/electrode/mathieu.py
index 364f3f2..289902a 100644
--- a/electrode/mathieu.py
+++ b/electrode/mathieu.py
@@ -272,6 +272,8 @@ class Mathieu():
         else:
             raise ValueError("Invalid characteristic exponent mode.")
         if nc == None:
+            if mode != 'det':
+                nu_n = self.nu_tolerance(a,q,tol=tol_nu)[1]
             nc = nu_n
         self.Cn = self.coeff_Cn(a,q,self.nu,nc,ng)[0:2]
         return 0
-- 
2.43.0


From a7d22b3a8dbb99d70dc199c3928d62d03fbfd104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:34 +0000
Subject: [PATCH 06/77] fix: System.saddle rotates gradient and hessian into
 the coordinate system it searches in

---
 electrode/system.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/electrode/system.py b/electrode/system.py
index dd1af20..8279a22 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -565,9 +565,9 @@ class System(list):
         def g(xi):
             x[axis] = xi
             return rotate_tensor(self.potential(np.dot(coord, x), 1),
-                    coord.T)[0, axis]
+                    coord)[0, axis]
         h = rotate_tensor(self.potential(np.dot(coord, x), 2),
-                coord.T)[0, axis][:, axis]
+                coord)[0, axis][:, axis]
         # rational function optimization
         xs, p, ret = rfo(f, g, np.array(x0)[axis], h=h, **kwargs)
         if not ret in ("ftol", "xtol"):
-- 
2.43.0


From 3b632836641e4439d3ad1ec4444ec93019124f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:34 +0000
Subject: [PATCH 07/77] fix: System.minimum and saddle accept integer start
 points

---
 electrode/system.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/electrode/system.py b/electrode/system.py
index 8279a22..0266381 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -509,7 +509,7 @@ class System(list):
         --------
         scipy.optimize.minimize
         """
-        x = np.array(x0)
+        x = np.array(x0, np.double)
         axis = list(axis)
         def f(xi):
             x[axis] = xi
@@ -557,7 +557,7 @@ class System(list):
         """
         kwargs = dict(dx_max=.1, xtol=1e-5, ftol=1e-5)
         kwargs.update(kw)
-        x = np.array(x0)
+        x = np.array(x0, np.double)
         axis = list(axis)
         def f(xi):
             x[axis] = xi
-- 
2.43.0


From 8da51e2cd7093b102dccb79b41757fc5e9cb3c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:34 +0000
Subject: [PATCH 08/77] fix: analyze_static varies only the given axes in its
 minimum and saddle searches

---
 electrode/system.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/electrode/system.py b/electrode/system.py
index 0266381..6b97a0b 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -993,7 +993,7 @@ class System(list):
             trap = x
         else:
             # 'Nelder-Mead'/'Powell' don't use jac and hess, can avoid precision loss
-            trap = self.minimum(x+min_offset, method=min_method)
+            trap = self.minimum(x+min_offset, axis, method=min_method)
         yield " minimum is at offset: %s" % (trap - x,)
         yield "                      (%s µm)" % ((trap - x)*l/1e-6,)
         p_dc = self.electrical_potential(x, 0, "dc")[0]
@@ -1002,7 +1002,7 @@ class System(list):
         yield " dc electrical: %.2g eV" % p_dc
         yield " rf pseudo: %.2g eV" % p_rf
         try:
-            xs, xsp = self.saddle(x + saddle_offset)    # 1e-2*x[2]
+            xs, xsp = self.saddle(x + saddle_offset, axis)    # 1e-2*x[2]
             yield " saddle offset: %s" % (xs - x,)
             yield "               (%s µm)" % ((xs - x)*l/1e-6,)
             yield " saddle height: %.2g eV" % (xsp - (p_dc + p_rf))
-- 
2.43.0


From d07b813c095e0ebd4eac14dcd196a30964e71aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:42 +0000
Subject: [PATCH 09/77] fix: System.with_voltages restores the old rfs when
 setting the dcs fails

---
 electrode/system.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/electrode/system.py b/electrode/system.py
index 6b97a0b..86f010a 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -166,17 +166,18 @@ class System(list):
         >>> with s.with_voltages(dcs=0*s.dcs, rfs=[0, 1]):
         ...     print(s.potential([0, 0, 1.]))
         """
+        old_dcs, old_rfs = self.dcs, self.rfs
         try:
             if dcs is not None:
-                dcs, self.dcs = self.dcs, dcs
+                self.dcs = dcs
             if rfs is not None:
-                rfs, self.rfs = self.rfs, rfs
+                self.rfs = rfs
             yield
         finally:
             if dcs is not None:
-                self.dcs = dcs
+                self.dcs = old_dcs
             if rfs is not None:
-                self.rfs = rfs
+                self.rfs = old_rfs
 
     def electrical_potential(self, x, derivative=0, typ="dc", expand=False):
         """Electrical potential derivative.
-- 
2.43.0


From 4766d8f18f94d10e6b7ec58b51d2160e5dcbd568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:42 +0000
Subject: [PATCH 10/77] fix: System.group(thresholds=None) groups by distinct
 voltage

---
 electrode/system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/system.py b/electrode/system.py
index 86f010a..7b1046a 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -832,7 +832,7 @@ class System(list):
         if voltages is None:
             voltages = self.dcs
         if thresholds is None:
-            threshold = sorted(np.unique(voltages))
+            thresholds = sorted(np.unique(voltages))
         ts = [-np.inf] + list(thresholds) + [np.inf]
         eles = []
         for i, (ta, tb) in enumerate(zip(ts[:-1], ts[1:])):
-- 
2.43.0


From 848153129ad8a9c849f72ec5115257b12dd0f3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:42 +0000
Subject: [PATCH 11/77] fix: System.group accepts a list of voltages

---
 electrode/system.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/electrode/system.py b/electrode/system.py
index 7b1046a..16751b5 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -831,6 +831,7 @@ class System(list):
         """
         if voltages is None:
             voltages = self.dcs
+        voltages = np.asanyarray(voltages)
         if thresholds is None:
             thresholds = sorted(np.unique(voltages))
         ts = [-np.inf] + list(thresholds) + [np.inf]
-- 
2.43.0


From 666e6ef962a077a0892f1f9c69149c9a6dbf7f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:42 +0000
Subject: [PATCH 12/77] fix: System.group gives empty groups zero instead of
 nan voltages

---
 electrode/system.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/electrode/system.py b/electrode/system.py
index 16751b5..356a841 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -849,7 +849,8 @@ class System(list):
                 dcs.append(el.dc)
                 rfs.append(el.rf)
             eles.append(PolygonPixelElectrode(paths=paths,
-                dc=np.mean(dcs), rf=np.mean(rfs)))
+                dc=np.mean(dcs) if dcs else 0.,
+                rf=np.mean(rfs) if rfs else 0.))
         return System(eles)
 
     def mathieu(self, x, scale, r=2, sorted=True):
-- 
2.43.0


From 4549c95d807d1104fcfa1c66f1eb84cb9a93a26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:42 +0000
Subject: [PATCH 13/77] fix: System.group keeps the cover plane of the grouped
 electrodes

---
 electrode/system.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/electrode/system.py b/electrode/system.py
index 356a841..c08bea7 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -843,14 +843,17 @@ class System(list):
             paths = []
             dcs = []
             rfs = []
+            cover = {}
             for j in np.argwhere(good)[:, 0]:
                 el = self[j]
                 paths.extend(el.paths)
                 dcs.append(el.dc)
                 rfs.append(el.rf)
+                cover = dict(cover_height=el.cover_height,
+                        cover_nmax=el.cover_nmax)
             eles.append(PolygonPixelElectrode(paths=paths,
                 dc=np.mean(dcs) if dcs else 0.,
-                rf=np.mean(rfs) if rfs else 0.))
+                rf=np.mean(rfs) if rfs else 0., **cover))
         return System(eles)
 
     def mathieu(self, x, scale, r=2, sorted=True):
-- 
2.43.0


From e90b765cef4df4dfe15c58972c3a52c141053c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:57 +0000
Subject: [PATCH 14/77] fix: System.optimize drops a redundant constraint row,
 not just the last one

---
 electrode/system.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/electrode/system.py b/electrode/system.py
index c08bea7..cc52dc0 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -796,8 +796,9 @@ class System(list):
         g2 = np.inner(g, g)
         B1 = B - np.outer(b, g)/g2 # B*g_perp
         obj = cvxopt.modeling.dot(cvxopt.matrix(g), p) # maximize this
-        #FIXME: there is one singular value, drop one line
-        B1 = B1[:-1]
+        # there is one singular value, its left singular vector is g*Bp:
+        # drop a line that is a combination of the others
+        B1 = np.delete(B1, np.argmax(np.fabs(np.dot(g, Bp))), axis=0)
         # B*g_perp*p == 0
         ctrs.append(cvxopt.modeling.dot(cvxopt.matrix(B1.T), p) == 0.)
 
-- 
2.43.0


From 5d1cfcb824affe72e803f725e60c837d60dfc828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:57 +0000
Subject: [PATCH 15/77] fix: System.optimize works with a single objective

---
 electrode/system.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/electrode/system.py b/electrode/system.py
index cc52dc0..9b4628c 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -800,7 +800,8 @@ class System(list):
         # drop a line that is a combination of the others
         B1 = np.delete(B1, np.argmax(np.fabs(np.dot(g, Bp))), axis=0)
         # B*g_perp*p == 0
-        ctrs.append(cvxopt.modeling.dot(cvxopt.matrix(B1.T), p) == 0.)
+        if len(B1):
+            ctrs.append(cvxopt.modeling.dot(cvxopt.matrix(B1.T), p) == 0.)
 
         solver = self._run_cvxopt(-obj, ctrs, verbose, **kwargs)
 
-- 
2.43.0


From 9165cc3504d96c9eb2d601a2f4abb9ecb25b4560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:57 +0000
Subject: [PATCH 16/77] fix: System.solve accumulates the local objectives

---
 electrode/system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/system.py b/electrode/system.py
index 9b4628c..5e10ab6 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -747,7 +747,7 @@ class System(list):
         ctrs = []
         for ci, vi in zip(local_constraints, variables):
             for cj in ci:
-                obj = sum(coef*val for coef, val in cj.objective(self, vi))
+                obj += sum(coef*val for coef, val in cj.objective(self, vi))
                 ctrs.extend(cj.constraints(self, vi))
         for ci in global_constraints:
             obj += sum(coef*val for coef, val in ci.objective(self, variables))
-- 
2.43.0


From e820704c252034e0bcbf2a2fc368426fb4aa3277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:55 +0000
Subject: [PATCH 17/77] fix: Grid.to_xyz works for non-cubic grids with current
 numpy

---
 electrode/grid.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/electrode/grid.py b/electrode/grid.py
index 340d88c..150339f 100644
--- a/electrode/grid.py
+++ b/electrode/grid.py
@@ -54,8 +54,11 @@ class Grid():
 
     def to_xyz(self):
         """ Create ndarrays of x, y, z"""
+        # the axes form an object array if they differ in length
+        dtype = np.double if len(set(self.shape)) == 1 else object
         xyz = np.array([np.linspace(c-s*(h-1)/2., c+s*(h-1)/2.,h)
-                for c, s, h in zip(self.center, self.step, self.shape)])
+                for c, s, h in zip(self.center, self.step, self.shape)],
+                dtype=dtype)
         return xyz
 
     def indices_to_coordinates(self, idx):
-- 
2.43.0


From 066946f86cc603654d70facdba562716524194c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:55 +0000
Subject: [PATCH 18/77] fix: xic_to_list parses coordinates on Python 3

---
 electrode/xic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/xic.py b/electrode/xic.py
index 76111ba..932169a 100644
--- a/electrode/xic.py
+++ b/electrode/xic.py
@@ -37,7 +37,7 @@ def xic_to_list(xic):
                 p.append(line.split())
             else:
                 p.append(line[:-1].split())
-                es.append(np.array([map(float, i) for i in p])*1e-8)
+                es.append(np.array([list(map(float, i)) for i in p])*1e-8)
         elif not line.strip():
             pass
         else:
-- 
2.43.0


From 7822f8ca90e582c91ac4ce41ddacb280c92ad80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:55 +0000
Subject: [PATCH 19/77] fix: xic_to_list skips blank lines

---
 electrode/xic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/electrode/xic.py b/electrode/xic.py
index 932169a..b069ebd 100644
--- a/electrode/xic.py
+++ b/electrode/xic.py
@@ -30,7 +30,9 @@ def xic_to_list(xic):
     es = []
     for line in xic:
         line = line.rstrip()
-        if line[0] == "P":
+        if not line.strip():
+            pass
+        elif line[0] == "P":
             p = [line.split()[1:]]
         elif line[0] == " ":
             if not line.endswith(";"):
@@ -38,8 +40,6 @@ def xic_to_list(xic):
             else:
                 p.append(line[:-1].split())
                 es.append(np.array([list(map(float, i)) for i in p])*1e-8)
-        elif not line.strip():
-            pass
         else:
             pass # print line
     return es
-- 
2.43.0


From 5fff5ea97882fec654bb301ecb311c0baa9510fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:55 +0000
Subject: [PATCH 20/77] fix: System.trajectory accelerates down the potential,
 like minimum() and mathieu()

---
 electrode/system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/system.py b/electrode/system.py
index 5e10ab6..8353377 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -648,7 +648,7 @@ class System(list):
         x0 = np.array(x0)
         def ddx(t, q, f):
             x0[axis] = q
-            f[:] = self.time_potential(x0, 1, t, expand=True)[0, axis]
+            f[:] = -self.time_potential(x0, 1, t, expand=True)[0, axis]
         while t < t1:
             integ(ddx, nsteps, t, p, q, t+dt, *args, **kwargs)
             t += dt
-- 
2.43.0


From 42d38896492962cf769ee14fa1268d9eccb69c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:55 +0000
Subject: [PATCH 21/77] fix: System.trajectory accepts array_like and integer
 initial conditions

---
 electrode/system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/system.py b/electrode/system.py
index 8353377..0387533 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -644,8 +644,8 @@ class System(list):
                 return integ_(ddx, nsteps, t, p, q, t1, methc,
                         *args, **kwargs)
         axis = list(axis)
+        x0, v0 = np.array(x0, np.double), np.array(v0, np.double)
         t, p, q = t0, v0[axis], x0[axis]
-        x0 = np.array(x0)
         def ddx(t, q, f):
             x0[axis] = q
             f[:] = -self.time_potential(x0, 1, t, expand=True)[0, axis]
-- 
2.43.0


From 2d5f13af459b1616904bd6798de35d00b24ac5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:58 +0000
Subject: [PATCH 22/77] fix: Polygons.to_gds writes integer coordinates and
 property lists that can be saved

---
 electrode/polygons.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/electrode/polygons.py b/electrode/polygons.py
index b9796df..83949ed 100644
--- a/electrode/polygons.py
+++ b/electrode/polygons.py
@@ -391,17 +391,17 @@ class Polygons(list):
                 if edge:
                     poly = poly.intersection(field)
                 xy = np.array(poly.exterior.coords.xy).copy()
-                xy = xy.T[:, :2]*scale/phys_unit
+                xy = np.around(xy.T[:, :2]*scale/phys_unit).astype(int)
                 if text_layer is not None and name:
                     p = elements.Text(layer=text_layer[0],
                                       text_type=text_layer[1], xy=xy[:1],
                                       string=name.encode("ascii"))
-                    p.properties = props.items()
+                    p.properties = list(props.items())
                     stru.append(p)
                 if poly_layer is not None:
                     p = elements.Boundary(layer=poly_layer[0],
                                           data_type=poly_layer[1], xy=xy)
-                    p.properties = props.items()
+                    p.properties = list(props.items())
                     stru.append(p)
                 gaps.append(poly.exterior)
                 gaps.extend(poly.interiors)
@@ -421,7 +421,7 @@ class Polygons(list):
             #    g = [g]
             for loop in g:
                 xy = np.array(loop.coords.xy).copy()
-                xy = xy.T[:, :2]*scale/phys_unit
+                xy = np.around(xy.T[:, :2]*scale/phys_unit).astype(int)
                 #xy = np.r_[xy, xy[:1]]
                 p = elements.Path(layer=gap_layer[0],
                                   data_type=gap_layer[1], xy=xy)
-- 
2.43.0


From 30c8e19f2a772a6a4efa246631dae6f4363f4477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:05 +0000
Subject: [PATCH 23/77] fix: Polygons.to_gds clips to edge when nothing or
 several pieces are left inside

---
 electrode/polygons.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/electrode/polygons.py b/electrode/polygons.py
index 83949ed..3c6b235 100644
--- a/electrode/polygons.py
+++ b/electrode/polygons.py
@@ -382,14 +382,16 @@ class Polygons(list):
             props = {}
             if name:
                 props[self._attr_name] = name.encode("ascii")
-            if not hasattr(polys, "geoms"):
-                polys = [polys]
+            polys = getattr(polys, "geoms", [polys])
+            if edge:
+                polys = [poly.intersection(field) for poly in polys]
+                polys = [p for poly in polys
+                         for p in getattr(poly, "geoms", [poly])]
             for poly in polys:
                 assert poly.is_valid, poly
-                if poly.is_empty:
+                # clipping can also leave lines and points
+                if poly.is_empty or not isinstance(poly, geometry.Polygon):
                     continue
-                if edge:
-                    poly = poly.intersection(field)
                 xy = np.array(poly.exterior.coords.xy).copy()
                 xy = np.around(xy.T[:, :2]*scale/phys_unit).astype(int)
                 if text_layer is not None and name:
-- 
2.43.0


From dd11c3e9bc112c1ffa1b8f63dc0dbb302f1395bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:27 +0000
Subject: [PATCH 24/77] fix: Adjust.set_move_init accepts arrays

---
 electrode/adjust.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/electrode/adjust.py b/electrode/adjust.py
index 6e62639..50325f6 100644
--- a/electrode/adjust.py
+++ b/electrode/adjust.py
@@ -35,14 +35,14 @@ class Adjust():
 
 		# minimum xm
 		# system.minimum() still has some problem, if it appears, you can manually input xm.
-		if xm == None:
+		if xm is None:
 			xi = (0.,0.,0.)
 			xm = self.system.minimum(xi)
 		self.xms = [np.array(xm)]
 
 		# eigenvector -> bases
 		evalue, evector = self.system.modes(xm)
-		if axis_order == None:
+		if axis_order is None:
 			# sort according to the x coordinate of eigenvectors. [::-1] in acsending order
 			axis_order = evector[0].argsort()[::-1]
 		evalue, evector = evalue[axis_order], evector[:,axis_order].T
-- 
2.43.0


From fdbb40f35fcb6340520bb201290d697f91fb66fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:27 +0000
Subject: [PATCH 25/77] fix: Adjust.next_step accepts own voltage changes and
 rejects proposals

---
 electrode/adjust.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/electrode/adjust.py b/electrode/adjust.py
index 50325f6..061a9e0 100644
--- a/electrode/adjust.py
+++ b/electrode/adjust.py
@@ -142,26 +142,27 @@ class Adjust():
 		# Pay attention, if you have used propose_move() or xm_freq_change(), the deltaV have been applied
 		# to system.
 
-		if deltaV == None:
+		userown = deltaV is not None    # user own deltaV
+		if accept and not userown:
 			try:
 				deltaV, xm_new, evalue = self._propose
-				userown = False    # user own deltaV
 			except AttributeError:
 				warnings.warn("Propose a volt_change() first.")
+				raise
 
 		if accept:
+			if userown:
+				xm_new, _, evalue = self.xm_freq_change(deltaV)[:3]
 			config = self.construct_config(deltaV)
 			self.set_volts(config, save=True)
-			if userown:
-				xm_new, evalue = self.xm_freq_change(deltaV)[[0,2]]
 			self.xms.append(xm_new)
 			self.curves.append(evalue)
 			# print("Move")
 		else:
 			# reset voltages back to erase the change due to xm_freq_change()
-			self.set_volts(self.Volts[-1])		
+			self.set_volts(dict((ele, volts[-1]) for ele, volts in self.volts.items()))
 			# print("Stay")
 
-		del self._propose
+		self.__dict__.pop("_propose", None)
 		return 0
 
-- 
2.43.0


From 8c0e67da73bc71bc64675c469ef905e77fe18c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:09 +0000
Subject: [PATCH 26/77] fix: System.with_voltages restores the electrodes'
 voltages also if the list was reordered inside

---
 electrode/system.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/electrode/system.py b/electrode/system.py
index 0387533..7397e65 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -166,7 +166,7 @@ class System(list):
         >>> with s.with_voltages(dcs=0*s.dcs, rfs=[0, 1]):
         ...     print(s.potential([0, 0, 1.]))
         """
-        old_dcs, old_rfs = self.dcs, self.rfs
+        old = [(el, el.dc, el.rf) for el in self]
         try:
             if dcs is not None:
                 self.dcs = dcs
@@ -174,10 +174,11 @@ class System(list):
                 self.rfs = rfs
             yield
         finally:
-            if dcs is not None:
-                self.dcs = old_dcs
-            if rfs is not None:
-                self.rfs = old_rfs
+            for el, dc, rf in old:
+                if dcs is not None:
+                    el.dc = dc
+                if rfs is not None:
+                    el.rf = rf
 
     def electrical_potential(self, x, derivative=0, typ="dc", expand=False):
         """Electrical potential derivative.
-- 
2.43.0


From 8ea0411ee702145c32673a45b566cad0ca7dcc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:27 +0000
Subject: [PATCH 27/77] fix: rfo() does not divide by zero when the hessian is
 already exact

---
 electrode/saddle.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/electrode/saddle.py b/electrode/saddle.py
index 45531b8..d8c8ba8 100644
--- a/electrode/saddle.py
+++ b/electrode/saddle.py
@@ -79,12 +79,16 @@ def rfo(fun, grad, x0, args=(),
         df = fun(np.array(x + dx).ravel()) - f
         dg = np.matrix(grad(np.array(x + dx).ravel())).T - g
         dp = dg - h*dx
-        dh_powell = (dp*dx.T + dx*dp.T)/(dx.T*dx) - \
-                float(dp.T*dx)*(dx*dx.T)/(dx.T*dx)**2
-        dh_sr1 = (dp*dp.T)/(dp.T*dx)
-        phi = float((dp.T*dx)**2/((dp.T*dp)*(dx.T*dx)))
-        dh_bofill = phi*dh_sr1 + (1-phi)*dh_powell
-        dh = dh_bofill
+        dp2, dx2, dpx = float(dp.T*dp), float(dx.T*dx), float(dp.T*dx)
+        if dp2 > 0. and dx2 > 0.:
+            dh_powell = (dp*dx.T + dx*dp.T)/dx2 - dpx*(dx*dx.T)/dx2**2
+            phi = dpx**2/(dp2*dx2)
+            # phi*dh_sr1, this also holds for dp orthogonal to dx
+            phi_dh_sr1 = (dp*dp.T)*dpx/(dp2*dx2)
+            dh = phi_dh_sr1 + (1-phi)*dh_powell
+        else:
+            # h is exact along dx, nothing to update
+            dh = np.zeros_like(h)
 
         if 2.*np.linalg.norm(dx) <= xtol * (
                 np.linalg.norm(x+dx) + np.linalg.norm(x) + 1e-20):
-- 
2.43.0


From 00417329b604766a91444b6d34c03229b143ea02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:47 +0000
Subject: [PATCH 28/77] fix: rfo() does not take canceling ascent and descent
 for convergence

---
 electrode/saddle.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/electrode/saddle.py b/electrode/saddle.py
index d8c8ba8..eadc857 100644
--- a/electrode/saddle.py
+++ b/electrode/saddle.py
@@ -94,7 +94,9 @@ def rfo(fun, grad, x0, args=(),
                 np.linalg.norm(x+dx) + np.linalg.norm(x) + 1e-20):
             ret = "xtol"
 
-        if 2.*np.abs(df) <= ftol * (abs(f+df) + abs(f) + 1e-20):
+        # ascent and descent along the modes must not cancel
+        de = np.abs(gl*np.array(v.T*dx).ravel()).sum()
+        if 2.*de <= ftol * (abs(f+df) + abs(f) + 1e-20):
             ret = "ftol"
 
         if maxiter > 0 and it > maxiter:
-- 
2.43.0


From 1c6dfae39f66f2e0843d4b854e5084ff81863e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:47 +0000
Subject: [PATCH 29/77] fix: System.saddle reports failure if the stationary
 point found is no saddle

---
 electrode/system.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/electrode/system.py b/electrode/system.py
index 7397e65..bce3063 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -568,13 +568,17 @@ class System(list):
             x[axis] = xi
             return rotate_tensor(self.potential(np.dot(coord, x), 1),
                     coord)[0, axis]
-        h = rotate_tensor(self.potential(np.dot(coord, x), 2),
-                coord)[0, axis][:, axis]
+        def h():
+            return rotate_tensor(self.potential(np.dot(coord, x), 2),
+                    coord)[0, axis][:, axis]
         # rational function optimization
-        xs, p, ret = rfo(f, g, np.array(x0)[axis], h=h, **kwargs)
+        xs, p, ret = rfo(f, g, np.array(x0)[axis], h=h(), **kwargs)
         if not ret in ("ftol", "xtol"):
             raise ValueError("%s", ((x0, axis, x, xs, p, ret),))
         # f(xs) # update x
+        ew = np.linalg.eigvalsh(h())
+        if (ew < -1e-9*abs(ew).max()).sum() != 1:
+            raise ValueError("not a saddle: %s", ((x, axis, ew),))
         return x, p
 
     def modes(self, x, sorted=True):
-- 
2.43.0


From 8d028fcd963f3d464ac337d8daadddedc5a8deb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:42 +0000
Subject: [PATCH 30/77] fix: analyze_static does not call bounded motion
 unbounded because of the frequency cutoff

---
 electrode/system.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/electrode/system.py b/electrode/system.py
index bce3063..22cbbda 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -1035,7 +1035,8 @@ class System(list):
         freqs = mu[:3].imag*o/(2*np.pi)
         modes = b[len(b)//2 - 3:len(b)//2, :3].real
         yield " pp+dc normal curvatures: %s" % curves
-        yield " motion is bounded: %s" % np.allclose(mu.real, 0)
+        # exponents close to the frequency cutoff are not accurate
+        yield " motion is bounded: %s" % np.allclose(mu[mu.imag < 2].real, 0)
         m4 = np.eye(4, 4)
         for nj, fj, mj in (
                 ("pseudopotential", freqs_pp, modes_pp),
-- 
2.43.0


From 0782a7147503d5d0ec99493c77298345f52a28cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:14 +0000
Subject: [PATCH 31/77] fix: System.shims restores the values of the given
 objectives

---
 electrode/system.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/electrode/system.py b/electrode/system.py
index 22cbbda..75af453 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -697,12 +697,19 @@ class System(list):
             constraints = [PatternRangeConstraint(min=-1, max=1)]
         vectors = np.empty((len(obj), len(self)),
                 np.double)
-        for i, objective in enumerate(obj):
-            objective.value = 1
-            p, c = self.optimize(constraints+obj, verbose=False,
-                    **kwargs)
-            objective.value = 0
-            vectors[i] = p/c
+        values = [objective.value for objective in obj]
+        try:
+            for objective in obj:
+                objective.value = 0
+            for i, objective in enumerate(obj):
+                objective.value = 1
+                p, c = self.optimize(constraints+obj, verbose=False,
+                        **kwargs)
+                objective.value = 0
+                vectors[i] = p/c
+        finally:
+            for objective, value in zip(obj, values):
+                objective.value = value
         return vectors
 
     def _run_cvxopt(self, obj, ctrs, verbose=True, **kwargs):
-- 
2.43.0


From 9ca13f943ef4d74cf97eb8323bfc4c765c0dddbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:48 +0000
Subject: [PATCH 32/77] fix: derivatives_spherical_cartesian has its components
 in the documented order (dr, dtheta, dphi)

---
 electrode/spherical_harmonics.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/electrode/spherical_harmonics.py b/electrode/spherical_harmonics.py
index e1da859..50d9446 100644
--- a/electrode/spherical_harmonics.py
+++ b/electrode/spherical_harmonics.py
@@ -38,12 +38,12 @@ def derivatives_spherical_cartesian(d, r, theta, phi,
     cp, sp = cis_phi.real, cis_phi.imag
     if direction == "to_spherical":
         m = [[cp*st, sp*st, ct],
-             [-sp/(r*st), cp/(r*st), np.zeros_like(r)],
-             [cp*ct/r, sp*ct/r, -st/r]]
+             [cp*ct/r, sp*ct/r, -st/r],
+             [-sp/(r*st), cp/(r*st), np.zeros_like(r)]]
     elif direction == "to_cartesian":
-        m = [[cp*st, -r*sp*st, r*cp*ct],
-             [sp*st, r*cp*st, r*sp*ct],
-             [ct, np.zeros_like(r), -r*st]]
+        m = [[cp*st, r*cp*ct, -r*sp*st],
+             [sp*st, r*sp*ct, r*cp*st],
+             [ct, -r*st, np.zeros_like(r)]]
     return [sum(m[i][j]*k for j, k in enumerate(d))
             for i in range(3)]
 
-- 
2.43.0


From 619b72cccf639ec0c689e59090839cf9b95b28de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:13 +0000
Subject: [PATCH 33/77] fix: Polygons.filter drops empty patches and has its
 default test for deep=False

---
 electrode/polygons.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/electrode/polygons.py b/electrode/polygons.py
index 3c6b235..98d4d19 100644
--- a/electrode/polygons.py
+++ b/electrode/polygons.py
@@ -559,14 +559,17 @@ class Polygons(list):
         Polygons
             Filtered output
         """
-        if test is None and deep:
+        if test is None:
             def test(name, boundary):
-                return abs(geometry.Polygon(boundary).area) > 1e-2
+                if deep:
+                    boundary = geometry.Polygon(boundary)
+                return abs(boundary.area) > 1e-2
 
         p = Polygons()
         for ni, pi in self:
             if not hasattr(pi, "geoms"):
                 pi = [pi]
+            pi = [_ for _ in pi if not _.is_empty]
             if deep:
                 pe = []
                 for ppi in pi:
-- 
2.43.0


From 6dc94b4a4c570a98a57f5dcf48938bcd530bab35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:13 +0000
Subject: [PATCH 34/77] fix: Polygons.smooth skips empty patches

---
 electrode/polygons.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/electrode/polygons.py b/electrode/polygons.py
index 98d4d19..74773cf 100644
--- a/electrode/polygons.py
+++ b/electrode/polygons.py
@@ -606,6 +606,8 @@ class Polygons(list):
             if not hasattr(mpoly, "geoms"):
                 mpoly = [mpoly]
             for poly in mpoly:
+                if poly.is_empty:
+                    continue
                 loops = []
                 b = poly.boundary
                 try:
-- 
2.43.0


From 57b001d03e0065b5cf96b4a539fac5b5cb6558d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:13 +0000
Subject: [PATCH 35/77] fix: Polygons.restrict drops the lines and points where
 electrodes only touch the region

---
 electrode/polygons.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/electrode/polygons.py b/electrode/polygons.py
index 74773cf..681ee3d 100644
--- a/electrode/polygons.py
+++ b/electrode/polygons.py
@@ -26,6 +26,7 @@ import operator
 import numpy as np
 from scipy.interpolate import splprep, splev
 from shapely import geometry, ops
+from shapely.geometry import MultiPolygon
 from gdsii import library, structure, elements
 
 from .system import System
@@ -687,7 +688,14 @@ class Polygons(list):
         """
         p = Polygons()
         for name, multipoly in self:
-            p.append((name, multipoly.intersection(geometry)))
+            multipoly = multipoly.intersection(geometry)
+            if multipoly.type not in ("Polygon", "MultiPolygon"):
+                multipoly = ops.unary_union([
+                    _ for _ in getattr(multipoly, "geoms", [])
+                    if _.type in ("Polygon", "MultiPolygon")])
+                if multipoly.is_empty:
+                    multipoly = MultiPolygon()
+            p.append((name, multipoly))
         return p
 
     def within(self, edge=50):
-- 
2.43.0


From 840c3183860573218ccc5e31ab90876c32875727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:13 +0000
Subject: [PATCH 36/77] fix: Polygons.from_data accepts polygons that cover the
 whole field

---
 electrode/polygons.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/polygons.py b/electrode/polygons.py
index 681ee3d..3b75fda 100644
--- a/electrode/polygons.py
+++ b/electrode/polygons.py
@@ -321,7 +321,7 @@ class Polygons(list):
         assert field.is_valid, field
         if isinstance(field, geometry.Polygon):
             field = [field]
-        if not gaps and not routes:
+        if (not gaps and not routes) or field[0].is_empty:
             field = []
         for i in field:
             # assume that buffer is much smaller than any relevant
-- 
2.43.0


From a3e8949bc1ea7331f666d038e7d39b85ce1737b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:13 +0000
Subject: [PATCH 37/77] fix: Polygons.from_data gives valid fragments for gaps
 and routes that end inside the field

---
 electrode/polygons.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/electrode/polygons.py b/electrode/polygons.py
index 3b75fda..a75d3bf 100644
--- a/electrode/polygons.py
+++ b/electrode/polygons.py
@@ -329,6 +329,9 @@ class Polygons(list):
             i = [np.around(j.coords, int(-np.log10(buffer)-1)) for j in
                  [i.exterior] + list(i.interiors)]
             i = geometry.Polygon(i[0], i[1:])
+            if not i.is_valid:
+                # rounding collapsed a gap that does not separate anything
+                i = i.buffer(0)
             fragments.append(("", i))
         if names:
             pads = [xy for name, xy in names]
-- 
2.43.0


From c1577478488c2e7b237140ede4586376fa48cafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:13 +0000
Subject: [PATCH 38/77] fix: square_pads(odd=True) does not add pads outside
 the square

---
 electrode/polygons.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/polygons.py b/electrode/polygons.py
index a75d3bf..35b2d04 100644
--- a/electrode/polygons.py
+++ b/electrode/polygons.py
@@ -731,7 +731,7 @@ def square_pads(step=10., edge=200., odd=False, start_corner=0):
     """
     n = int(edge/step)
     if odd:
-        n += (n % 2) + 1
+        n += (n + 1) % 2
     p = np.arange(-n/2.+.5, n/2.+.5)*step
     assert len(p) == n, (p, n)
     # top left as origin is common for packages
-- 
2.43.0


From a0677a115d6a6217db0611be6046e67cc60cbd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:39 +0000
Subject: [PATCH 39/77] fix: Polygons.from_data drops the lines and points
 where polygons only touch the square

---
 electrode/polygons.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/electrode/polygons.py b/electrode/polygons.py
index 35b2d04..f64946a 100644
--- a/electrode/polygons.py
+++ b/electrode/polygons.py
@@ -26,7 +26,6 @@ import operator
 import numpy as np
 from scipy.interpolate import splprep, splev
 from shapely import geometry, ops
-from shapely.geometry import MultiPolygon
 from gdsii import library, structure, elements
 
 from .system import System
@@ -72,6 +71,15 @@ def smooth(x, y, smoothing=1., straight=None, corner=None, straight_tol=1e-6,
     return xn, yn
 
 
+def areas(geom):
+    """Drops lines and points from the result of a shapely operation."""
+    if geom.type in ("Polygon", "MultiPolygon"):
+        return geom
+    geom = ops.unary_union([_ for _ in getattr(geom, "geoms", [])
+                            if _.type in ("Polygon", "MultiPolygon")])
+    return geometry.MultiPolygon() if geom.is_empty else geom
+
+
 class Polygons(list):
     """A simple representations of polygonal electrode data (two
     dimensional).
@@ -307,13 +315,13 @@ class Polygons(list):
         if routes and bridges:
             bridges = geometry.MultiLineString(bridges)
             for poly in ops.polygonize(routes.union(bridges)):
-                field = field.union(poly.intersection(field0))
+                field = field.union(areas(poly.intersection(field0)))
         # field = field.buffer(0, 1)
         for name, poly in polys:
             for poly in ops.polygonize([poly]):
                 assert poly.is_valid, poly
                 poly = geometry.polygon.orient(poly, 1)
-                poly = poly.intersection(field0)
+                poly = areas(poly.intersection(field0))
                 fragments.append((name, poly))
                 field = field.difference(poly)
         if routes:
@@ -691,14 +699,7 @@ class Polygons(list):
         """
         p = Polygons()
         for name, multipoly in self:
-            multipoly = multipoly.intersection(geometry)
-            if multipoly.type not in ("Polygon", "MultiPolygon"):
-                multipoly = ops.unary_union([
-                    _ for _ in getattr(multipoly, "geoms", [])
-                    if _.type in ("Polygon", "MultiPolygon")])
-                if multipoly.is_empty:
-                    multipoly = MultiPolygon()
-            p.append((name, multipoly))
+            p.append((name, areas(multipoly.intersection(geometry))))
         return p
 
     def within(self, edge=50):
-- 
2.43.0


From cc25d46ba853b8a21a5d3669c8da23991095b48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:59 +0000
Subject: [PATCH 40/77] fix: rotation_from_matrix finds the axis of rotations
 by small angles

---
 electrode/transformations.py | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/electrode/transformations.py b/electrode/transformations.py
index 80d92a8..a02c528 100644
--- a/electrode/transformations.py
+++ b/electrode/transformations.py
@@ -359,27 +359,23 @@ def rotation_from_matrix(matrix):
     R = numpy.array(matrix, dtype=numpy.float64, copy=False)
     R33 = R[:3, :3]
     # direction: unit eigenvector of R33 corresponding to eigenvalue of 1
+    # (for small angles the other two have a real part of almost 1)
     w, W = numpy.linalg.eig(R33.T)
-    i = numpy.where(abs(numpy.real(w) - 1.0) < 1e-8)[0]
-    if not len(i):
+    i = numpy.argmin(abs(w - 1.0))
+    if abs(w[i] - 1.0) > 1e-8:
         raise ValueError("no unit eigenvector corresponding to eigenvalue 1")
-    direction = numpy.real(W[:, i[-1]]).squeeze()
-    # point: unit eigenvector of R33 corresponding to eigenvalue of 1
-    w, Q = numpy.linalg.eig(R)
-    i = numpy.where(abs(numpy.real(w) - 1.0) < 1e-8)[0]
-    if not len(i):
-        raise ValueError("no unit eigenvector corresponding to eigenvalue 1")
-    point = numpy.real(Q[:, i[-1]]).squeeze()
-    point /= point[3]
+    direction = unit_vector(numpy.real(W[:, i]))
     # rotation angle depending on direction
     cosa = (numpy.trace(R33) - 1.0) / 2.0
-    if abs(direction[2]) > 1e-8:
-        sina = (R[1, 0] + (cosa-1.0)*direction[0]*direction[1]) / direction[2]
-    elif abs(direction[1]) > 1e-8:
-        sina = (R[0, 2] + (cosa-1.0)*direction[0]*direction[2]) / direction[1]
-    else:
-        sina = (R[2, 1] + (cosa-1.0)*direction[1]*direction[2]) / direction[0]
+    sina = numpy.dot(direction, [R33[2, 1] - R33[1, 2],
+                                 R33[0, 2] - R33[2, 0],
+                                 R33[1, 0] - R33[0, 1]]) / 2.0
     angle = math.atan2(sina, cosa)
+    # point: the one on the axis that is closest to the origin
+    point = numpy.array([0.0, 0.0, 0.0, 1.0])
+    if sina or cosa < 0.0:
+        point[:3] = (R[:3, 3] + numpy.cross(direction, R[:3, 3]) /
+                     math.tan(angle/2.0)) / 2.0
     return angle, direction, point
 
 
-- 
2.43.0


From ea7d8e488fd6f8d33dc1ac3e2eabe3b70c3c13f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:37 +0000
Subject: [PATCH 41/77] fix: shear_from_matrix finds direction, normal and a
 finite point on the plane

---
 electrode/transformations.py | 36 ++++++++++--------------------------
 1 file changed, 10 insertions(+), 26 deletions(-)

diff --git a/electrode/transformations.py b/electrode/transformations.py
index a02c528..fec2015 100644
--- a/electrode/transformations.py
+++ b/electrode/transformations.py
@@ -688,32 +688,16 @@ def shear_from_matrix(matrix):
     """
     M = numpy.array(matrix, dtype=numpy.float64, copy=False)
     M33 = M[:3, :3]
-    # normal: cross independent eigenvectors corresponding to the eigenvalue 1
-    w, V = numpy.linalg.eig(M33)
-    i = numpy.where(abs(numpy.real(w) - 1.0) < 1e-4)[0]
-    if len(i) < 2:
-        raise ValueError("no two linear independent eigenvectors found %s" % w)
-    V = numpy.real(V[:, i]).squeeze().T
-    lenorm = -1.0
-    for i0, i1 in ((0, 1), (0, 2), (1, 2)):
-        n = numpy.cross(V[i0], V[i1])
-        w = vector_norm(n)
-        if w > lenorm:
-            lenorm = w
-            normal = n
-    normal /= lenorm
-    # direction and angle
-    direction = numpy.dot(M33 - numpy.identity(3), normal)
-    angle = vector_norm(direction)
-    direction /= angle
-    angle = math.atan(angle)
-    # point: eigenvector corresponding to eigenvalue 1
-    w, V = numpy.linalg.eig(M)
-    i = numpy.where(abs(numpy.real(w) - 1.0) < 1e-8)[0]
-    if not len(i):
-        raise ValueError("no eigenvector corresponding to eigenvalue 1")
-    point = numpy.real(V[:, i[-1]]).squeeze()
-    point /= point[3]
+    # M33 - I is the outer product of tan(angle)*direction and normal
+    u, w, vh = numpy.linalg.svd(M33 - numpy.identity(3))
+    if w[0] == 0.0 or w[1] > 1e-8*(1.0 + w[0]):
+        raise ValueError("not a shear matrix %s" % w)
+    direction = u[:, 0]
+    normal = vh[0]
+    angle = math.atan(w[0])
+    # point: the one on the shear plane that is closest to the origin
+    point = numpy.array([0.0, 0.0, 0.0, 1.0])
+    point[:3] = -numpy.dot(direction, M[:3, 3]) / w[0] * normal
     return angle, direction, point, normal
 
 
-- 
2.43.0


From 1d01f1438f516d64a67e1bc9f8542f7873b31056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:11 +0000
Subject: [PATCH 42/77] fix: projection_from_matrix recovers perspective
 projections in all positions

---
 electrode/transformations.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/electrode/transformations.py b/electrode/transformations.py
index fec2015..88f8b53 100644
--- a/electrode/transformations.py
+++ b/electrode/transformations.py
@@ -552,7 +552,7 @@ def projection_from_matrix(matrix, pseudo=False):
     M33 = M[:3, :3]
     w, V = numpy.linalg.eig(M)
     i = numpy.where(abs(numpy.real(w) - 1.0) < 1e-8)[0]
-    if not pseudo and len(i):
+    if not pseudo and len(i) and not numpy.any(abs(M[3, :3]) > 1e-8):
         # point: any eigenvector corresponding to eigenvalue 1
         point = numpy.real(V[:, i[-1]]).squeeze()
         point /= point[3]
@@ -576,16 +576,19 @@ def projection_from_matrix(matrix, pseudo=False):
             return point, direction, None, None, False
     else:
         # perspective projection
-        i = numpy.where(abs(numpy.real(w)) > 1e-8)[0]
-        if not len(i):
-            raise ValueError(
-                "no eigenvector not corresponding to eigenvalue 0")
-        point = numpy.real(V[:, i[-1]]).squeeze()
-        point /= point[3]
         normal = - M[3, :3]
-        perspective = M[:3, 3] / numpy.dot(point[:3], normal)
+        n = numpy.dot(normal, normal)
+        if n < _EPS:
+            raise ValueError("no perspective projection")
+        # M33 maps vectors within the plane to their multiple by the distance
+        # of the perspective point from the plane
+        dist = (numpy.trace(M33) + M[3, 3] + (n if pseudo else 0.0)) / 3.0
+        perspective = normal*(dist/n) - numpy.dot(M33, normal)/n
         if pseudo:
             perspective -= normal
+        # point: the one on the plane that is closest to the perspective point
+        point = numpy.ones(4)
+        point[:3] = perspective - normal*(dist/n)
         return point, normal, None, perspective, pseudo
 
 
-- 
2.43.0


From af9fdbc0f537affd6a3183acab7f8a844f4bdfe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:57 +0000
Subject: [PATCH 43/77] fix: decompose_matrix recovers the angles at gimbal
 lock

---
 electrode/transformations.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/electrode/transformations.py b/electrode/transformations.py
index 88f8b53..6d8732a 100644
--- a/electrode/transformations.py
+++ b/electrode/transformations.py
@@ -777,14 +777,12 @@ def decompose_matrix(matrix):
         numpy.negative(scale, scale)
         numpy.negative(row, row)
 
-    angles[1] = math.asin(-row[0, 2])
-    if math.cos(angles[1]):
-        angles[0] = math.atan2(row[1, 2], row[2, 2])
-        angles[2] = math.atan2(row[0, 1], row[0, 0])
-    else:
-        # angles[0] = math.atan2(row[1, 0], row[1, 1])
-        angles[0] = math.atan2(-row[2, 1], row[1, 1])
-        angles[2] = 0.0
+    # angles[2] follows from angles[0], also if these are about the same axis
+    angles[0] = math.atan2(row[1, 2], row[2, 2])
+    angles[1] = math.atan2(-row[0, 2], math.hypot(row[0, 0], row[0, 1]))
+    s, c = math.sin(angles[0]), math.cos(angles[0])
+    angles[2] = math.atan2(s*row[2, 0] - c*row[1, 0],
+                           c*row[1, 1] - s*row[2, 1])
 
     return scale, shear, angles, translate, perspective
 
-- 
2.43.0


From 629fd3231c059a6b91a2f56b94fe96b2d37e8b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:38 +0000
Subject: [PATCH 44/77] fix: euler_from_matrix is accurate close to gimbal lock

---
 electrode/transformations.c  | 6 ++++--
 electrode/transformations.py | 7 +++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/electrode/transformations.c b/electrode/transformations.c
index 5162867..36e6b82 100644
--- a/electrode/transformations.c
+++ b/electrode/transformations.c
@@ -2379,7 +2379,8 @@ py_euler_from_matrix(
             if (t > EPSILON) {
                 ai = atan2( M[4*i+j],  M[4*i+k]);
                 aj = atan2( t,         M[4*i+i]);
-                ak = atan2( M[4*j+i], -M[4*k+i]);
+                ak = atan2(cos(ai)*M[4*k+j] - sin(ai)*M[4*k+k],
+                           cos(ai)*M[4*j+j] - sin(ai)*M[4*j+k]);
             } else {
                 ai = atan2(-M[4*j+k],  M[4*j+j]);
                 aj = atan2( t,         M[4*i+i]);
@@ -2391,7 +2392,8 @@ py_euler_from_matrix(
             if (t > EPSILON) {
                 ai = atan2( M[4*k+j],  M[4*k+k]);
                 aj = atan2(-M[4*k+i],  t);
-                ak = atan2( M[4*j+i],  M[4*i+i]);
+                ak = atan2(sin(ai)*M[4*i+k] - cos(ai)*M[4*i+j],
+                           cos(ai)*M[4*j+j] - sin(ai)*M[4*j+k]);
             } else {
                 ai = atan2(-M[4*j+k],  M[4*j+j]);
                 aj = atan2(-M[4*k+i],  t);
diff --git a/electrode/transformations.py b/electrode/transformations.py
index 6d8732a..d414ff2 100644
--- a/electrode/transformations.py
+++ b/electrode/transformations.py
@@ -1125,7 +1125,9 @@ def euler_from_matrix(matrix, axes='sxyz'):
         if sy > _EPS:
             ax = math.atan2( M[i, j],  M[i, k])
             ay = math.atan2( sy,       M[i, i])
-            az = math.atan2( M[j, i], -M[k, i])
+            # also accurate close to gimbal lock
+            sx, cx = math.sin(ax), math.cos(ax)
+            az = math.atan2(cx*M[k, j] - sx*M[k, k], cx*M[j, j] - sx*M[j, k])
         else:
             ax = math.atan2(-M[j, k],  M[j, j])
             ay = math.atan2( sy,       M[i, i])
@@ -1135,7 +1137,8 @@ def euler_from_matrix(matrix, axes='sxyz'):
         if cy > _EPS:
             ax = math.atan2( M[k, j],  M[k, k])
             ay = math.atan2(-M[k, i],  cy)
-            az = math.atan2( M[j, i],  M[i, i])
+            sx, cx = math.sin(ax), math.cos(ax)
+            az = math.atan2(sx*M[i, k] - cx*M[i, j], cx*M[j, j] - sx*M[j, k])
         else:
             ax = math.atan2(-M[j, k],  M[j, j])
             ay = math.atan2(-M[k, i],  cy)
-- 
2.43.0


From ea37d33d4988d18944c4cd654eff863f78dd54dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:45 +0000
Subject: [PATCH 45/77] fix: the compiled scale_matrix normalizes the direction
 like the Python one

---
 electrode/transformations.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/electrode/transformations.c b/electrode/transformations.c
index 36e6b82..b658a47 100644
--- a/electrode/transformations.c
+++ b/electrode/transformations.c
@@ -1584,6 +1584,10 @@ py_scale_matrix(
             double dx = d[0];
             double dy = d[1];
             double dz = d[2];
+            double n = sqrt(dx*dx + dy*dy + dz*dz);
+            dx /= n;
+            dy /= n;
+            dz /= n;
             factor = 1.0 - factor;
             M[0]  = 1.0 - factor * dx*dx;
             M[5]  = 1.0 - factor * dy*dy;
-- 
2.43.0


From b97362d7076b0af3aca1cab4845880247fcbc4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:33 +0000
Subject: [PATCH 46/77] fix: the compiled quaternion_matrix does not normalize
 its argument in place

---
 electrode/transformations.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/transformations.c b/electrode/transformations.c
index b658a47..711d386 100644
--- a/electrode/transformations.c
+++ b/electrode/transformations.c
@@ -676,7 +676,7 @@ int quaternion_matrix(
     double *matrix)  /* double[16] */
 {
     double *M = matrix;
-    double *q = quat;
+    double q[4] = {quat[0], quat[1], quat[2], quat[3]};
     double n = sqrt(q[0]*q[0] + q[1]*q[1] + q[2]*q[2] + q[3]*q[3]);
 
     if (n < EPSILON) {
-- 
2.43.0


From 31fafb89f1a352be2af6376db10da3c81f98bb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:33 +0000
Subject: [PATCH 47/77] fix: the compiled quaternion_slerp extrapolates to
 fraction -1

---
 electrode/transformations.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/transformations.c b/electrode/transformations.c
index 711d386..6445de4 100644
--- a/electrode/transformations.c
+++ b/electrode/transformations.c
@@ -2941,7 +2941,7 @@ py_quaternion_slerp(
             goto _fail;
         }
 
-        if (fabs(fabs(fraction) - 1.0) < EPSILON) {
+        if (fabs(fraction - 1.0) < EPSILON) {
             q[0] = q1[0] / n;
             q[1] = q1[1] / n;
             q[2] = q1[2] / n;
-- 
2.43.0


From db03b2b79f3805cb98fb387c131d1bbe63e17a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:46 +0000
Subject: [PATCH 48/77] fix: the compiled inverse_matrix inverts matrices with
 small determinants

scale_matrix(1e-6) was called singular. The Python version inverts it.
---
 electrode/transformations.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/electrode/transformations.c b/electrode/transformations.c
index 6445de4..7fcec13 100644
--- a/electrode/transformations.c
+++ b/electrode/transformations.c
@@ -396,7 +396,7 @@ int invert_matrix22(
 {
     double det = matrix[0]*matrix[3] - matrix[1]*matrix[2];
 
-    if (ISZERO(det))
+    if (det == 0.0)
         return -1;
 
     result[0] = matrix[3] / det;
@@ -430,7 +430,7 @@ int invert_matrix33(
 
     det = M[0]*result[0] + M[3]*result[1] + M[6]*result[2];
 
-    if (ISZERO(det))
+    if (det == 0.0)
         return -1;
 
     det = 1.0 / det;
@@ -514,7 +514,7 @@ int invert_matrix44(
 
     det = M[0]*result[0] + M[4]*result[1] + M[8]*result[2] + M[12]*result[3];
 
-    if (ISZERO(det))
+    if (det == 0.0)
         return -1;
 
     det = 1.0 / det;
@@ -573,7 +573,7 @@ int invert_matrix(
         }
 
         /* test for singular matrix */
-        if (fabs(M[ksk]) < PIVOT_TOLERANCE)
+        if (M[ksk] == 0.0)
             return -1;
 
         /* elimination */
@@ -591,6 +591,9 @@ int invert_matrix(
         }
     }
 
+    if (M[size*size - 1] == 0.0)
+        return -1;
+
     /* Backward substitution with identity matrix */
     memset(result, 0, size*size*sizeof(double));
     for (i = 0; i < size; i++) {
@@ -3196,7 +3199,7 @@ py_inverse_matrix(
                 error = invert_matrix22(M, Minv);
                 break;
             case 1:
-                error = ISZERO(M[0]);
+                error = (M[0] == 0.0);
                 if (error == 0)
                     Minv[0] = 1.0 / M[0];
                 break;
-- 
2.43.0


From 64e07311de1e805535c0ed50aa80f15e766494d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:46 +0000
Subject: [PATCH 49/77] fix: the compiled inverse_matrix does not modify the
 memory of its argument

The array converted from it may share the memory.
---
 electrode/transformations.c | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/electrode/transformations.c b/electrode/transformations.c
index 7fcec13..cc1a3da 100644
--- a/electrode/transformations.c
+++ b/electrode/transformations.c
@@ -3158,7 +3158,6 @@ py_inverse_matrix(
     Py_ssize_t dims[2];
     Py_ssize_t size = 0;
     static char *kwlist[] = {"matrix", NULL};
-    int iscopy = 0;
 
     if (!PyArg_ParseTupleAndKeywords(args, kwds, "O", kwlist, &object))
         goto _fail;
@@ -3169,7 +3168,6 @@ py_inverse_matrix(
         PyErr_Format(PyExc_ValueError, "not an array");
         goto _fail;
     }
-    iscopy = ((PyObject *)matrix != object);
 
     size = PyArray_DIM(matrix, 0);
     if ((size != PyArray_DIM(matrix, 1)) || (size < 1)) {
@@ -3205,21 +3203,16 @@ py_inverse_matrix(
                 break;
             default: {
                 void *buffer;
-                if (iscopy)
-                    buffer = PyMem_Malloc(size*2*sizeof(Py_ssize_t));
-                else
-                    buffer = PyMem_Malloc(size*2*sizeof(Py_ssize_t) +
-                                          size*size*sizeof(double));
+                buffer = PyMem_Malloc(size*2*sizeof(Py_ssize_t) +
+                                      size*size*sizeof(double));
                 if (buffer == NULL) {
                     PyErr_Format(PyExc_MemoryError,
                         "unable to allocate buffer");
                     goto _fail;
                 }
-                if (!iscopy) {
-                    M = (double *)((Py_ssize_t *)buffer + 2*size);
-                    memcpy(M, (double *)PyArray_DATA(matrix),
-                           size*size*sizeof(double));
-                }
+                M = (double *)((Py_ssize_t *)buffer + 2*size);
+                memcpy(M, (double *)PyArray_DATA(matrix),
+                       size*size*sizeof(double));
                 Py_BEGIN_ALLOW_THREADS
                 error = invert_matrix(size, M, Minv, (Py_ssize_t *)buffer);
                 Py_END_ALLOW_THREADS
-- 
2.43.0


From fcd04d8bbf1af3fa2deda4ee45e05179d3325307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:46 +0000
Subject: [PATCH 50/77] fix: the compiled arcball_constrain_to_axis stays on
 the visible hemisphere

like the Python version.
---
 electrode/transformations.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/electrode/transformations.c b/electrode/transformations.c
index cc1a3da..2da391e 100644
--- a/electrode/transformations.c
+++ b/electrode/transformations.c
@@ -3364,6 +3364,8 @@ py_arcball_constrain_to_axis(
         n = sqrt(v[0]*v[0] + v[1]*v[1] + v[2]*v[2]);
 
         if (n > EPSILON) {
+            if (v[2] < 0.0)
+                n = -n;
             v[0] /= n;
             v[1] /= n;
             v[2] /= n;
-- 
2.43.0


From 6ea5ec6f7049e1fd6f771eeb2a0574fc275c7f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:46 +0000
Subject: [PATCH 51/77] fix: arcball_constrain_to_axis finds a perpendicular to
 the axis (0, 0, -1)

It was nan for the point on the axis.
---
 electrode/transformations.c  | 2 +-
 electrode/transformations.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/electrode/transformations.c b/electrode/transformations.c
index 2da391e..e0bc118 100644
--- a/electrode/transformations.c
+++ b/electrode/transformations.c
@@ -3369,7 +3369,7 @@ py_arcball_constrain_to_axis(
             v[0] /= n;
             v[1] /= n;
             v[2] /= n;
-        } else if (a[2] == 1.0) {
+        } else if (fabs(a[2]) == 1.0) {
             v[0] = 1.0;
             v[1] = 0.0;
             v[2] = 0.0;
diff --git a/electrode/transformations.py b/electrode/transformations.py
index d414ff2..51d54a2 100644
--- a/electrode/transformations.py
+++ b/electrode/transformations.py
@@ -1631,7 +1631,7 @@ def arcball_constrain_to_axis(point, axis):
             numpy.negative(v, v)
         v /= n
         return v
-    if a[2] == 1.0:
+    if abs(a[2]) == 1.0:
         return numpy.array([1.0, 0.0, 0.0])
     return unit_vector([-a[1], a[0], 0.0])
 
-- 
2.43.0


From 2c07c1907275b42b1107373842f8731876bf0622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:46 +0000
Subject: [PATCH 52/77] fix: angle_between_vectors of parallel vectors is not
 nan by rounding errors

---
 electrode/transformations.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/electrode/transformations.py b/electrode/transformations.py
index 51d54a2..addfd30 100644
--- a/electrode/transformations.py
+++ b/electrode/transformations.py
@@ -1816,6 +1816,8 @@ def angle_between_vectors(v0, v1, directed=True, axis=0):
     v1 = numpy.array(v1, dtype=numpy.float64, copy=False)
     dot = numpy.sum(v0 * v1, axis=axis)
     dot /= vector_norm(v0, axis=axis) * vector_norm(v1, axis=axis)
+    # rounding errors
+    dot = numpy.clip(dot, -1.0, 1.0)
     return numpy.arccos(dot if directed else numpy.fabs(dot))
 
 
-- 
2.43.0


From 70357e51524190bdcc266335a8ef8169ef117b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:46 +0000
Subject: [PATCH 53/77] fix: Arcball.setaxes() without axes removes the
 constraint axes

Dragging failed with an empty list of axes.
---
 electrode/transformations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/transformations.py b/electrode/transformations.py
index addfd30..d59e904 100644
--- a/electrode/transformations.py
+++ b/electrode/transformations.py
@@ -1559,7 +1559,7 @@ class Arcball(object):
 
     def setaxes(self, *axes):
         """Set axes to constrain rotations."""
-        if axes is None:
+        if not axes:
             self._axes = None
         else:
             self._axes = [unit_vector(axis) for axis in axes]
-- 
2.43.0


From 5d1d92a150768871bf77d19e353559baa4134fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:21 +0000
Subject: [PATCH 54/77] fix: unit_vector accepts an axis together with an
 output vector

---
 electrode/transformations.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/electrode/transformations.py b/electrode/transformations.py
index d59e904..34f6ecf 100644
--- a/electrode/transformations.py
+++ b/electrode/transformations.py
@@ -1743,10 +1743,8 @@ def unit_vector(data, axis=None, out=None):
         if out is not data:
             out[:] = numpy.array(data, copy=False)
         data = out
-    length = numpy.atleast_1d(numpy.sum(data*data, axis))
-    numpy.sqrt(length, length)
-    if axis is not None:
-        length = numpy.expand_dims(length, axis)
+    length = numpy.sqrt(numpy.sum(data*data, axis,
+                                  keepdims=axis is not None))
     data /= length
     if out is None:
         return data
-- 
2.43.0


From 9ad91828163dcb640175a5f45b04bca9b81abdca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:42 +0000
Subject: [PATCH 55/77] fix: Adjust.set_move_init finds the axial mode
 whichever way its vector points

---
 electrode/adjust.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/electrode/adjust.py b/electrode/adjust.py
index 061a9e0..154008b 100644
--- a/electrode/adjust.py
+++ b/electrode/adjust.py
@@ -44,7 +44,8 @@ class Adjust():
 		evalue, evector = self.system.modes(xm)
 		if axis_order is None:
 			# sort according to the x coordinate of eigenvectors. [::-1] in acsending order
-			axis_order = evector[0].argsort()[::-1]
+			# whichever way they point
+			axis_order = np.abs(evector[0]).argsort()[::-1]
 		evalue, evector = evalue[axis_order], evector[:,axis_order].T
 		self.curves, self.basis = [evalue], evector
 		ax_check = [(ax, ev) for ax, ev in zip("axial radial1 radial2".split(), evector)]
-- 
2.43.0


From bb473836fe2f2a56bd5b68a1377324de2b0859ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:42 +0000
Subject: [PATCH 56/77] fix: Adjust.xm_freq_change compares each mode with the
 same one of the start

It did not keep to the given axis_order, and compared vectors of
arbitrary sign.
---
 electrode/adjust.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/electrode/adjust.py b/electrode/adjust.py
index 154008b..9a7b2d3 100644
--- a/electrode/adjust.py
+++ b/electrode/adjust.py
@@ -13,6 +13,7 @@ import copy
 import numpy as np
 from scipy import constants as ct
 from scipy.linalg import solve as scipy_solve
+from scipy.optimize import linear_sum_assignment
 
 
 class Adjust():
@@ -124,8 +125,11 @@ class Adjust():
 		xm_new = self.system.minimum(xm_old+0.01, method="Nelder-Mead")    # add +0.01 to aviod precision loss
 		xm_offset = xm_new-xm_old
 		evalue, evector = self.system.modes(xm_new)
-		axis_order = evector[0].argsort()[::-1]		# sort evector x
+		# the modes in the order and direction of the bases
+		overlap = np.dot(self.basis, evector)
+		axis_order = linear_sum_assignment(-np.abs(overlap))[1]
 		evalue, evector = evalue[axis_order], evector[:,axis_order].T
+		evector = evector*np.where(np.sum(evector*self.basis, axis=1) < 0, -1, 1)[:,None]
 		freq_change = np.sqrt(evalue)-np.sqrt(self.curves[0])
 		vec_change = evector-self.basis
 		return xm_new, xm_offset, evalue, freq_change, vec_change	# They haven't scaled by l or m/q.
-- 
2.43.0


From d1ebfa10c883238a4a55974e076e7a1cb05d7a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:13 +0000
Subject: [PATCH 57/77] fix: area_centroid of lists, integers and polygons far
 from the origin

---
 electrode/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/electrode/utils.py b/electrode/utils.py
index 0412c83..9d1c06e 100644
--- a/electrode/utils.py
+++ b/electrode/utils.py
@@ -525,11 +525,15 @@ def area_centroid(p1):
         Centroid of the polygon area. Not necessarily inside the
         polygon.
     """
+    # relative to the first vertex, as far from the origin the differences
+    # of large products would lose precision
+    p0 = np.array(p1[0], np.double)
+    p1 = np.asarray(p1, np.double) - p0
     p2 = np.roll(p1, -1, axis=0)
     r = p1[:, 0]*p2[:, 1] - p2[:, 0]*p1[:, 1]
     a = r.sum(0)/2.
     c = ((p1 + p2)*r[:, None]).sum(0)/(6*a)
-    return a, c
+    return a, c + p0
 
 
 def mathieu(r, *a):
-- 
2.43.0


From 8669d4c5179b3134bca8df88b8e4b6953d1bd567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:36 +0000
Subject: [PATCH 58/77] fix: System.plot_contour of potentials below zero

---
 electrode/system.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/electrode/system.py b/electrode/system.py
index 75af453..3f4cfa9 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -446,8 +446,11 @@ class System(list):
                 "Use a smaller divide_max.\n")
         kwargs.setdefault('levels',np.linspace(mincl, maxcl, line_num))
         # kwargs.setdefault('cmap',plt.cm.Blues)
-        # vmin = maxcl/2 can have a better colormap contrast.
-        kwargs.setdefault('vmin',maxcl/2)
+        # vmin = maxcl/2 can have a better colormap contrast (unless all
+        # levels are below, as those of negative potentials).
+        levels = kwargs['levels']
+        if maxcl/2 < (np.mean(levels[-2:]) if np.iterable(levels) else maxp):
+            kwargs.setdefault('vmin',maxcl/2)
         ax.set_xlabel(axlb[slc][0]+'/l',fontsize=12)
         ax.set_ylabel(axlb[slc][1]+'/l',fontsize=12)
         if fill == True:
-- 
2.43.0


From f9aadc1d4efcb174cf11a6c243d8f67e4aefef50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:50 +0000
Subject: [PATCH 59/77] fix: Polygons.to_gds rounds the gap width to the
 database unit

Truncation made most widths one database unit too small, e.g. 0.1 um at
1 nm became 99 nm.
---
 electrode/polygons.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/polygons.py b/electrode/polygons.py
index f64946a..7b60fbe 100644
--- a/electrode/polygons.py
+++ b/electrode/polygons.py
@@ -439,7 +439,7 @@ class Polygons(list):
                 #xy = np.r_[xy, xy[:1]]
                 p = elements.Path(layer=gap_layer[0],
                                   data_type=gap_layer[1], xy=xy)
-                p.width = int(gap_width*scale/phys_unit)
+                p.width = int(np.around(gap_width*scale/phys_unit))
                 stru.append(p)
         return lib
 
-- 
2.43.0


From 05be52467ca787ca55ee417aabd1dbce4526480e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:51 +0000
Subject: [PATCH 60/77] fix: Polygons.remove_overlaps subtracts the preceding
 electrodes themselves

Subtracting the computed intersection, whose vertices are rounded, made GEOS
leave part of the overlap in about one of a thousand cases.
---
 electrode/polygons.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/polygons.py b/electrode/polygons.py
index 7b60fbe..20d256f 100644
--- a/electrode/polygons.py
+++ b/electrode/polygons.py
@@ -469,7 +469,7 @@ class Polygons(list):
         for ni, pi in self:
             pa = acc.intersection(pi)
             if pa.is_valid and pa.area > np.finfo(np.float32).eps:
-                pc = pi.difference(pa)
+                pc = pi.difference(acc)
                 if pc.is_valid:
                     pi = pc
             acca = acc.union(pi)
-- 
2.43.0


From bf85e7f8c80b31977eb5213db45697a317dea8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:23 +0000
Subject: [PATCH 61/77] fix: Polygons.remove_overlaps removes the overlaps of
 small electrodes

An overlap counted only if it was larger than 1.2e-7, whatever the unit of
length: nothing was removed from a layout in meters.
---
 electrode/polygons.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/electrode/polygons.py b/electrode/polygons.py
index 20d256f..7565d9a 100644
--- a/electrode/polygons.py
+++ b/electrode/polygons.py
@@ -468,7 +468,8 @@ class Polygons(list):
         acc = geometry.Point()
         for ni, pi in self:
             pa = acc.intersection(pi)
-            if pa.is_valid and pa.area > np.finfo(np.float32).eps:
+            if (pa.is_valid and
+                    pa.area > np.finfo(np.float32).eps*min(1., pi.area)):
                 pc = pi.difference(acc)
                 if pc.is_valid:
                     pi = pc
-- 
2.43.0


From 9e5c31ba47dffb8c97605cbb1014095d77c183fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:45 +0000
Subject: [PATCH 62/77] fix: superimposition_matrix (compiled) registers point
 sets of any size

---
 electrode/transformations.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/electrode/transformations.c b/electrode/transformations.c
index e0bc118..877010f 100644
--- a/electrode/transformations.c
+++ b/electrode/transformations.c
@@ -1913,6 +1913,15 @@ py_superimposition_matrix(
             N[6]  = N[9]  = xy + yx;
             N[7]  = N[13] = zx + xz;
             N[11] = N[14] = yz + zy;
+
+            /* the eigenvector does not depend on the scale of the points */
+            xx = 0.0;
+            for (i = 0; i < 16; i++)
+                xx = MAX(xx, fabs(N[i]));
+            if (xx > 0.0) {
+                for (i = 0; i < 16; i++)
+                    N[i] /= xx;
+            }
         }
         /* quaternion q: eigenvector corresponding to most positive */
         /* eigenvalue of N. */
-- 
2.43.0


From 270c91e9d421db7b7d9c09769bd8534ec6b6ab78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:45 +0000
Subject: [PATCH 63/77] fix: quaternion_from_matrix (compiled) accepts matrices
 of any scale

---
 electrode/transformations.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/electrode/transformations.c b/electrode/transformations.c
index 877010f..37258a7 100644
--- a/electrode/transformations.c
+++ b/electrode/transformations.c
@@ -2661,6 +2661,15 @@ py_quaternion_from_matrix(
         K[7] = K[13] = (M[2] - M[8]) / 3.0;
         K[11] = K[14] = (M[4] - M[1]) / 3.0;
 
+        /* the eigenvector does not depend on the scale of the matrix */
+        l = 0.0;
+        for (i = 0; i < 16; i++)
+            l = MAX(l, fabs(K[i]));
+        if (l > 0.0) {
+            for (i = 0; i < 16; i++)
+                K[i] /= l;
+        }
+
         _save = PyEval_SaveThread();
 
         /* quaternion q: eigenvector corresponding to most positive */
-- 
2.43.0


From b44cc798874c01c6eeb35323a04d01a27557f75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:45 +0000
Subject: [PATCH 64/77] fix: quaternion_inverse (compiled) accepts small
 quaternions

---
 electrode/transformations.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/transformations.c b/electrode/transformations.c
index 37258a7..f0cfbe8 100644
--- a/electrode/transformations.c
+++ b/electrode/transformations.c
@@ -2884,7 +2884,7 @@ py_quaternion_inverse(
         double *q = (double *)PyArray_DATA(quaternion);
         double n = q[0]*q[0] + q[1]*q[1] + q[2]*q[2] + q[3]*q[3];
 
-        if (n < EPSILON) {
+        if (n < EPSILON*EPSILON) {
             PyErr_Format(PyExc_ValueError, "not a valid quaternion");
             goto _fail;
         }
-- 
2.43.0


From 933e4f9b47db7072d0cadbc9bf94de5df6aee203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:45 +0000
Subject: [PATCH 65/77] fix: quaternion_matrix accepts small quaternions

---
 electrode/transformations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/transformations.py b/electrode/transformations.py
index 34f6ecf..1a7c5a0 100644
--- a/electrode/transformations.py
+++ b/electrode/transformations.py
@@ -1251,7 +1251,7 @@ def quaternion_matrix(quaternion):
     """
     q = numpy.array(quaternion, dtype=numpy.float64, copy=True)
     n = numpy.dot(q, q)
-    if n < _EPS:
+    if n < _EPS*_EPS:
         return numpy.identity(4)
     q *= math.sqrt(2.0 / n)
     q = numpy.outer(q, q)
-- 
2.43.0


From 9af959e0dfa8cd07f053d0cb6028808c9f69988e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:54 +0000
Subject: [PATCH 66/77] fix: SphericalHarmonics always samples 2*nmax azimuths

---
 electrode/spherical_harmonics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/spherical_harmonics.py b/electrode/spherical_harmonics.py
index 50d9446..3f8cb07 100644
--- a/electrode/spherical_harmonics.py
+++ b/electrode/spherical_harmonics.py
@@ -92,7 +92,7 @@ class SphericalHarmonics(object):
         self.theta = np.arccos(x)[:, None]
         # self.measure = np.sin(self.theta)
         self.weight = w[:, None]
-        self.phi = np.arange(0, 2 * np.pi, np.pi / nmax)[None, :]
+        self.phi = (np.pi / nmax * np.arange(2 * nmax))[None, :]
         self.n, self.m = np.empty((2, nmax, nmax), int)
         for n, m, p, q in self.indices():
             self.n[p, q], self.m[p, q] = n, m
-- 
2.43.0


From 591e2161c873a0df541a1773f62c4b11d8cfee78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:54 +0000
Subject: [PATCH 67/77] fix: SphericalHarmonics keeps the coefficients at high
 resolution

---
 electrode/spherical_harmonics.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/electrode/spherical_harmonics.py b/electrode/spherical_harmonics.py
index 3f8cb07..cafa9b9 100644
--- a/electrode/spherical_harmonics.py
+++ b/electrode/spherical_harmonics.py
@@ -96,13 +96,22 @@ class SphericalHarmonics(object):
         self.n, self.m = np.empty((2, nmax, nmax), int)
         for n, m, p, q in self.indices():
             self.n[p, q], self.m[p, q] = n, m
-        ptmn = np.array([special.lpmn(nmax - 1, nmax - 1, xi)[0] for xi in x])
+        # normalized recursion as neither the Legendre functions nor the
+        # factorials fit into a double at high resolution
         # scaling as in scipy.special.sph_harm
-        b = (2 * self.n + 1) / (4 * np.pi)
-        b *= special.gamma(self.n - np.absolute(self.m) + 1)
-        b /= special.gamma(self.n + np.absolute(self.m) + 1)
+        ptmn = np.zeros((nmax, nmax, nmax))
+        ptmn[:, 0, 0] = np.sqrt(1 / (4 * np.pi))
+        for n in range(1, nmax):
+            m = np.arange(n)
+            b = np.sqrt((4. * n**2 - 1) / (n**2 - m**2))
+            a = np.sqrt(((n - 1.)**2 - m**2).clip(0) / (4 * (n - 1.)**2 - 1)
+                        ) if n > 1 else 0.
+            ptmn[:, m, n] = b * (x[:, None] * ptmn[:, m, n - 1]
+                                 - a * ptmn[:, m, n - 2])
+            ptmn[:, n, n] = (-np.sqrt((2 * n + 1.) / (2 * n) * (1 - x**2))
+                             * ptmn[:, n - 1, n - 1])
         c = (-1.) ** np.where(self.m < 0, self.m, 0)
-        self.ptmn = np.sqrt(b) * c * ptmn[:, np.absolute(self.m), self.n]
+        self.ptmn = c * ptmn[:, np.absolute(self.m), self.n]
         # prepare weighted and measured ptmn for analysis()
         self.ptmnw = self.ptmn * (self.weight[:, :, None] * np.pi / nmax)
 
-- 
2.43.0


From 58425e14825dc8f7dbcb89bb9ebf79e66e0992eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:47 +0000
Subject: [PATCH 68/77] fix: rfo and System.saddle accept integer start points

The step was added in place to the matrix of integers: UFuncTypeError.
---
 electrode/saddle.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/electrode/saddle.py b/electrode/saddle.py
index eadc857..475f1e0 100644
--- a/electrode/saddle.py
+++ b/electrode/saddle.py
@@ -36,13 +36,13 @@ def rfo(fun, grad, x0, args=(),
     121, 20, (2004).
     """
 
-    x = np.matrix(x0).T.copy()
+    x = np.matrix(x0, np.double).T.copy()
     f = fun(np.array(x).ravel())
-    g = np.matrix(grad(np.array(x).ravel())).T
+    g = np.matrix(grad(np.array(x).ravel()), np.double).T
     if h is None:
         h = np.matrix(np.identity(x.size))
     else:
-        h = np.matrix(h)
+        h = np.matrix(h, np.double)
 
     d = np.ones((x.size,))
     d[0] *= -1
-- 
2.43.0


From 754c00debe7ae186fa0b77a5ee1b67b63bf91496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:47 +0000
Subject: [PATCH 69/77] fix: solver options of one voltage optimization do not
 affect later ones

Options passed to System.optimize(), System.solve() and System.shims()
were stored in the global options of cvxopt and stayed in effect for all
later calls.
---
 electrode/system.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/electrode/system.py b/electrode/system.py
index 3f4cfa9..843baca 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -717,8 +717,9 @@ class System(list):
 
     def _run_cvxopt(self, obj, ctrs, verbose=True, **kwargs):
         solver = cvxopt.modeling.op(obj, ctrs)
-        cvxopt.solvers.options.update(**kwargs)
-        cvxopt.solvers.options["show_progress"] = verbose
+        options = dict(cvxopt.solvers.options)
+        options.update(**kwargs)
+        options["show_progress"] = verbose
         if verbose:
             logger.info("variables: %i", sum(v._size
                     for v in solver.variables()))
@@ -726,7 +727,7 @@ class System(list):
                     for v in solver.inequalities()))
             logger.info("equalities: %i", sum(v.multiplier._size
                     for v in solver.equalities()))
-        solver.solve("sparse")
+        solver.solve("sparse", options=options)
         if not solver.status == "optimal":
             raise ValueError("solve failed: %s" % solver.status)
         return solver
-- 
2.43.0


From fb689784712d7e3dfa1941f81624700b4ff97db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:47 +0000
Subject: [PATCH 70/77] fix: Electrode.potential accepts any array_like
 positions

As its documentation says. Lists, integers, or single precision raised.
---
 electrode/electrode.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/electrode/electrode.py b/electrode/electrode.py
index ff5b1b7..c9f0322 100644
--- a/electrode/electrode.py
+++ b/electrode/electrode.py
@@ -154,6 +154,7 @@ class CoverElectrode(Electrode):
         self.height = height
 
     def potential(self, x, derivative=0, potential=1., out=None):
+        x = np.asanyarray(x, np.double)
         if out is None:
             out = np.zeros((x.shape[0], 2*derivative+1), np.double)
         if derivative == 0:
@@ -254,6 +255,7 @@ class PointPixelElectrode(SurfaceElectrode):
                     verticalalignment="center")
 
     def potential(self, x, derivative=0, potential=1., out=None):
+        x = np.asanyarray(x, np.double)
         return point_potential(x, self.points, self.areas, potential,
                 derivative, self.cover_nmax, self.cover_height, out)
 
@@ -323,6 +325,7 @@ class PolygonPixelElectrode(SurfaceElectrode):
         return e
 
     def potential(self, x, derivative=0, potential=1., out=None):
+        x = np.asanyarray(x, np.double)
         return polygon_potential(x, self.paths, potential, derivative,
                 self.cover_nmax, self.cover_height, out)
 
@@ -381,6 +384,7 @@ class MeshPixelElectrode(SurfaceElectrode):
                 potentials=potentials)
 
     def potential(self, x, derivative=0, potential=1., out=None):
+        x = np.asanyarray(x, np.double)
         return mesh_potential(x, self.points, self.edges, self.polygons,
                 self.potentials*potential, derivative,
                 self.cover_nmax, self.cover_height, out)
-- 
2.43.0


From 04bab3723d70dac1cf04211bb2ae5d8181dbb1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:47 +0000
Subject: [PATCH 71/77] fix: tensor utilities accept any array_like

As their documentation says. Lists raised AttributeError.
---
 electrode/utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/electrode/utils.py b/electrode/utils.py
index 9d1c06e..3baf0c5 100644
--- a/electrode/utils.py
+++ b/electrode/utils.py
@@ -95,6 +95,7 @@ def rotate_tensor(c, r, order=None):
     """
     #c = np.atleast_1d(c)
     #r = np.atleast_2d(r)
+    c = np.asanyarray(c)
     n = c.ndim - 1
     if order is None:
         order = n
@@ -324,6 +325,7 @@ def expand_tensor(c, order=None):
     d : array_like, shape (n, 3, ..., 3)
     """
     #c = np.atleast_2d(c)
+    c = np.asanyarray(c)
     if order is None:
         order = (c.shape[-1]-1)//2
     if order == 0:
@@ -388,6 +390,7 @@ def select_tensor(c, order=None):
         order of the tensor.
     """
     #c = np.atleast_1d(c)
+    c = np.asanyarray(c)
     n = c.ndim
     if order is None:
         order = n - 1 # nx, 3, ..., 3
@@ -423,6 +426,7 @@ def cartesian_to_spherical_harmonics(c):
         and ranges from `(-l...l)`.
     """
     #c = np.atleast_1d(c)
+    c = np.asanyarray(c)
     l = (c.shape[0] - 1)//2
     #n = 1/(factorial(l)*2**l*np.sqrt(np.pi/(2*l+1)))
     #n *= 4*np.pi*2**(l+1)/(l+1)*factorial(l+1)**2/factorial(2*l+2)
@@ -571,6 +575,7 @@ def mathieu(r, *a):
     * the eigenvalues and eigenvectors are not necessarily ordered
       (see numpy.linalg.eig())
     """
+    a = [np.atleast_2d(ai) for ai in a]
     n = a[0].shape[0]
     m = np.zeros((2*r+1, 2*r+1, 2, 2, n, n), dtype=np.complex128)
     for l in range(2*r+1):
-- 
2.43.0


From 1f325dba7346786e461300b3c25c1cd1f64772b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:23 +0000
Subject: [PATCH 72/77] fix: System.ions finds the equilibrium and the modes of
 ion crystals

The Hessian was transposed into a different order than the coordinates,
the normal modes were taken from rows of the eigenvector matrix, a single
ion was not moved to the minimum and lists were refused.
---
 electrode/system.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/electrode/system.py b/electrode/system.py
index 843baca..03fca41 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -1102,6 +1102,7 @@ class System(list):
         ev : array, shape (3*n, 3*n)
             Normal mode vectors.
         """
+        x0, q = np.array(x0, dtype=float), np.array(q, dtype=float)
         n = len(x0)
         qs = q[:, None]*q[None, :]
 
@@ -1109,16 +1110,16 @@ class System(list):
             x0 = x0.reshape(-1, 3)
             p0 = self.potential(x0, 0)
             x, y, z = (x0[None, :] - x0[:, None]).transpose(2, 0, 1)
-            pi = .5*qs/np.ma.array(
-                    x**2+y**2+z**2)**(1/2.)
+            pi = (.5*qs/np.ma.array(
+                    x**2+y**2+z**2)**(1/2.)).filled(0.)
             return (p0+pi.sum(-1)).sum()
 
         def g(x0):
             x0 = x0.reshape(-1, 3)
             p0 = self.potential(x0, 1).T
             x, y, z = (x0[None, :] - x0[:, None]).transpose(2, 0, 1)
-            pi = qs*[x, y, z]/np.ma.array(
-                    x**2+y**2+z**2)**(3/2.)
+            pi = (qs*[x, y, z]/np.ma.array(
+                    x**2+y**2+z**2)**(3/2.)).filled(0.)
             return (p0+pi.sum(-1)).T.ravel()
 
         def h(x0):
@@ -1128,8 +1129,8 @@ class System(list):
             p = expand_tensor(
                 (-qs*[2*x**2-y**2-z**2, 3*x*y, 3*x*z,
                     2*y**2-x**2-z**2, 3*y*z]/np.ma.array(
-                    x**2+y**2+z**2)**(5/2.)).T)
-            p = p.transpose(2, 0, 3, 1)
+                    x**2+y**2+z**2)**(5/2.)).filled(0.).T)
+            p = p.transpose(0, 2, 1, 3)
             for i, (p0i, pii) in enumerate(
                     zip(p0.transpose(2, 0, 1), p.sum(2))):
                 p[i, :, i, :] += p0i-pii
@@ -1148,5 +1149,5 @@ class System(list):
             c = h(x)
         ew, ev = np.linalg.eigh(c)
         i = np.argsort(ew)
-        ew, ev = ew[i], ev[i, :].reshape(n, 3, -1)
+        ew, ev = ew[i], ev[:, i].reshape(n, 3, -1)
         return x.reshape(-1, 3), ew, ev
-- 
2.43.0


From c6886c4421d6198df6087f2bfc2e1a07550cd1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:23 +0000
Subject: [PATCH 73/77] fix: multiple ion modes in analyze_static

Ion charges are normalized to the units of the potential, frequencies
are in Hz, every mode line has its vectors and the search starts
from a harmonic chain along the weakest axis.
---
 electrode/system.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/electrode/system.py b/electrode/system.py
index 03fca41..73d934f 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -1068,17 +1068,21 @@ class System(list):
             yield "  %s: ndot=%.4g /s, S_E*f=%.4g (V² Hz)/(m² Hz)" % (
                 ci, semi*q**2/(4*m*ct.h*fi), semi*fi)
         if ions > 1:
-            xi = x+np.random.randn(ions)[:, None]*1e-3
-            qi = np.ones(ions)*q/(l*4*np.pi*ct.epsilon_0)**.5
+            # chain along the weakest axis
+            xi = np.arange(ions)[:, None]*modes_pp[:, 0]
+            xi = xi*(2*q/(4*np.pi*ct.epsilon_0*l*abs(curves[0])))**(1/3.)
+            xi += x-xi.mean(0)+np.random.randn(ions)[:, None]*1e-3
+            qi = np.ones(ions)*(q/(l*4*np.pi*ct.epsilon_0))**.5
             xis, cis, mis = self.ions(xi, qi)
-            freqs_ppi = (cis/l**2/m)**.5/(1e6*np.pi)
+            freqs_ppi = np.sqrt(q*cis/m)/(2*np.pi*l)
             r2 = norm(xis[1]-xis[0])
             r2a = ((q*l)**2/(2*np.pi*ct.epsilon_0*q*curves[0]))**(1/3.)
             yield "two ion modes:"
             yield " separation: %.3g (%.3g µm, %.3g µm harmonic)" % (
                 r2, r2*l/1e-6, r2a/1e-6)
             for ci, fi, mi in zip("abcdef", freqs_ppi, mis.transpose(2, 0, 1)):
-                yield " %s: %.4g MHz, %s/%s" % (ci, fi/1e6, mi)
+                yield " %s: %.4g MHz, %s" % (
+                    ci, fi/1e6, "/".join("%s" % mii for mii in mi))
 
     def ions(self, x0, q):
         """Find minimum energy positions of an multiple ions and
-- 
2.43.0


From f648d118bdf7326043d6a91465ee36104cd6d443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:28 +0000
Subject: [PATCH 74/77] fix: adapt_mesh does not compare triangles on the
 boundary with the last triangle

---
 electrode/adaptive.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/electrode/adaptive.py b/electrode/adaptive.py
index 490d8a3..f4b8ff2 100644
--- a/electrode/adaptive.py
+++ b/electrode/adaptive.py
@@ -144,6 +144,7 @@ def adapt_mesh(constraints, variable, fixed=[], threshold=.5,
         potentials = v[len(fixed):]
         neighbors = args.pop("neighbors")
         edge_changes = potentials.take(neighbors) - potentials[:, None]
+        edge_changes[neighbors < 0] = 0 # no neighbor
         refine = np.fabs(edge_changes).max(1) > threshold
         args["triangleareas"] = np.where(refine, areas/down, areas*up)
     return s, v, c
-- 
2.43.0


From 2e26f127e5012b1565c277b0b67a0dbc2138b2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:28 +0000
Subject: [PATCH 75/77] fix: adaptive accepts array_like boundaries, fixed ones
 too

---
 electrode/adaptive.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/electrode/adaptive.py b/electrode/adaptive.py
index f4b8ff2..e184afd 100644
--- a/electrode/adaptive.py
+++ b/electrode/adaptive.py
@@ -24,7 +24,7 @@ from functools import partial
 import numpy as np
 
 from .system import System
-from .electrode import PolygonPixelElectrode
+from .electrode import Electrode, PolygonPixelElectrode
 from .utils import area_centroid
 
 from bem.pytriangle import triangulate
@@ -41,6 +41,7 @@ def paths_to_mesh(paths):
     """Converts a coordinates to `triangulate()` input data.
 
     """
+    paths = [np.asarray(path) for path in paths]
     points = np.concatenate(paths, axis=0)
     segments = []
     segmentmarkers = []
@@ -123,6 +124,8 @@ def adapt_mesh(constraints, variable, fixed=[], threshold=.5,
     """
     opts = "Qq%fa%fn" % (q, a)
     args = paths_to_mesh(variable)
+    fixed = [p if isinstance(p, Electrode)
+             else PolygonPixelElectrode(paths=[p], **kwargs) for p in fixed]
     s = v = c = None
     while True:
         args = triangulate(opts=opts, **args)
-- 
2.43.0


From 1e63f8eb2ee052f73716f440a1dcb4e197d1173f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:39 +0000
Subject: [PATCH 76/77] fix: smoothing detects straight outlines at any angle
 and start

The angle between successive edges was taken modulo a full turn, so that
vertices with a rounding error to one side were not taken for straight,
and the angle at the repeated closing vertex was that of an edge of zero
length.
---
 electrode/polygons.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/electrode/polygons.py b/electrode/polygons.py
index 7565d9a..8bf177b 100644
--- a/electrode/polygons.py
+++ b/electrode/polygons.py
@@ -51,13 +51,17 @@ def smooth(x, y, smoothing=1., straight=None, corner=None, straight_tol=1e-6,
     du = np.hypot(dx, dy)
     u = np.cumsum(du) - du[0]
     u /= u[-1]
-    a = np.arctan2(dy, dx)
-    t = np.fabs((np.roll(a, -1) - a) % (2*np.pi)) < straight_tol
-    w = np.ones_like(u)
+    # the edges towards each vertex, without repeating the closing one
+    a = np.arctan2(dy[1:], dx[1:])
+    # deviations to either side
+    t = np.fabs((np.roll(a, -1) - a + np.pi) % (2*np.pi)
+                - np.pi) < straight_tol
+    w = np.ones_like(a)
     if straight is not None:
         w = np.where(t, straight, w)
     if corner is not None:
         w = np.where((np.roll(t, 1) | np.roll(t, -1)) & ~t, corner, w)
+    w = np.r_[w[-1], w]
     s = len(x)*smoothing
     (tck, u), fp, ier, msg = splprep([x, y], w=w, u=u, s=s,
                                      k=k, per=1, nest=len(x) + 2,
-- 
2.43.0


From 88a705c34f7b61227b737545a7823d469c52afcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:29 +0000
Subject: [PATCH 77/77] fix: square_pads does not lose a pad to rounding

int(edge/step) truncates ratios that fall short of an integer by rounding
(e.g. edge=.3, step=.1 gave two pads per edge, a whole step away from the
corners).
---
 electrode/polygons.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/electrode/polygons.py b/electrode/polygons.py
index 8bf177b..a5f1fb2 100644
--- a/electrode/polygons.py
+++ b/electrode/polygons.py
@@ -735,7 +735,8 @@ def square_pads(step=10., edge=200., odd=False, start_corner=0):
     array_like
         (n, 2) array of xy coordinates of pad centers.
     """
-    n = int(edge/step)
+    # rounding in the ratio must not drop a pad
+    n = int(round(edge/step, 9))
     if odd:
         n += (n + 1) % 2
     p = np.arange(-n/2.+.5, n/2.+.5)*step
-- 
2.43.0

