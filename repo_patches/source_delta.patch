From 43dac297b0911a54bb7803eee4f29779dfbed656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:41 +0000
Subject: [PATCH 01/14] fix: Model keeps its own copy of the coefficients

The setter stored a view of the caller's array, and of the constructor's
shared default, so models created without coefficients shared one array.
---
 oneka/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oneka/model.py b/oneka/model.py
index ca37bc6..f54e00e 100644
--- a/oneka/model.py
+++ b/oneka/model.py
@@ -193,7 +193,7 @@ class Model:
 
     @coef.setter
     def coef(self, coef):
-        self._coef = np.reshape(coef, [6, ])
+        self._coef = np.array(coef).reshape([6, ])
 
     # ---------------------------------
     def __repr__(self):
-- 
2.43.0


From 7d6e873822ec9b0325b820975aa0fc7f403d72af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:55 +0000
Subject: [PATCH 02/14] fix: distance to a segment of zero length

distancesquared divided by the squared length, so a track with a repeated
vertex raised ZeroDivisionError (or gave NaN with numpy scalars).
---
 oneka/probabilityfield.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/oneka/probabilityfield.py b/oneka/probabilityfield.py
index 8ec8ed5..cb8bb68 100644
--- a/oneka/probabilityfield.py
+++ b/oneka/probabilityfield.py
@@ -414,6 +414,10 @@ class ProbabilityField:
         dot = bax*cax + bay*cay
         length2 = bax*bax + bay*bay
 
+        # A segment of zero length is a point.
+        if length2 == 0:
+            return cax*cax + cay*cay
+
         alpha2 = perpdot*perpdot / length2
         beta2 = dot*dot / length2
 
-- 
2.43.0


From 22cf1e4dc7361077541f32a9a247f607e8f1dd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:23 +0000
Subject: [PATCH 03/14] fix: rasterize makes room for the umbra around the
 track

The grid was expanded to the track alone, so nodes closer to the track
than the umbra but beyond that box were never marked.
---
 oneka/probabilityfield.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oneka/probabilityfield.py b/oneka/probabilityfield.py
index cb8bb68..44ae357 100644
--- a/oneka/probabilityfield.py
+++ b/oneka/probabilityfield.py
@@ -332,7 +332,7 @@ class ProbabilityField:
         None.
         """
         # Make certain that the grid is large enough.
-        self.expand(min(x), max(x), min(y), max(y))
+        self.expand(min(x)-umbra, max(x)+umbra, min(y)-umbra, max(y)+umbra)
 
         # Insert each line segment.
         for i in range(len(x)-1):
-- 
2.43.0


From fba34b3d6599f4c25685ee553e25cbd675985d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:32 +0000
Subject: [PATCH 04/14] fix: a probability field without a location can be
 registered and reset

Its total weight and grids did not exist until the first expansion, which
also forgot the weight registered before it.
---
 oneka/probabilityfield.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/oneka/probabilityfield.py b/oneka/probabilityfield.py
index 44ae357..5d184cf 100644
--- a/oneka/probabilityfield.py
+++ b/oneka/probabilityfield.py
@@ -145,10 +145,10 @@ class ProbabilityField:
             self.nrows = 3
             self.ncols = 3
 
-            self.pgrid = np.zeros((self.nrows, self.ncols), dtype=np.float)
-            self.rgrid = np.zeros((self.nrows, self.ncols), dtype=np.bool)
+        self.pgrid = np.zeros((self.nrows, self.ncols), dtype=np.float)
+        self.rgrid = np.zeros((self.nrows, self.ncols), dtype=np.bool)
 
-            self.total_weight = 0.0
+        self.total_weight = 0.0
 
     # ---------------------------------
     def __repr__(self):
@@ -215,8 +215,6 @@ class ProbabilityField:
             self.pgrid = np.zeros((self.nrows, self.ncols), dtype=np.float)
             self.rgrid = np.zeros((self.nrows, self.ncols), dtype=np.bool)
 
-            self.total_weight = 0.0
-
             log.debug('grids expanded to ({self.nrows}, {self.ncols}).')
         else:
             # Determine the new grid geometry.
-- 
2.43.0


From d9d690dea13a3d53de1b6c629a875b123e0cbe97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:11 +0000
Subject: [PATCH 05/14] fix: a velocity that is not finite ends the backtrace

---
 oneka/capturezone.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/oneka/capturezone.py b/oneka/capturezone.py
index fb5b410..4a83a72 100644
--- a/oneka/capturezone.py
+++ b/oneka/capturezone.py
@@ -215,8 +215,15 @@ def compute_backtrace(xs, ys, duration, tol, maxstep, feval):
     vertices = [(xs, ys)]
     xy = np.array([xs, ys])
 
+    # A velocity that is not finite ends the trace, as a failed evaluation does.
+    def velocity(xy):
+        v = feval(xy)
+        if not np.all(np.isfinite(v)):
+            raise ValueError('The velocity is not finite.')
+        return v
+
     try:
-        k1 = feval(xy)
+        k1 = velocity(xy)
 
         while (abs(t) < abs(duration)):
             # Do not step past duration.
@@ -224,16 +231,16 @@ def compute_backtrace(xs, ys, duration, tol, maxstep, feval):
                 dt = duration - t
 
             # The 5th order Runge-Kutta with Dormand-Prince constants.
-            k2 = feval(xy + dt*(a2[0]*k1))
-            k3 = feval(xy + dt*(a3[0]*k1 + a3[1]*k2))
-            k4 = feval(xy + dt*(a4[0]*k1 + a4[1]*k2 + a4[2]*k3))
-            k5 = feval(xy + dt*(a5[0]*k1 + a5[1]*k2 + a5[2]*k3 + a5[3]*k4))
-            k6 = feval(xy + dt*(a6[0]*k1 + a6[1]*k2 + a6[2]*k3 + a6[3]*k4 + a6[4]*k5))
+            k2 = velocity(xy + dt*(a2[0]*k1))
+            k3 = velocity(xy + dt*(a3[0]*k1 + a3[1]*k2))
+            k4 = velocity(xy + dt*(a4[0]*k1 + a4[1]*k2 + a4[2]*k3))
+            k5 = velocity(xy + dt*(a5[0]*k1 + a5[1]*k2 + a5[2]*k3 + a5[3]*k4))
+            k6 = velocity(xy + dt*(a6[0]*k1 + a6[1]*k2 + a6[2]*k3 + a6[3]*k4 + a6[4]*k5))
 
             xyt = xy + dt*(a7[0]*k1 + a7[2]*k3 + a7[3]*k4 + a7[4]*k5 + a7[5]*k6)
 
             # Control time step for maximum space step and maximum estimated error.
-            k2 = feval(xyt)
+            k2 = velocity(xyt)
             est = np.linalg.norm(dt*(e[0]*k1 + e[1]*k2 + e[2]*k3 + e[3]*k4 +
                                      e[4]*k5 + e[5]*k6), np.inf)
             ds = np.linalg.norm(xyt - xy)
-- 
2.43.0


From b606281372061ce84677e9748c8e4184befacae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:00 +0000
Subject: [PATCH 06/14] fix: lists and degenerate triples are distributions too

---
 oneka/stochastic.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/oneka/stochastic.py b/oneka/stochastic.py
index f01bb27..be0e7ef 100644
--- a/oneka/stochastic.py
+++ b/oneka/stochastic.py
@@ -294,12 +294,15 @@ def generate_random_variate(arg):
         A random variate from the specified distribution.
     """
 
-    if type(arg) is not tuple:
+    if not isinstance(arg, (tuple, list)):
         value = arg
     elif len(arg) == 2:
         value = np.random.uniform(arg[0], arg[1])
     elif len(arg) == 3:
-        value = np.random.triangular(arg[0], arg[1], arg[2])
+        if arg[0] < arg[2]:
+            value = np.random.triangular(arg[0], arg[1], arg[2])
+        else:
+            value = arg[1]
     else:
         raise DistributionError('<arg> must be a scalar, pair, or triple.')
 
@@ -330,7 +333,7 @@ def compute_variate_mean(arg):
         The mean of the specified distribution.
     """
 
-    if type(arg) is not tuple:
+    if not isinstance(arg, (tuple, list)):
         value = arg
     elif len(arg) == 2:
         value = (arg[0] + arg[1])/2.0
-- 
2.43.0


From 3b61af66a375a58d8e495a32089c81fa4ea5d756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:20 +0000
Subject: [PATCH 07/14] fix: average duplicate observations wherever they stand
 in the list

---
 oneka/utilities.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/oneka/utilities.py b/oneka/utilities.py
index 6fb85d3..776d9a0 100644
--- a/oneka/utilities.py
+++ b/oneka/utilities.py
@@ -112,8 +112,10 @@ def filter_obs(observations, wellfield, buffer):
     i = 0
     while i < len(obs):
         j = i+1
-        while (j < len(obs)) and (np.hypot(obs[i][0]-obs[j][0], obs[i][1]-obs[j][1]) < TOO_CLOSE):
-            j += 1
+        for k in range(j, len(obs)):
+            if np.hypot(obs[i][0]-obs[k][0], obs[i][1]-obs[k][1]) < TOO_CLOSE:
+                obs.insert(j, obs.pop(k))       # Put the duplicates side by side.
+                j += 1
 
         if j-i > 1:
             num = 0
-- 
2.43.0


From 3dc297dc96ae4befd00924e88995e0559aa734d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:23 +0000
Subject: [PATCH 08/14] fix: log the recharge of a realization with its sign

---
 oneka/stochastic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oneka/stochastic.py b/oneka/stochastic.py
index be0e7ef..82a7877 100644
--- a/oneka/stochastic.py
+++ b/oneka/stochastic.py
@@ -241,7 +241,7 @@ def create_stochastic_capturezone(
         mo.coef = np.random.default_rng().multivariate_normal(coef_ev, coef_cov)
 
         # Log some basic information about the realization.
-        recharge = 2*(mo.coef[0] + mo.coef[1])
+        recharge = -2*(mo.coef[0] + mo.coef[1])
         log.info('Realization #{0:d}: {1:.2f}, {2:.2f}, {3:.2f}, {4:.2f}, {5:.4e}'
                  .format(i, base, conductivity, porosity, thickness, recharge))
         log.info('    coef ev:  ({0:+.4e}, {1:+.4e}, {2:+.4e}, {3:+.4e}, {4:+.4e}, {5:+.4e})'
-- 
2.43.0


From 0a4bee869a0e30d6ca38035f4c90e07976a537a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:25 +0000
Subject: [PATCH 09/14] fix: a dry node is blank in the head map

---
 oneka/visualize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oneka/visualize.py b/oneka/visualize.py
index 8bdffef..578956a 100644
--- a/oneka/visualize.py
+++ b/oneka/visualize.py
@@ -106,7 +106,7 @@ def contour_head(mo, xmin, xmax, ymin, ymax, nrows, ncols):
         for j in range(ncols):
             try:
                 grid[i, j] = mo.compute_head(x[j], y[i])
-            except onekapy.model.AquiferError:
+            except oneka.model.AquiferError:
                 grid[i, j] = np.nan
 
     plt.contourf(x, y, grid, cmap='bwr')
-- 
2.43.0


From 691b7c481cb8b47e5e205dfd0cb7b4d93679de80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:05 +0000
Subject: [PATCH 10/14] fix: accept the default smoothing of zero

---
 oneka/oneka.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oneka/oneka.py b/oneka/oneka.py
index 670ff0e..f8c6ef1 100644
--- a/oneka/oneka.py
+++ b/oneka/oneka.py
@@ -235,7 +235,7 @@ def oneka(
     assert((isinstance(buffer, int) or isinstance(buffer, float)) and 0 < buffer)
     assert((isinstance(spacing, int) or isinstance(spacing, float)) and 0 < spacing)
     assert((isinstance(umbra, int) or isinstance(umbra, float)) and 0 < umbra)
-    assert((isinstance(smooth, int) or isinstance(smooth, float)) and 0 < smooth)
+    assert((isinstance(smooth, int) or isinstance(smooth, float)) and 0 <= smooth)
 
     assert(isinstance(confined, bool))
     assert((isinstance(tol, int) or isinstance(tol, float)) and 0 < tol)
-- 
2.43.0


From 0dea1b0e7edaf63077d8fdb73f60bee64215c82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:08 +0000
Subject: [PATCH 11/14] fix: refuse observations with a zero standard deviation

---
 oneka/oneka.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oneka/oneka.py b/oneka/oneka.py
index f8c6ef1..19d3b5c 100644
--- a/oneka/oneka.py
+++ b/oneka/oneka.py
@@ -230,7 +230,7 @@ def oneka(
                (isinstance(ob[0], int) or isinstance(ob[0], float)) and
                (isinstance(ob[1], int) or isinstance(ob[1], float)) and
                (isinstance(ob[2], int) or isinstance(ob[2], float)) and
-               (isinstance(ob[3], int) or isinstance(ob[3], float)) and 0 <= ob[3])
+               (isinstance(ob[3], int) or isinstance(ob[3], float)) and 0 < ob[3])
 
     assert((isinstance(buffer, int) or isinstance(buffer, float)) and 0 < buffer)
     assert((isinstance(spacing, int) or isinstance(spacing, float)) and 0 < spacing)
-- 
2.43.0


From 3996b8b5ffe3e5c3f3bcbab7577eb1b9e5f973b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:09 +0000
Subject: [PATCH 12/14] fix: return the probability field

---
 oneka/oneka.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/oneka/oneka.py b/oneka/oneka.py
index 19d3b5c..e01f30e 100644
--- a/oneka/oneka.py
+++ b/oneka/oneka.py
@@ -316,6 +316,8 @@ def oneka(
 
     plt.show()
 
+    return pfield
+
 # ------------------------------------------------------------------------------
 def log_the_run(
         projectname, runtime,
-- 
2.43.0


From 210e7b976d758d1c3ec785c1c1582526d4b92ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:26 +0000
Subject: [PATCH 13/14] fix: count a probability equal to a level of the logged
 table (levels are correctly rounded)

---
 oneka/oneka.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oneka/oneka.py b/oneka/oneka.py
index e01f30e..c3a2e38 100644
--- a/oneka/oneka.py
+++ b/oneka/oneka.py
@@ -281,7 +281,7 @@ def oneka(
         log.info(' Pr(capture)         Area             Area ')
         log.info(' Exceeds            [m^2]          [acres] ')
         log.info('-------------------------------------------')
-        for p in np.linspace(0.05, 0.95, 19):
+        for p in np.arange(1, 20) / 20:
             i = np.argmax(pr <= p)
             log.info('{0:8.3f} {1:16,.0f} {2:16,.2f}'
                      .format(pr[i], area[i], area[i] / 4046.86))  # 4046.86 m^2/acre
-- 
2.43.0


From 92b5194f8385322c621b7f501b9a91b0a9171b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:28 +0000
Subject: [PATCH 14/14] fix: a driver run's log file holds that run only

---
 runme.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/runme.py b/runme.py
index 94b4235..c913c26 100644
--- a/runme.py
+++ b/runme.py
@@ -31,6 +31,20 @@ import importlib
 
 # ------------------------------------------------------------------------------
 def main(module_name):
+    logger = logging.getLogger('Oneka')
+    handlers = logger.handlers[:]
+    try:
+        run_module(module_name)
+    finally:
+        # The log file holds this run only.
+        for fh in logger.handlers[:]:
+            if fh not in handlers:
+                logger.removeHandler(fh)
+                fh.close()
+
+
+# ------------------------------------------------------------------------------
+def run_module(module_name):
     try:
         m = importlib.import_module(module_name)
         print('Running: {0}'.format(m.PROJECTNAME))
-- 
2.43.0

