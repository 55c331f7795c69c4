From b8f28d241b50cea7f0b6200050e8f18d90883baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:59 +0000
Subject: [PATCH 01/58] fix: invert() eliminates every column of a rectangular
 right-hand side

---
 dolo/algos/invert.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolo/algos/invert.py b/dolo/algos/invert.py
index ac27d59..12e6761 100644
--- a/dolo/algos/invert.py
+++ b/dolo/algos/invert.py
@@ -56,7 +56,7 @@ def substract_tensor(i, j, c, M):
 @jit
 def substract_matrix(i, j, c, M):
     # Li <- Li - c*Lj
-    n = M.shape[0]
+    n = M.shape[1]
     for k in range(n):
         M[i, k] = M[i, k] - c * M[j, k]
 
@@ -100,7 +100,7 @@ def divide_tensor(i, c, M):
 @jit
 def divide_matrix(i, c, M):
     # Li <- Li - c*Lj
-    n = M.shape[0]
+    n = M.shape[1]
     for k in range(n):
         M[i, k] /= c
 
-- 
2.43.0


From 03f13a7712652150aa982c4e8b40f80e4f6b40ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:16 +0000
Subject: [PATCH 02/58] fix: ncpsolve.smooth takes the bounds into account with
 full jacobians

---
 dolo/numeric/optimize/ncpsolve.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dolo/numeric/optimize/ncpsolve.py b/dolo/numeric/optimize/ncpsolve.py
index 7bf9bb4..1862b7d 100644
--- a/dolo/numeric/optimize/ncpsolve.py
+++ b/dolo/numeric/optimize/ncpsolve.py
@@ -91,7 +91,6 @@ def smooth(x, a, b, fx, J, jactype="serial"):
         xxx = diag(xx)
         #        xxx = diag(xx)
         Jnew = fff * J - xxx
-        return fx, J
         return [fxnew, Jnew]
 
     else:
-- 
2.43.0


From 544a8e2d197c7522c90b242faa7fe2c3b691c41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:25 +0000
Subject: [PATCH 03/58] fix: cartesian() keeps real points when the first list
 holds integers

---
 dolo/numeric/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/numeric/misc.py b/dolo/numeric/misc.py
index 44570b5..0be014e 100644
--- a/dolo/numeric/misc.py
+++ b/dolo/numeric/misc.py
@@ -37,7 +37,7 @@ def cartesian(arrays, out=None):
     """
 
     arrays = [np.asarray(x) for x in arrays]
-    dtype = arrays[0].dtype
+    dtype = np.result_type(*arrays)
 
     n = np.prod([x.size for x in arrays])
     if out is None:
-- 
2.43.0


From 4a896fe8de790b72d021df0899df2f1a5a814200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:25 +0000
Subject: [PATCH 04/58] fix: a uniform grid without number of points has 20
 points per axis

---
 dolo/numeric/grids.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/numeric/grids.py b/dolo/numeric/grids.py
index c6cf223..749665a 100644
--- a/dolo/numeric/grids.py
+++ b/dolo/numeric/grids.py
@@ -113,7 +113,7 @@ class UniformCartesianGrid(CartesianGrid):
         self.min = np.array(min, dtype=float)
         self.max = np.array(max, dtype=float)
         if len(n) == 0:
-            self.n = np.zeros(n, dtype=int) + 20
+            self.n = np.zeros(self.d, dtype=int) + 20
         else:
             self.n = np.array(n, dtype=int)
 
-- 
2.43.0


From 3e124eace22ade23fc9e4846cf9ab6f9ad11528b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:25 +0000
Subject: [PATCH 05/58] fix: sum of uniform grids keeps the bounds of the
 second grid

---
 dolo/numeric/grids.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolo/numeric/grids.py b/dolo/numeric/grids.py
index 749665a..8f3f413 100644
--- a/dolo/numeric/grids.py
+++ b/dolo/numeric/grids.py
@@ -129,8 +129,8 @@ class UniformCartesianGrid(CartesianGrid):
             raise Exception("Not implemented.")
 
         n = np.array(tuple(self.n) + tuple(g.n))
-        min = np.array(tuple(self.min) + tuple(self.min))
-        max = np.array(tuple(self.max) + tuple(self.max))
+        min = np.array(tuple(self.min) + tuple(g.min))
+        max = np.array(tuple(self.max) + tuple(g.max))
 
         return UniformCartesianGrid(min, max, n)
 
-- 
2.43.0


From 4fcffe57c7371bce89d54f92252a457de79931d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:25 +0000
Subject: [PATCH 06/58] fix: product of cartesian grids returns the
 concatenated grid

---
 dolo/numeric/grids.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/dolo/numeric/grids.py b/dolo/numeric/grids.py
index 8f3f413..b71443d 100644
--- a/dolo/numeric/grids.py
+++ b/dolo/numeric/grids.py
@@ -186,10 +186,7 @@ def cat_grids(grid_1, grid_2):
     if isinstance(grid_1, EmptyGrid):
         return grid_2
     if isinstance(grid_1, CartesianGrid) and isinstance(grid_2, CartesianGrid):
-        min = np.concatenate([grid_1.min, grid_2.min])
-        max = np.concatenate([grid_1.max, grid_2.max])
-        n = np.concatenate([grid_1.n, grid_2.n])
-        return CartesianGrid(min, max, n)
+        return grid_1 + grid_2
     else:
         raise Exception("Not Implemented.")
 
-- 
2.43.0


From d8ddd1e4f5c52d15bba25bab65cacf82e59f12c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:47 +0000
Subject: [PATCH 07/58] fix: discretized VAR1 has the covariance of the process
 (lower cholesky factor)

---
 dolo/numeric/discretization/discretization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/numeric/discretization/discretization.py b/dolo/numeric/discretization/discretization.py
index 3345bb4..dde5237 100644
--- a/dolo/numeric/discretization/discretization.py
+++ b/dolo/numeric/discretization/discretization.py
@@ -129,7 +129,7 @@ def multidimensional_discretization(rho, sigma, N=3, method="rouwenhorst", m=2):
     for i in zero_columns:
         sigma[i, i] = 1
 
-    L = scipy.linalg.cholesky(sigma)
+    L = scipy.linalg.cholesky(sigma, lower=True)
 
     N = int(N)
 
-- 
2.43.0


From 8098b8539a84a353b30874282a795fe7a40dc543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:47 +0000
Subject: [PATCH 08/58] fix: shocks whose covariances sum to zero are not
 degenerate

---
 dolo/numeric/discretization/discretization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/numeric/discretization/discretization.py b/dolo/numeric/discretization/discretization.py
index dde5237..7625192 100644
--- a/dolo/numeric/discretization/discretization.py
+++ b/dolo/numeric/discretization/discretization.py
@@ -125,7 +125,7 @@ def multidimensional_discretization(rho, sigma, N=3, method="rouwenhorst", m=2):
 
     sigma = sigma.copy()
 
-    zero_columns = np.where(sigma.sum(axis=0) == 0)[0]
+    zero_columns = np.where(abs(sigma).sum(axis=0) == 0)[0]
     for i in zero_columns:
         sigma[i, i] = 1
 
-- 
2.43.0


From 556bdd0f7b55da997f084cffe0657516de0b2ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:28 +0000
Subject: [PATCH 09/58] fix: multidimensional discretization with tauchen's
 nodes returns a matrix of nodes

---
 dolo/numeric/discretization/discretization.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dolo/numeric/discretization/discretization.py b/dolo/numeric/discretization/discretization.py
index 7625192..818e5c2 100644
--- a/dolo/numeric/discretization/discretization.py
+++ b/dolo/numeric/discretization/discretization.py
@@ -135,6 +135,7 @@ def multidimensional_discretization(rho, sigma, N=3, method="rouwenhorst", m=2):
 
     if method == "tauchen":
         [nodes_1d, probas_1d] = tauchen(N, 0, rho, 1, m=m)
+        nodes_1d = nodes_1d[:, 0]
     elif method == "rouwenhorst":
         [nodes_1d, probas_1d] = rouwenhorst(rho, 1, N)
 
-- 
2.43.0


From a91907e22df4ba7d4f2d6c00f165a9b19ef0a072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:28 +0000
Subject: [PATCH 10/58] fix: discretizing a VAR1 with a non scalar
 autocorrelation raises

---
 dolo/numeric/processes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dolo/numeric/processes.py b/dolo/numeric/processes.py
index fa934ec..fe93e6e 100644
--- a/dolo/numeric/processes.py
+++ b/dolo/numeric/processes.py
@@ -395,11 +395,11 @@ class AR1(ContinuousProcess):
         μ = np.array([self.μ])
 
         try:
-            assert abs(np.eye(rho.shape[0]) * rho[0, 0] - rho).max() <= 1
+            assert abs(np.eye(rho.shape[0]) * rho[0, 0] - rho).max() <= 1e-10
         except:
             raise Exception(
                 "When discretizing a Vector AR1 process, the autocorrelation coefficient must be as scalar. Found: {}".format(
-                    rho_array
+                    rho
                 )
             )
 
@@ -532,11 +532,11 @@ class VAR1(ContinuousProcess):
         Sigma = self.Σ
 
         try:
-            assert abs(np.eye(rho.shape[0]) * rho[0, 0] - rho).max() <= 1
+            assert abs(np.eye(rho.shape[0]) * rho[0, 0] - rho).max() <= 1e-10
         except:
             raise Exception(
                 "When discretizing a Vector AR1 process, the autocorrelation coefficient must be as scalar. Found: {}".format(
-                    rho_array
+                    rho
                 )
             )
 
-- 
2.43.0


From d5b60e9a90c1cbc2dee35d0cc58806eb3f0e5617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:53 +0000
Subject: [PATCH 11/58] fix: AR1.simulate adds the mean once and works

---
 dolo/numeric/processes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dolo/numeric/processes.py b/dolo/numeric/processes.py
index fe93e6e..fdb8235 100644
--- a/dolo/numeric/processes.py
+++ b/dolo/numeric/processes.py
@@ -466,16 +466,16 @@ class AR1(ContinuousProcess):
         from numpy.random import multivariate_normal
 
         if stochastic:
-            innov = multivariate_normal(mu, Sigma, N * T)
+            innov = multivariate_normal(mu * 0, Sigma, N * T)
         else:
-            innov = mu[None, len(mu)].repeat(T * N, axis=0)
+            innov = np.zeros((N * T, d))
         innov = innov.reshape((T, N, d))
         sim = np.zeros((T, N, d))
         sim[0, :, :] = m0[None, :]
         for t in range(1, sim.shape[0]):
             sim[t, :, :] = sim[t - 1, :, :] @ rho.T + innov[t, :, :]
 
-        sim += μ[None, None, :]
+        sim += mu[None, None, :]
 
         return sim
 
-- 
2.43.0


From 1ecad696fe89e42ee825f91f9c6a34ad74ddc6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:53 +0000
Subject: [PATCH 12/58] fix: AR1.response works with a scalar autocorrelation

---
 dolo/numeric/processes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolo/numeric/processes.py b/dolo/numeric/processes.py
index fdb8235..3f0e601 100644
--- a/dolo/numeric/processes.py
+++ b/dolo/numeric/processes.py
@@ -488,8 +488,8 @@ class AR1(ContinuousProcess):
         irf = np.zeros((T, d))
         irf[0, :] = impulse
         for t in range(1, irf.shape[0]):
-            irf[t, :] = rho @ irf[t - 1, :]
-        irf += μ[None, :]
+            irf[t, :] = rho * irf[t - 1, :]
+        irf += μ
         return irf
 
 
-- 
2.43.0


From dbed395adfba183b3d80306d6e88c269491bd87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:53 +0000
Subject: [PATCH 13/58] fix: deterministic simulation of a VAR1

---
 dolo/numeric/processes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/numeric/processes.py b/dolo/numeric/processes.py
index 3f0e601..e399ee9 100644
--- a/dolo/numeric/processes.py
+++ b/dolo/numeric/processes.py
@@ -604,7 +604,7 @@ class VAR1(ContinuousProcess):
         if stochastic:
             innov = multivariate_normal(mu, Sigma, N * T)
         else:
-            innov = mu[None, len(mu)].repeat(T * N, axis=0)
+            innov = mu[None, :].repeat(T * N, axis=0)
         innov = innov.reshape((T, N, d))
         rho = self.ρ
         sim = np.zeros((T, N, d))
-- 
2.43.0


From 90dddeb95b2424178b9de8e28839ab95c38bc299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:53 +0000
Subject: [PATCH 14/58] fix: AR1 and VAR1 can be discretized on a grid (gdp)

---
 dolo/numeric/processes.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/dolo/numeric/processes.py b/dolo/numeric/processes.py
index e399ee9..9f44051 100644
--- a/dolo/numeric/processes.py
+++ b/dolo/numeric/processes.py
@@ -425,12 +425,6 @@ class AR1(ContinuousProcess):
         except:
             raise Exception("Not implemented.")
 
-        try:
-            assert ρ.shape[0] == ρ.shape[1] == 1
-        except:
-            raise Exception("Not implemented.")
-
-        ρ = ρ[0, 0]
         σ = np.sqrt(Σ[0, 0])
 
         from dolo.numeric.discretization import gauss_hermite_nodes
@@ -440,9 +434,9 @@ class AR1(ContinuousProcess):
         min = -n_std * (σ / (np.sqrt(1 - ρ**2)))
         max = n_std * (σ / (np.sqrt(1 - ρ**2)))
 
-        from .grids import CartesianGrid
+        from .grids import UniformCartesianGrid
 
-        grid = CartesianGrid([min], [max], [n_nodes])
+        grid = UniformCartesianGrid([min], [max], [n_nodes])
 
         nodes = np.linspace(min, max, n_nodes)[:, None]
         iweights = weights[None, :].repeat(n_nodes, axis=0)
@@ -577,9 +571,9 @@ class VAR1(ContinuousProcess):
         min = -n_std * (σ / (np.sqrt(1 - ρ**2)))
         max = n_std * (σ / (np.sqrt(1 - ρ**2)))
 
-        from .grids import CartesianGrid
+        from .grids import UniformCartesianGrid
 
-        grid = CartesianGrid([min], [max], [n_nodes])
+        grid = UniformCartesianGrid([min], [max], [n_nodes])
 
         nodes = np.linspace(min, max, n_nodes)[:, None]
         iweights = weights[None, :].repeat(n_nodes, axis=0)
-- 
2.43.0


From 0c06386cefec35436f6bbc41ea42e8f6618a5ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:53 +0000
Subject: [PATCH 15/58] fix: gdp discretization of AR1 and VAR1 keeps the mean
 of the process

---
 dolo/numeric/processes.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/dolo/numeric/processes.py b/dolo/numeric/processes.py
index 9f44051..cb2fb95 100644
--- a/dolo/numeric/processes.py
+++ b/dolo/numeric/processes.py
@@ -434,6 +434,9 @@ class AR1(ContinuousProcess):
         min = -n_std * (σ / (np.sqrt(1 - ρ**2)))
         max = n_std * (σ / (np.sqrt(1 - ρ**2)))
 
+        μ = self.μ
+        min, max = μ + min, μ + max
+
         from .grids import UniformCartesianGrid
 
         grid = UniformCartesianGrid([min], [max], [n_nodes])
@@ -443,7 +446,9 @@ class AR1(ContinuousProcess):
         integration_nodes = np.zeros((n_nodes, n_integration_nodes))[:, :, None]
         for i in range(n_nodes):
             for j in range(n_integration_nodes):
-                integration_nodes[i, j, :] = ρ * nodes[i, :] + epsilons[j]
+                integration_nodes[i, j, :] = (
+                    μ + ρ * (nodes[i, :] - μ) + epsilons[j]
+                )
 
         return GDP(nodes, integration_nodes, iweights, grid=grid)
         # return (nodes,integration_nodes,iweights)
@@ -571,6 +576,9 @@ class VAR1(ContinuousProcess):
         min = -n_std * (σ / (np.sqrt(1 - ρ**2)))
         max = n_std * (σ / (np.sqrt(1 - ρ**2)))
 
+        μ = self.μ[0]
+        min, max = μ + min, μ + max
+
         from .grids import UniformCartesianGrid
 
         grid = UniformCartesianGrid([min], [max], [n_nodes])
@@ -580,7 +588,9 @@ class VAR1(ContinuousProcess):
         integration_nodes = np.zeros((n_nodes, n_integration_nodes))[:, :, None]
         for i in range(n_nodes):
             for j in range(n_integration_nodes):
-                integration_nodes[i, j, :] = ρ * nodes[i, :] + epsilons[j]
+                integration_nodes[i, j, :] = (
+                    μ + ρ * (nodes[i, :] - μ) + epsilons[j]
+                )
 
         return GDP(nodes, integration_nodes, iweights, grid=grid)
         # return (nodes,integration_nodes,iweights)
-- 
2.43.0


From 1ab5a96df6487efd68758366aeea58f7496d857a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:33 +0000
Subject: [PATCH 16/58] fix: gauss_hermite_nodes leaves the covariance matrix
 unchanged and detects degenerate shocks only

---
 dolo/numeric/discretization/quadrature.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dolo/numeric/discretization/quadrature.py b/dolo/numeric/discretization/quadrature.py
index b92c37f..e8ab934 100644
--- a/dolo/numeric/discretization/quadrature.py
+++ b/dolo/numeric/discretization/quadrature.py
@@ -103,7 +103,8 @@ def gauss_hermite_nodes(orders, sigma, mu=None):
 
         w = reduce(numpy.kron, weights)
 
-        zero_columns = numpy.where(sigma.sum(axis=0) == 0)[0]
+        sigma = sigma.copy()
+        zero_columns = numpy.where(abs(sigma).sum(axis=0) == 0)[0]
         for i in zero_columns:
             sigma[i, i] = 1.0
 
-- 
2.43.0


From 15500156d888c1d1f8df80983fc44d397f865a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:33 +0000
Subject: [PATCH 17/58] fix: gauss-hermite nodes include the mean exactly once

---
 dolo/numeric/discretization/quadrature.py | 4 ++--
 dolo/numeric/distribution.py              | 2 --
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/dolo/numeric/discretization/quadrature.py b/dolo/numeric/discretization/quadrature.py
index e8ab934..4b006e0 100644
--- a/dolo/numeric/discretization/quadrature.py
+++ b/dolo/numeric/discretization/quadrature.py
@@ -90,7 +90,7 @@ def gauss_hermite_nodes(orders, sigma, mu=None):
     if len(orders) == 1:
         # Note: if sigma is 2D, x will always be 2D, even if sigma is only 1x1.
         # print(points.shape)
-        x = numpy.array(points[0]) * numpy.sqrt(float(sigma))
+        x = numpy.array(points[0]) * numpy.sqrt(float(sigma)) + mu
         if sigma.ndim == 2:
             x = x[:, None]
         w = weights[0]
@@ -115,7 +115,7 @@ def gauss_hermite_nodes(orders, sigma, mu=None):
         x = numpy.ascontiguousarray(x.T)
 
         for i in zero_columns:
-            x[:, i] = 0
+            x[:, i] = mu[i]
 
         return [x, w]
 
diff --git a/dolo/numeric/distribution.py b/dolo/numeric/distribution.py
index 5b3132d..b3bc418 100644
--- a/dolo/numeric/distribution.py
+++ b/dolo/numeric/distribution.py
@@ -449,7 +449,6 @@ class UNormal(UnivariateContinuousDistribution):
         from dolo.numeric.discretization.quadrature import gauss_hermite_nodes
 
         [x, w] = gauss_hermite_nodes(N, np.array([[self.σ**2]]), mu=self.μ)
-        x += np.array([self.μ])[:, None]
         return FiniteDistribution(x, w, origin=self)
 
 
@@ -605,7 +604,6 @@ class Normal(ContinuousDistribution):
             from dolo.numeric.discretization.quadrature import gauss_hermite_nodes  # type: ignore
 
             [x, w] = gauss_hermite_nodes(N, self.Σ, mu=self.Μ)
-            x = np.row_stack([(e + self.Μ) for e in x])
             return FiniteDistribution(x, w, origin=self)
 
         elif to == "mc":
-- 
2.43.0


From c449055c6b0411ee6fc1c5eee1598c1b77a5ab13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:33 +0000
Subject: [PATCH 18/58] fix: options of the discretization are used when a
 markov chain is requested

---
 dolo/numeric/distribution.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dolo/numeric/distribution.py b/dolo/numeric/distribution.py
index b3bc418..7d43977 100644
--- a/dolo/numeric/distribution.py
+++ b/dolo/numeric/distribution.py
@@ -369,7 +369,9 @@ class UnivariateContinuousDistribution(ContinuousDistribution):
             else:
                 raise Exception("Unknown discretization method.")
         elif to == "mc":
-            discr_iid = self.discretize(to="iid")
+            discr_iid = self.discretize(
+                to="iid", N=N, method=method, mass_point=mass_point
+            )
             return discr_iid.discretize(to="mc")
         else:
             raise Exception("Not implemented (yet).")
@@ -607,7 +609,7 @@ class Normal(ContinuousDistribution):
             return FiniteDistribution(x, w, origin=self)
 
         elif to == "mc":
-            discr_iid = self.discretize(to="iid")
+            discr_iid = self.discretize(to="iid", N=N)
             return discr_iid.discretize(to="mc")
 
         else:
-- 
2.43.0


From 0966638ea3caf9f6733e6739ebcfaf4c04bf3828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:33 +0000
Subject: [PATCH 19/58] fix: draws from a Bernouilli use its probability

---
 dolo/numeric/distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/numeric/distribution.py b/dolo/numeric/distribution.py
index 7d43977..0ca7b78 100644
--- a/dolo/numeric/distribution.py
+++ b/dolo/numeric/distribution.py
@@ -298,7 +298,7 @@ class Bernouilli(DiscreteDistribution):
 
     def draw(self, N: int) -> Matrix:
         a = np.array([0, 1])
-        c = np.random.choice(a, size=N)
+        c = np.random.choice(a, size=N, p=[1 - self.π, self.π])
         return c.reshape((N, 1))
 
 
-- 
2.43.0


From baa0d336454ad3716b02cab50b913b626ca3604e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:33 +0000
Subject: [PATCH 20/58] fix: a Bernouilli variable has dimension one

---
 dolo/numeric/distribution.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dolo/numeric/distribution.py b/dolo/numeric/distribution.py
index 0ca7b78..c34b076 100644
--- a/dolo/numeric/distribution.py
+++ b/dolo/numeric/distribution.py
@@ -283,6 +283,7 @@ class Bernouilli(DiscreteDistribution):
     @greek_tolerance
     def __init__(self, π: float = None):
         self.π = float(π)
+        self.d = 1
 
     def discretize(self, to="iid"):
 
-- 
2.43.0


From aaf32ef9582f57c107e1a4aea758b01314e3ea09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:33 +0000
Subject: [PATCH 21/58] fix: draws from a mixture

---
 dolo/numeric/distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/numeric/distribution.py b/dolo/numeric/distribution.py
index c34b076..f7ae9d0 100644
--- a/dolo/numeric/distribution.py
+++ b/dolo/numeric/distribution.py
@@ -762,7 +762,7 @@ class Mixture(ContinuousDistribution):
         # naive and overkill algorithm
         inds = self.index.draw(N)  # should be (N x 1) array
         return sum(
-            [(inds == k) * dist.draw(N) for (k, dist) in self.distributions.items()]
+            [(inds == int(k)) * dist.draw(N) for (k, dist) in self.distributions.items()]
         )
 
 
-- 
2.43.0


From 525779fb4aa1359e283b701bb63caf239eb0184d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:33 +0000
Subject: [PATCH 22/58] fix: UNormal.integrate works with numpy 2

---
 dolo/numeric/distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/numeric/distribution.py b/dolo/numeric/distribution.py
index f7ae9d0..caa51c2 100644
--- a/dolo/numeric/distribution.py
+++ b/dolo/numeric/distribution.py
@@ -444,7 +444,7 @@ class UNormal(UnivariateContinuousDistribution):
         )
         import scipy.integrate
 
-        return scipy.integrate.quad(f, -np.Inf, np.Inf)[0]
+        return scipy.integrate.quad(f, -np.inf, np.inf)[0]
 
     def __discretize_gh__(self, N=5):  # Gauss-Hermite
 
-- 
2.43.0


From 38c70bc540f71efaad09604c0c76d245171e2c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:33 +0000
Subject: [PATCH 23/58] fix: default parameters of LogNormal

---
 dolo/numeric/distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/numeric/distribution.py b/dolo/numeric/distribution.py
index caa51c2..726a158 100644
--- a/dolo/numeric/distribution.py
+++ b/dolo/numeric/distribution.py
@@ -498,7 +498,7 @@ class LogNormal(UnivariateContinuousDistribution):
     signature = {"μ": "Optional[float]", "σ": "float"}  # this is redundant for now
 
     @greek_tolerance
-    def __init__(self, σ: float = 0.0, μ: float = 1.0):
+    def __init__(self, σ: float = 1.0, μ: float = 0.0):
         self.σ = float(σ)
         self.μ = float(μ)
 
-- 
2.43.0


From 8832c085529aac78e90969e80ec79f780dd32a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:44 +0000
Subject: [PATCH 24/58] fix: linear interpolation over unstructured x cartesian
 grids with several states

---
 dolo/numeric/decision_rule.py | 34 ----------------------------------
 1 file changed, 34 deletions(-)

diff --git a/dolo/numeric/decision_rule.py b/dolo/numeric/decision_rule.py
index d720d47..2478e2c 100644
--- a/dolo/numeric/decision_rule.py
+++ b/dolo/numeric/decision_rule.py
@@ -336,40 +336,6 @@ def eval_is(
     return eval_cubic(gg, coeffs, s)
 
 
-# UnstructuredGrid x Cartesian x Linear
-
-
-@multimethod
-def get_coefficients(
-    itp: object,
-    exo_grid: UnstructuredGrid,
-    endo_grid: CartesianGrid,
-    interp_type: Linear,
-    x: object,
-):
-    return [x[i].copy() for i in range(x.shape[0])]
-
-
-@multimethod
-def eval_is(
-    itp: object,
-    exo_grid: UnstructuredGrid,
-    endo_grid: CartesianGrid,
-    interp_type: Linear,
-    i: object,
-    s: object,
-):
-
-    from interpolation.splines import eval_linear
-
-    assert s.ndim == 2
-
-    coeffs = itp.coefficients[i]
-    gg = endo_grid.__numba_repr__()
-
-    return eval_linear(gg, coeffs, s)
-
-
 # Empty x Cartesian x Linear
 
 
-- 
2.43.0


From 28aa853a1d89a9c803cc6e9b95a970843ddac5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:44 +0000
Subject: [PATCH 25/58] fix: evaluation of a decision rule at several points
 for one node of a cartesian grid

---
 dolo/numeric/decision_rule.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolo/numeric/decision_rule.py b/dolo/numeric/decision_rule.py
index 2478e2c..0dd7448 100644
--- a/dolo/numeric/decision_rule.py
+++ b/dolo/numeric/decision_rule.py
@@ -204,7 +204,7 @@ def eval_is(
     i: object,
     s: object,
 ):
-    m = exo_grid.node(i)[None, :]
+    m = exo_grid.node(i)[None, :].repeat(s.shape[0], axis=0)
     return eval_ms(itp, exo_grid, endo_grid, interp_type, m, s)
 
 
@@ -261,7 +261,7 @@ def eval_is(
     i: object,
     s: object,
 ):
-    m = exo_grid.node(i)[None, :]
+    m = exo_grid.node(i)[None, :].repeat(s.shape[0], axis=0)
     return eval_ms(itp, exo_grid, endo_grid, interp_type, m, s)
 
 
-- 
2.43.0


From aec0134b212a013f6efd814942163fbde0de1f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:44 +0000
Subject: [PATCH 26/58] fix: decision rules called with one exogenous vector
 and several states

---
 dolo/numeric/decision_rule.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolo/numeric/decision_rule.py b/dolo/numeric/decision_rule.py
index 0dd7448..1ee71fd 100644
--- a/dolo/numeric/decision_rule.py
+++ b/dolo/numeric/decision_rule.py
@@ -72,9 +72,9 @@ class CallableDecisionRule:
                 if s.ndim == 1 and m.ndim == 1:
                     return self.eval_ms(m[None, :], s[None, :])[0, :]
                 elif m.ndim == 1:
-                    m = m[None, :]
+                    m = m[None, :].repeat(s.shape[0], axis=0)
                 elif s.ndim == 1:
-                    s = s[None, :]
+                    s = s[None, :].repeat(m.shape[0], axis=0)
                 return self.eval_ms(m, s)
 
 
-- 
2.43.0


From 9ffa8770f8ba3108cd8d5f31dc01c297b7dc34a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:43 +0000
Subject: [PATCH 27/58] fix: hp_filter uses lam for each row of a two
 dimensional array

---
 dolo/numeric/filters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/numeric/filters.py b/dolo/numeric/filters.py
index 7eae04f..4e3f9cf 100644
--- a/dolo/numeric/filters.py
+++ b/dolo/numeric/filters.py
@@ -38,7 +38,7 @@ def hp_filter(data, lam=1600):
     Y = np.asarray(data)
 
     if Y.ndim == 2:
-        resp = [hp_filter(e) for e in data]
+        resp = [hp_filter(e, lam) for e in data]
         T = np.row_stack([e[0] for e in resp])
         Cycle = np.row_stack([e[1] for e in resp])
         return [T, Cycle]
-- 
2.43.0


From 96323a5f3245876bc91919e8cc7814e7dfc3b490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:30 +0000
Subject: [PATCH 28/58] fix: numdiff2 indexes the result with a tuple

---
 dolo/numeric/serial_operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/numeric/serial_operations.py b/dolo/numeric/serial_operations.py
index a40a25f..4fbee49 100644
--- a/dolo/numeric/serial_operations.py
+++ b/dolo/numeric/serial_operations.py
@@ -57,7 +57,7 @@ def numdiff2(f, x0, dv=1e-8):
         x2[ind] -= dv
         df = (f(x) - f(x2)) / dv / 2.0
         obj = [Ellipsis] + list(ind) + [slice(None, None, None)]
-        # obj = tuple(obj)
+        obj = tuple(obj)
         ret[obj] = df
 
     return ret
-- 
2.43.0


From aae2877345c7cfc34a22ef4f5e15a90c888d1bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:30 +0000
Subject: [PATCH 29/58] fix: numdiff allocates one row per value of the
 function

---
 dolo/compiler/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/compiler/misc.py b/dolo/compiler/misc.py
index 6336ada..417d584 100644
--- a/dolo/compiler/misc.py
+++ b/dolo/compiler/misc.py
@@ -108,7 +108,7 @@ def numdiff(fun, args):
     args = list(args)
     v0 = fun(*args)
     N = v0.shape[0]
-    l_v = len(v0)
+    l_v = v0.shape[1]
     dvs = []
     for i, a in enumerate(args):
         l_a = (a).shape[1]
-- 
2.43.0


From ba46ecf00dd221a0abb6be2600a62b43898c430b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:50 +0000
Subject: [PATCH 30/58] fix: draws of a markov chain stay within its states

---
 dolo/numeric/processes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/numeric/processes.py b/dolo/numeric/processes.py
index cb2fb95..bbe4d86 100644
--- a/dolo/numeric/processes.py
+++ b/dolo/numeric/processes.py
@@ -23,7 +23,7 @@ from dolang.language import language_element
 def choice(x, n, cumul):
     i = 0
     running = True
-    while i < n and running:
+    while i < n - 1 and running:
         if x < cumul[i]:
             running = False
         else:
-- 
2.43.0


From 7a561fda838c6756f8a63e4f2257eae438eb3614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:50 +0000
Subject: [PATCH 31/58] fix: simulate_markov_chain returns the values of the
 nodes

---
 dolo/numeric/processes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/numeric/processes.py b/dolo/numeric/processes.py
index bbe4d86..827ac18 100644
--- a/dolo/numeric/processes.py
+++ b/dolo/numeric/processes.py
@@ -54,7 +54,7 @@ def simulate_markov_chain(nodes, transitions, N, T, i0=None, return_values=False
     indices = simulate_mc_indices(C, N, T, i0_)
     if return_values:
         values = np.reshape(
-            np.concatenate([Q[i, :][None, :] for i in indices.ravel()], axis=0),
+            np.concatenate([nodes[i, :][None, :] for i in indices.ravel()], axis=0),
             indices.shape + (-1,),
         )
         return indices, values
-- 
2.43.0


From 9f89619a062cfdd92a7463b2f053b7f129b6e78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:50 +0000
Subject: [PATCH 32/58] fix: constant processes can be simulated

---
 dolo/numeric/processes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dolo/numeric/processes.py b/dolo/numeric/processes.py
index 827ac18..10dc9d6 100644
--- a/dolo/numeric/processes.py
+++ b/dolo/numeric/processes.py
@@ -125,6 +125,9 @@ class ConstantProcess(IIDProcess):
         assert self.μ.ndim == 1
         self.d = len(self.μ)
 
+    def draw(self, N: int) -> Matrix:
+        return self.μ[None, :].repeat(N, axis=0)
+
     def discretize(self, to=None, **kwargs):
 
         if to == "iid":
-- 
2.43.0


From ff01a25bd655ebff6c92c7ecddd93e0954517fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:55 +0000
Subject: [PATCH 33/58] fix: simulated states follow the transition with the
 shock of the same date

---
 dolo/algos/simulations.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/dolo/algos/simulations.py b/dolo/algos/simulations.py
index f716fbf..93d4e70 100644
--- a/dolo/algos/simulations.py
+++ b/dolo/algos/simulations.py
@@ -181,7 +181,6 @@ def simulate(
 
     numpy.random.seed(seed)
 
-    mp = m0
     for i in range(T):
         m = m_simul[i, :, :]
         s = s_simul[i, :, :]
@@ -196,10 +195,9 @@ def simulate(
 
         x_simul[i, :, :] = x
 
-        ss = g(mp, s, x, m, parms)
         if i < T - 1:
-            s_simul[i + 1, :, :] = ss
-        mp = m
+            mp = m_simul[i + 1, :, :]
+            s_simul[i + 1, :, :] = g(m, s, x, mp, parms)
 
     if "auxiliary" not in model.functions:  # TODO: find a better test than this
         l = [s_simul, x_simul]
-- 
2.43.0


From 65ba6d4086c612640087a1711669e9c5607e4fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:55 +0000
Subject: [PATCH 34/58] fix: the seed of a simulation determines all its draws

---
 dolo/algos/simulations.py | 4 ++--
 dolo/numeric/processes.py | 7 +++----
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/dolo/algos/simulations.py b/dolo/algos/simulations.py
index 93d4e70..55f6279 100644
--- a/dolo/algos/simulations.py
+++ b/dolo/algos/simulations.py
@@ -110,6 +110,8 @@ def simulate(
     if isinstance(dr, AlgoResult):
         dr = dr.dr
 
+    numpy.random.seed(seed)
+
     calib = model.calibration
     parms = numpy.array(calib["parameters"])
 
@@ -179,8 +181,6 @@ def simulate(
     f = model.functions["arbitrage"]
     g = model.functions["transition"]
 
-    numpy.random.seed(seed)
-
     for i in range(T):
         m = m_simul[i, :, :]
         s = s_simul[i, :, :]
diff --git a/dolo/numeric/processes.py b/dolo/numeric/processes.py
index 10dc9d6..4023bb6 100644
--- a/dolo/numeric/processes.py
+++ b/dolo/numeric/processes.py
@@ -11,7 +11,6 @@ Matrix = List[Vector]
 
 from numba import jit, njit
 from dolo.numeric.grids import EmptyGrid, CartesianGrid, UnstructuredGrid
-from random import random as rand
 
 from xarray import DataArray
 
@@ -32,7 +31,7 @@ def choice(x, n, cumul):
 
 
 @njit
-def simulate_mc_indices(C, N, T, i0):
+def simulate_mc_indices(C, N, T, i0, draws):
     k = len(C)
     out = np.zeros((T, N), dtype=np.int32)
     out[0, :] = i0
@@ -40,7 +39,7 @@ def simulate_mc_indices(C, N, T, i0):
         for t in range(0, T - 1):
             ii = out[t, n]
             options = C[ii]
-            x = rand()
+            x = draws[n, t]
             ix = choice(x, k, options)
             out[t + 1, n] = ix
     return out
@@ -51,7 +50,7 @@ def simulate_markov_chain(nodes, transitions, N, T, i0=None, return_values=False
     if i0 is not None:
         i0_[:] = i0
     C = transitions.cumsum(axis=1)
-    indices = simulate_mc_indices(C, N, T, i0_)
+    indices = simulate_mc_indices(C, N, T, i0_, np.random.random((N, T)))
     if return_values:
         values = np.reshape(
             np.concatenate([nodes[i, :][None, :] for i in indices.ravel()], axis=0),
-- 
2.43.0


From 53328c7773ae3701f2c43f48d87d1f7fd509fe7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:55 +0000
Subject: [PATCH 35/58] fix: simulation along given states of a markov chain

---
 dolo/algos/simulations.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dolo/algos/simulations.py b/dolo/algos/simulations.py
index 55f6279..d30c12d 100644
--- a/dolo/algos/simulations.py
+++ b/dolo/algos/simulations.py
@@ -141,7 +141,6 @@ def simulate(
             # inds = i_simul.ravel()
             # m_simul = np.reshape( np.concatenate( [nodes[i,:][None,:] for i in inds.ravel()], axis=0 ), inds.shape + (-1,) )
             sim_type = "discrete"
-            x_simul[0, :, :] = dr.eval_is(i0, s0[None, :])[0, :]
         else:
             raise Exception("Incorrect specification of driving values.")
         m0 = m_simul[0, :, :]
-- 
2.43.0


From ac874b29ce8cd38a2660957cc483b0b57d571838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:55 +0000
Subject: [PATCH 36/58] fix: impulse responses of models with autocorrelated or
 univariate shocks

---
 dolo/algos/simulations.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/dolo/algos/simulations.py b/dolo/algos/simulations.py
index d30c12d..fd3464a 100644
--- a/dolo/algos/simulations.py
+++ b/dolo/algos/simulations.py
@@ -7,6 +7,7 @@ from dolo.compiler.model import Model
 from dolo.numeric.optimize.ncpsolve import ncpsolve
 from dolo.numeric.optimize.newton import newton as newton_solver
 from dolo.numeric.optimize.newton import SerialDifferentiableFunction
+from dolo.numeric.processes import AR1
 
 ## TODO: extend for mc process
 
@@ -20,8 +21,10 @@ def response(model, dr, varname, T=40, impulse: float = None):
             impulse = numpy.sqrt(
                 model.exogenous.Σ[i_exo, i_exo]
             )  # works only for IID/AR1
-        except:
-            impulse = numpy.sqrt(model.exogenous.σ)  # works only for IID/AR1
+        except AttributeError:
+            impulse = model.exogenous.σ  # standard deviation, but for AR1
+            if isinstance(model.exogenous, AR1):
+                impulse = numpy.sqrt(impulse)
 
     e1 = numpy.zeros(len(model.symbols["exogenous"]))
     e1[i_exo] = impulse
@@ -29,9 +32,7 @@ def response(model, dr, varname, T=40, impulse: float = None):
     exogenous = model.exogenous
     print(exogenous)
     print(T, e1)
-    m_simul = model.exogenous.response(T - 1, e1)  # this is an xarray T x V
-    m_simul = m_simul.expand_dims("N")
-    m_simul = m_simul.transpose("T", "N", "V").data
+    m_simul = numpy.asarray(model.exogenous.response(T, e1))[:T, None, :]
 
     sim = simulate(model, dr, N=1, T=T, driving_process=m_simul, stochastic=False)
 
-- 
2.43.0


From c8869a2d0487a4444dbb6ea44be60f4867230559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:55 +0000
Subject: [PATCH 37/58] fix: leads and lags in formulas

---
 dolo/compiler/eval_formula.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/compiler/eval_formula.py b/dolo/compiler/eval_formula.py
index ffc08a9..2f847f5 100644
--- a/dolo/compiler/eval_formula.py
+++ b/dolo/compiler/eval_formula.py
@@ -41,7 +41,7 @@ def eval_formula(expr: str, dataframe=None, context=None):
         import pandas as pd
 
         for k, t in variables:
-            dd[stringify_symbol((k, t))] = dataframe[k].shift(t)
+            dd[stringify_symbol((k, t))] = dataframe[k].shift(-t)
         dd["t_"] = pd.Series(dataframe.index, index=dataframe.index)
 
     expr = str_expression(nexpr)
-- 
2.43.0


From e5d476bea5a5fee0b5e331431f6d30f54ee5bbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:03 +0000
Subject: [PATCH 38/58] fix: the domain of a model follows the order of its
 states

---
 dolo/compiler/model.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/dolo/compiler/model.py b/dolo/compiler/model.py
index 8c454bd..f7280b4 100644
--- a/dolo/compiler/model.py
+++ b/dolo/compiler/model.py
@@ -349,18 +349,27 @@ class SymbolicModel:
         calibration = self.get_calibration()
         states = self.symbols["states"]
 
+        from dolang.language import eval_data
+
         sdomain = self.data.get("domain", {})
-        for k in sdomain.keys():
-            if k not in states:
-                sdomain.pop(k)
+        sdomain = {
+            s: eval_data(sdomain[s], calibration)
+            for s in states
+            if s in sdomain.keys()
+        }
 
         # backward compatibility
         if len(sdomain) == 0 and len(states) > 0:
             try:
                 import warnings
 
-                min = get_address(self.data, ["options:grid:a", "options:grid:min"])
-                max = get_address(self.data, ["options:grid:b", "options:grid:max"])
+                min, max = [
+                    get_address(self.data, address, calibration=calibration)
+                    for address in (
+                        ["options:grid:a", "options:grid:min"],
+                        ["options:grid:b", "options:grid:max"],
+                    )
+                ]
                 for i, s in enumerate(states):
                     sdomain[s] = [min[i], max[i]]
                 # shall we raise a warning for deprecated syntax ?
@@ -377,9 +386,6 @@ class SymbolicModel:
             )
 
         from dolo.compiler.objects import CartesianDomain
-        from dolang.language import eval_data
-
-        sdomain = eval_data(sdomain, calibration)
 
         domain = CartesianDomain(**sdomain)
 
@@ -480,10 +486,10 @@ def get_type(d):
         return v
 
 
-def get_address(data, address, default=None):
+def get_address(data, address, default=None, calibration={}):
 
     if isinstance(address, list):
-        found = [get_address(data, e, None) for e in address]
+        found = [get_address(data, e, None, calibration) for e in address]
         found = [f for f in found if f is not None]
         if len(found) > 0:
             return found[0]
@@ -495,7 +501,7 @@ def get_address(data, address, default=None):
         fields = fields[1:]
         if data is None:
             return default
-    return eval_data(data)
+    return eval_data(data, calibration)
 
 
 import re
-- 
2.43.0


From 52b2d9eff7078a230da4a2cc09aba882d27519bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:15 +0000
Subject: [PATCH 39/58] fix: perturbation of models driven by a VAR1

---
 dolo/algos/perturbation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/algos/perturbation.py b/dolo/algos/perturbation.py
index a64fe13..fdcfc32 100644
--- a/dolo/algos/perturbation.py
+++ b/dolo/algos/perturbation.py
@@ -30,7 +30,7 @@ def get_derivatives(model, steady_state=None):
     process = model.exogenous
 
     if isinstance(process, VAR1):
-        A = process.rho
+        A = process.ρ
         B = np.eye(A.shape[0])
         G_s = np.row_stack(
             [
-- 
2.43.0


From 489d76cb4f87f2a82ce4dac7b782a2029daf5574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:15 +0000
Subject: [PATCH 40/58] fix: complex generalized eigenvalues are ordered by
 their modulus

---
 dolo/numeric/extern/qz.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolo/numeric/extern/qz.py b/dolo/numeric/extern/qz.py
index be26ea8..0a6fb3e 100644
--- a/dolo/numeric/extern/qz.py
+++ b/dolo/numeric/extern/qz.py
@@ -11,11 +11,11 @@ def qzordered(A, B, crit=1.0):
     TOL = 1e-10
 
     def select(alpha, beta):
-        return alpha**2 > crit * beta**2
+        return abs(alpha) > crit * abs(beta)
 
     [S, T, alpha, beta, U, V] = ordqz(A, B, output="real", sort=select)
 
-    eigval = abs(numpy.diag(S) / numpy.diag(T))
+    eigval = abs(alpha / beta)
 
     return [S, T, U, V, eigval]
 
-- 
2.43.0


From aae3eca5820cbfd9138a194e920c18f8d8d0c406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:15 +0000
Subject: [PATCH 41/58] fix: stability and determinacy of first order solutions
 are tested on all eigenvalues

---
 dolo/algos/perturbation.py | 39 +++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/dolo/algos/perturbation.py b/dolo/algos/perturbation.py
index fdcfc32..0ccbec2 100644
--- a/dolo/algos/perturbation.py
+++ b/dolo/algos/perturbation.py
@@ -116,6 +116,16 @@ from numpy.linalg import solve
 from dolo.numeric.extern.qz import qzordered
 
 
+class GeneralizedEigenvaluesError(Exception):
+    def __init__(self, **details):
+        super().__init__(details)
+        self.details = details
+
+
+class GeneralizedEigenvaluesSelectionError(GeneralizedEigenvaluesError):
+    pass
+
+
 def approximate_1st_order(g_s, g_x, g_e, f_s, f_x, f_S, f_X):
 
     n_s = g_s.shape[0]  # number of controls
@@ -129,9 +139,9 @@ def approximate_1st_order(g_s, g_x, g_e, f_s, f_x, f_S, f_X):
 
     B = row_stack([column_stack([g_s, g_x]), column_stack([f_s, f_x])])
 
-    [S, T, Q, Z, eigval] = qzordered(A, B, 1.0 - 1e-8)
-
-    Z = Z.real
+    # eigval contains the inverses of the growth rates: stable ones come first
+    crit = 1.0 - 1e-8
+    [S, T, Q, Z, eigval] = qzordered(A, B, crit)
 
     diag_S = np.diag(S)
     diag_T = np.diag(T)
@@ -144,14 +154,14 @@ def approximate_1st_order(g_s, g_x, g_e, f_s, f_x, f_S, f_X):
     except Exception as e:
         raise GeneralizedEigenvaluesError(diag_S=diag_S, diag_T=diag_T)
 
-    eigval_s = sorted(eigval, reverse=False)
-    if max(eigval[:n_s]) >= 1 and min(eigval[n_s:]) < 1:
+    eigval_s = sorted(eigval, reverse=True)
+    if eigval_s[n_s - 1] > crit >= eigval_s[n_s]:
         # BK conditions are met
         pass
     else:
         ev_a = eigval_s[n_s - 1]
         ev_b = eigval_s[n_s]
-        cutoff = (ev_a - ev_b) / 2
+        cutoff = (ev_a + ev_b) / 2
         if not ev_a > ev_b:
             raise GeneralizedEigenvaluesSelectionError(
                 A=A,
@@ -164,7 +174,7 @@ def approximate_1st_order(g_s, g_x, g_e, f_s, f_x, f_S, f_X):
             )
         import warnings
 
-        if cutoff > 1:
+        if ev_a <= crit:
             warnings.warn("Solution is not convergent.")
         else:
             warnings.warn(
@@ -172,6 +182,8 @@ def approximate_1st_order(g_s, g_x, g_e, f_s, f_x, f_S, f_X):
             )
         [S, T, Q, Z, eigval] = qzordered(A, B, cutoff)
 
+    Z = Z.real
+
     Z11 = Z[:n_s, :n_s]
     # Z12 = Z[:n_s, n_s:]
     Z21 = Z[n_s:, :n_s]
@@ -186,7 +198,7 @@ def approximate_1st_order(g_s, g_x, g_e, f_s, f_x, f_S, f_X):
     A = g_s + g_x @ C
     B = g_e
 
-    return C, eigval_s
+    return C, eigval_s[::-1]
 
 
 from .results import AlgoResult, PerturbationResult
@@ -263,10 +275,7 @@ def perturb(
     if not details:
         return dr
     else:
-        return PerturbationResult(
-            dr,
-            eigvals,
-            True,  # otherwise an Exception should have been raised already
-            True,  # otherwise an Exception should have been raised already
-            True,  # otherwise an Exception should have been raised already
-        )
+        # inverses of the biggest growth rate of the solution and of the next one
+        ev_b, ev_a = eigvals[len(F_x) - 1 : len(F_x) + 1]
+        crit = 1.0 - 1e-8
+        return PerturbationResult(dr, eigvals, ev_a > crit, ev_a > ev_b, ev_b <= crit)
-- 
2.43.0


From 35d9a571d8540bb782d0b18ff7d3bdda8041592b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:15 +0000
Subject: [PATCH 42/58] fix: perturb can solve for the steady state

---
 dolo/algos/perturbation.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dolo/algos/perturbation.py b/dolo/algos/perturbation.py
index 0ccbec2..ec50a5c 100644
--- a/dolo/algos/perturbation.py
+++ b/dolo/algos/perturbation.py
@@ -248,7 +248,12 @@ def perturb(
         raise Exception("Not implemented.")
 
     if steady_state is None:
-        steady_state = model.calibration
+        if solve_steady_state:
+            from .steady_state import find_steady_state
+
+            steady_state = find_steady_state(model)
+        else:
+            steady_state = model.calibration
 
     G_s, G_x, G_e, F_s, F_x, F_S, F_X = get_derivatives(
         model, steady_state=steady_state
-- 
2.43.0


From 2f57ab38cf4cba299051309bcee9d4b973670da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:09 +0000
Subject: [PATCH 43/58] fix: tables over two states evaluate decision rules at
 one row of states

---
 dolo/algos/simulations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/algos/simulations.py b/dolo/algos/simulations.py
index fd3464a..a3a37b7 100644
--- a/dolo/algos/simulations.py
+++ b/dolo/algos/simulations.py
@@ -334,7 +334,7 @@ def tabulate_2d(model, dr, states=None, i0=0, s0=None, n=[12, 13]):
         s[i_x] = xx
         for yy in lps[1]:
             s[i_y] = yy
-            x = dr.eval_is(i0, s)
+            x = dr.eval_is(i0, s[None, :])[0, :]
             vv.append(numpy.concatenate([s, x]))
         vals.append(vv)
     vv = numpy.array(vals)
-- 
2.43.0


From 8fc0614c3a35af107225e2b6a34305d54f6d2ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:58 +0000
Subject: [PATCH 44/58] fix: perfect foresight uses the first value of a series
 of shocks

---
 dolo/algos/perfect_foresight.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dolo/algos/perfect_foresight.py b/dolo/algos/perfect_foresight.py
index 9950d55..d239976 100644
--- a/dolo/algos/perfect_foresight.py
+++ b/dolo/algos/perfect_foresight.py
@@ -24,7 +24,7 @@ def _shocks_to_epsilons(model, shocks, T):
         epsilons = np.zeros((T + 1, n_e))
         for i, k in enumerate(model.symbols["exogenous"]):
             if k in shocks:
-                this_shock = shocks[k]
+                this_shock = shocks[k][: T + 1]
                 epsilons[: len(this_shock), i] = this_shock
                 epsilons[len(this_shock) :, i] = this_shock[-1]
             else:
@@ -43,9 +43,10 @@ def _shocks_to_epsilons(model, shocks, T):
     shocks = shocks.reshape((-1, n_e))
 
     # until last period, exogenous shock takes its last value
+    shocks = shocks[: T + 1, :]
     epsilons = np.zeros((T + 1, n_e))
-    epsilons[: (shocks.shape[0] - 1), :] = shocks[1:, :]
-    epsilons[(shocks.shape[0] - 1) :, :] = shocks[-1:, :]
+    epsilons[: shocks.shape[0], :] = shocks
+    epsilons[shocks.shape[0] :, :] = shocks[-1:, :]
 
     return epsilons
 
-- 
2.43.0


From fa82f81bd0f2437981eb74c97db1a00c523b71ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:58 +0000
Subject: [PATCH 45/58] fix: perfect foresight simulations start from the
 initial state

---
 dolo/algos/perfect_foresight.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/dolo/algos/perfect_foresight.py b/dolo/algos/perfect_foresight.py
index d239976..df1599c 100644
--- a/dolo/algos/perfect_foresight.py
+++ b/dolo/algos/perfect_foresight.py
@@ -165,10 +165,9 @@ def deterministic_solve(
         from dolo.algos.steady_state import find_steady_state
 
         start_state = find_steady_state(model, m=m0)
-        s0 = start_state["states"]
+        if s0 is None:
+            s0 = start_state["states"]
         x0 = start_state["controls"]
-        m1 = epsilons[1, :]
-        s1 = model.functions["transition"](m0, s0, x0, m1, p)
     else:
         if s0 is None:
             s0 = model.calibration["states"]
@@ -179,17 +178,17 @@ def deterministic_solve(
         # we should probably do something here with the nature of the exogenous process if specified
         # i.e. compute nonlinear irf
         epsilons = _shocks_to_epsilons(model, exogenous, T)
+        epsilons[0, :] = m0
         x0 = model.calibration["controls"]
-        m1 = epsilons[1, :]
-        s1 = model.functions["transition"](m0, s0, x0, m1, p)
-        s1 = np.array(s1)
+
+    s0 = np.array(s0)
 
     x1_g = model.calibration["controls"]  # we can do better here
     sT_g = model.calibration["states"]  # we can do better here
     xT_g = model.calibration["controls"]  # we can do better here
 
     if initial_guess is None:
-        start = np.concatenate([s1, x1_g])
+        start = np.concatenate([s0, x1_g])
         final = np.concatenate([sT_g, xT_g])
         initial_guess = np.row_stack(
             [start * (1 - l) + final * l for l in linspace(0.0, 1.0, T + 1)]
@@ -223,13 +222,13 @@ def deterministic_solve(
         lower_bound = None
         upper_bound = None
 
-    det_residual(model, initial_guess, s1, xT_g, epsilons)
+    det_residual(model, initial_guess, s0, xT_g, epsilons)
 
     if not ignore_constraints:
 
         def ff(vec):
             return det_residual(
-                model, vec.reshape(sh), s1, xT_g, epsilons, jactype="sparse"
+                model, vec.reshape(sh), s0, xT_g, epsilons, jactype="sparse"
             )
 
         v0 = initial_guess.ravel()
@@ -262,7 +261,7 @@ def deterministic_solve(
     else:
 
         def ff(vec):
-            ll = det_residual(model, vec.reshape(sh), s1, xT_g, epsilons, diff=True)
+            ll = det_residual(model, vec.reshape(sh), s0, xT_g, epsilons, diff=True)
             return ll
 
         v0 = initial_guess.ravel()
-- 
2.43.0


From 9524e3ee3c264c0491f8380667da54da52e2d711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:59 +0000
Subject: [PATCH 46/58] fix: a former solution can be the initial guess of a
 perfect foresight simulation

---
 dolo/algos/perfect_foresight.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dolo/algos/perfect_foresight.py b/dolo/algos/perfect_foresight.py
index df1599c..287a84b 100644
--- a/dolo/algos/perfect_foresight.py
+++ b/dolo/algos/perfect_foresight.py
@@ -199,7 +199,8 @@ def deterministic_solve(
             initial_guess = np.array(
                 initial_guess[model.symbols["states"] + model.symbols["controls"]]
             )
-        initial_guess = initial_guess[1:, :]
+        # drop the date -1, if any
+        initial_guess = initial_guess[-(T + 1) :, :]
         initial_guess = initial_guess[:, : n_s + n_x]
 
     sh = initial_guess.shape
-- 
2.43.0


From 8b5ee831a2e1dc0af47d4265e2698a04c23f075a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:59 +0000
Subject: [PATCH 47/58] fix: perfect foresight detects non constant bounds next
 to infinite ones

---
 dolo/algos/perfect_foresight.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dolo/algos/perfect_foresight.py b/dolo/algos/perfect_foresight.py
index 287a84b..0b72bac 100644
--- a/dolo/algos/perfect_foresight.py
+++ b/dolo/algos/perfect_foresight.py
@@ -212,9 +212,9 @@ def deterministic_solve(
         lower_bound[:, n_s:] = lb
         upper_bound = initial_guess * 0 + np.inf
         upper_bound[:, n_s:] = ub
-        test1 = max(lb.max(axis=0) - lb.min(axis=0))
-        test2 = max(ub.max(axis=0) - ub.min(axis=0))
-        if test1 > 0.00000001 or test2 > 0.00000001:
+        test1 = np.allclose(lb, lb[:1, :], rtol=0, atol=0.00000001)
+        test2 = np.allclose(ub, ub[:1, :], rtol=0, atol=0.00000001)
+        if not (test1 and test2):
             msg = "Not implemented: perfect foresight solution requires that "
             msg += "controls have constant bounds."
             raise Exception(msg)
-- 
2.43.0


From 2280e2e220eeac579720a1b263dbb976022d654e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:59 +0000
Subject: [PATCH 48/58] fix: options of the solver without constraints in
 perfect foresight simulations

---
 dolo/algos/perfect_foresight.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dolo/algos/perfect_foresight.py b/dolo/algos/perfect_foresight.py
index 0b72bac..140ddad 100644
--- a/dolo/algos/perfect_foresight.py
+++ b/dolo/algos/perfect_foresight.py
@@ -271,7 +271,9 @@ def deterministic_solve(
         # sol = sol.x.reshape(sh)
         from dolo.numeric.optimize.newton import newton
 
-        sol, nit = newton(ff, v0, jactype="sparse")
+        sol, nit = newton(
+            ff, v0, verbose=verbose, maxit=maxit, tol=tol, jactype="sparse"
+        )
         sol = sol.reshape(sh)
 
     # sol = sol[:-1, :]
-- 
2.43.0


From 1d8056249c780c8b4a4c6c1f17150a5d569bb740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:59 +0000
Subject: [PATCH 49/58] fix: perfect foresight simulations with lmmcp

---
 dolo/algos/perfect_foresight.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dolo/algos/perfect_foresight.py b/dolo/algos/perfect_foresight.py
index 140ddad..fc41385 100644
--- a/dolo/algos/perfect_foresight.py
+++ b/dolo/algos/perfect_foresight.py
@@ -248,11 +248,11 @@ def deterministic_solve(
             from dolo.numeric.extern.lmmcp import lmmcp
 
             sol = lmmcp(
-                lambda u: ff(u)[0],
-                lambda u: ff(u)[1].todense(),
+                lambda u: -ff(u)[0],
+                lambda u: -ff(u)[1].toarray(),
+                initial_guess.ravel(),
                 lower_bound.ravel(),
                 upper_bound.ravel(),
-                initial_guess.ravel(),
                 verbose=verbose,
             )
             nit = -1
-- 
2.43.0


From 1099717c894d737b8a7a5af4488f39c95a59bdd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:41 +0000
Subject: [PATCH 50/58] fix: perfect foresight simulations with lmmcp share the
 sign convention of ncpsolve

---
 dolo/algos/perfect_foresight.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolo/algos/perfect_foresight.py b/dolo/algos/perfect_foresight.py
index fc41385..a1d8c92 100644
--- a/dolo/algos/perfect_foresight.py
+++ b/dolo/algos/perfect_foresight.py
@@ -248,8 +248,8 @@ def deterministic_solve(
             from dolo.numeric.extern.lmmcp import lmmcp
 
             sol = lmmcp(
-                lambda u: -ff(u)[0],
-                lambda u: -ff(u)[1].toarray(),
+                lambda u: ff(u)[0],
+                lambda u: ff(u)[1].toarray(),
                 initial_guess.ravel(),
                 lower_bound.ravel(),
                 upper_bound.ravel(),
-- 
2.43.0


From 0c672dad03aa6b4b131f4cc79b25d7743c6c8178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:28 +0000
Subject: [PATCH 51/58] fix: lmmcp raises when the search ends with undefined
 residuals

---
 dolo/numeric/extern/lmmcp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/numeric/extern/lmmcp.py b/dolo/numeric/extern/lmmcp.py
index ed5dbf8..f512497 100644
--- a/dolo/numeric/extern/lmmcp.py
+++ b/dolo/numeric/extern/lmmcp.py
@@ -371,7 +371,7 @@ def lmmcp(fun, Dfun, x0, lb, ub, verbose=True, options={}):
         if verbose:
             print("{}\t{}\t{}\t{}\n".format(k, Psix, normDPsix, t))
 
-    if k == kmax:
+    if not (Psix <= eps2):
         raise Exception("No convergence")
     return x
 
-- 
2.43.0


From 56f7249cf5c5822d8f36f5692bc9570c29a4ef57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:29 +0000
Subject: [PATCH 52/58] fix: bounds do not alter the terminal condition of
 perfect foresight simulations

---
 dolo/algos/perfect_foresight.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dolo/algos/perfect_foresight.py b/dolo/algos/perfect_foresight.py
index a1d8c92..ab10255 100644
--- a/dolo/algos/perfect_foresight.py
+++ b/dolo/algos/perfect_foresight.py
@@ -363,7 +363,7 @@ def det_residual(model, guess, start, final, shocks, diff=True, jactype="sparse"
     res[:-1, n_s:] = res_x
 
     res[0, :n_s] = -(guess[0, :n_s] - start)
-    res[-1, n_s:] = -(guess[-1, n_s:] - guess[-2, n_s:])
+    res[-1, n_s:] = guess[-1, n_s:] - guess[-2, n_s:]
 
     if not diff:
         return res
@@ -394,8 +394,8 @@ def det_residual(model, guess, start, final, shocks, diff=True, jactype="sparse"
                 # jac[i,:n_s,i+1,n_s:] = SS_x[i,:,:]
                 # jac[i+1,:n_s,i+1,:n_s] = -np.eye(n_s)
             jac[0, :n_s, 0, :n_s] = -np.eye(n_s)
-            jac[-1, n_s:, -1, n_s:] = -np.eye(n_x)
-            jac[-1, n_s:, -2, n_s:] = +np.eye(n_x)
+            jac[-1, n_s:, -1, n_s:] = +np.eye(n_x)
+            jac[-1, n_s:, -2, n_s:] = -np.eye(n_x)
             nn = jac.shape[0] * jac.shape[1]
             res = res.ravel()
             jac = jac.reshape((nn, nn))
-- 
2.43.0


From d7994ec95a97f9e84ab6776d9f35b5e6895975dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:25 +0000
Subject: [PATCH 53/58] fix: improved time iteration with invmethod="gmres"
 (scipy replaced the tolerance option)

---
 dolo/algos/improved_time_iteration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/algos/improved_time_iteration.py b/dolo/algos/improved_time_iteration.py
index e39697b..c52ebe9 100644
--- a/dolo/algos/improved_time_iteration.py
+++ b/dolo/algos/improved_time_iteration.py
@@ -458,7 +458,7 @@ def improved_time_iteration(
             L.addid = True
             ttol = err_0 / 100
             sol = scipy.sparse.linalg.gmres(
-                L, ddx.ravel(), tol=ttol
+                L, ddx.ravel(), rtol=ttol, atol=ttol
             )  # , maxiter=1, restart=smaxit)
             lam0 = 0.01
             nn = L.counter - n0
-- 
2.43.0


From e0e21d4c8dfb0b758b317b888455f2da9b6abd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:25 +0000
Subject: [PATCH 54/58] fix: egm does not print every exogenous state unless
 asked to

---
 dolo/algos/egm.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dolo/algos/egm.py b/dolo/algos/egm.py
index 5e158c9..626f300 100644
--- a/dolo/algos/egm.py
+++ b/dolo/algos/egm.py
@@ -107,7 +107,6 @@ def egm(
                 w = dp.iweight(i_m, i_M)
                 M = dp.inode(i_m, i_M)
                 S = gt(m, a, M, p)
-                print(it, i_m, i_M)
                 X = drfut(i_M, S)
                 z[i_m, :, :] += w * h(M, S, X, p)
             xa[i_m, :, :] = τ(m, a, z[i_m, :, :], p)
-- 
2.43.0


From 3d00ddad922dc9fe6490a9a974f07a48f5e77be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:46 +0000
Subject: [PATCH 55/58] fix: value iteration runs again (bounds of the controls
 come with the arbitrage equations)

---
 dolo/algos/value_iteration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolo/algos/value_iteration.py b/dolo/algos/value_iteration.py
index 8e52d13..afc34ba 100644
--- a/dolo/algos/value_iteration.py
+++ b/dolo/algos/value_iteration.py
@@ -50,8 +50,8 @@ def value_iteration(
 
     transition = model.functions["transition"]
     felicity = model.functions["felicity"]
-    controls_lb = model.functions["controls_lb"]
-    controls_ub = model.functions["controls_ub"]
+    controls_lb = model.functions["arbitrage_lb"]
+    controls_ub = model.functions["arbitrage_ub"]
 
     parms = model.calibration["parameters"]
     discount = model.calibration["beta"]
-- 
2.43.0


From 16ee2a558f30398104b100c0d3e4f43be0576540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:50 +0000
Subject: [PATCH 56/58] fix: second_order_solver no longer imports numpy.mat,
 removed from numpy 2

---
 dolo/numeric/matrix_equations.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/dolo/numeric/matrix_equations.py b/dolo/numeric/matrix_equations.py
index d9c5e44..3adda8a 100644
--- a/dolo/numeric/matrix_equations.py
+++ b/dolo/numeric/matrix_equations.py
@@ -13,16 +13,12 @@ def second_order_solver(FF, GG, HH, eigmax=1.0 + 1e-6):
 
     from numpy import (
         array,
-        mat,
         c_,
         r_,
         eye,
         zeros,
         real_if_close,
-        diag,
         allclose,
-        where,
-        diagflat,
     )
     from numpy.linalg import solve
 
-- 
2.43.0


From 5f8edcb1d46e2985e5421ff1a0ec2887518adc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:05 +0000
Subject: [PATCH 57/58] fix: caches distinguish arguments with the same hash,
 and arrays of different shapes

---
 dolo/misc/caching.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/dolo/misc/caching.py b/dolo/misc/caching.py
index 37ff9d6..6ff1424 100644
--- a/dolo/misc/caching.py
+++ b/dolo/misc/caching.py
@@ -16,7 +16,8 @@ class memoized(object):
         targs = (e for e in args)
         hh = tuple(hashable(e) for e in targs)
         h2 = hashable(kargs)
-        h = hash((hh, h2))
+        # not hash((hh, h2)): different arguments can have the same hash
+        h = (hh, h2)
         try:
             return self.cache[h]
         except KeyError:
@@ -59,7 +60,7 @@ class cachedondisk(object):
 
         hh = tuple(hashable(e) for e in args)
         h2 = hashable(kargs)
-        h = hash((hh, h2))
+        h = digest((hh, h2))
         try:
             with open(".cache/{0}.{1}.pickle".format(self.fname, h), "rb") as f:
                 value = pickle.load(f)
@@ -112,7 +113,7 @@ class DiskDictionary:
         import pickle
 
         hh = tuple(hashable(k) for k in key)
-        h = hash(hh)
+        h = digest(hh)
         filename = "{0}/{1}.{2}.pickle".format(self.directory, self.funname, h)
         return filename
 
@@ -138,12 +139,19 @@ class DiskDictionary:
             return None
 
 
-import collections
+def digest(key):
+    # different keys can have the same hash
+    import hashlib
+
+    return hashlib.md5(repr(key).encode()).hexdigest()
+
+
+import collections.abc
 
 
 def hashable(obj):
     if hasattr(obj, "flatten"):  # for numpy arrays
-        return tuple(obj.flatten().tolist())
+        return (obj.shape, tuple(obj.flatten().tolist()))
     if isinstance(obj, collections.abc.Hashable):
         return obj
     if isinstance(obj, collections.abc.Mapping):
-- 
2.43.0


From 6e57630f40fdb8534d767c1519bd4b3fd5d7a1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:05 +0000
Subject: [PATCH 58/58] fix: DiskDictionary opens its files in binary mode

---
 dolo/misc/caching.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolo/misc/caching.py b/dolo/misc/caching.py
index 6ff1424..8287ec2 100644
--- a/dolo/misc/caching.py
+++ b/dolo/misc/caching.py
@@ -122,7 +122,7 @@ class DiskDictionary:
 
         filename = self.get_filename(key)
         try:
-            with open(filename, "w") as f:
+            with open(filename, "wb") as f:
                 pickle.dump(value, f)
         except TypeError as e:
             raise e
@@ -132,7 +132,7 @@ class DiskDictionary:
 
         filename = self.get_filename(item)
         try:
-            with open(filename) as f:
+            with open(filename, "rb") as f:
                 value = pickle.load(f)
                 return value
         except:
-- 
2.43.0

