From 368b24a8a0a8558b2b366cca3ab85c310ff58546 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:49 +0000
Subject: [PATCH 01/30] fix: samplers: in_search_space must return the
 feasibility test ('Reject' rejected everything)

---
 stochopy/sample/_common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stochopy/sample/_common.py b/stochopy/sample/_common.py
index 79ab58a..f841e1a 100644
--- a/stochopy/sample/_common.py
+++ b/stochopy/sample/_common.py
@@ -4,6 +4,6 @@ import numpy as np
 def in_search_space(x, lower, upper, constraints):
     """Determine feasibility of a sample."""
     if constraints == "Reject":
-        np.logical_and(np.all(x >= lower), np.all(x <= upper))
+        return np.logical_and(np.all(x >= lower), np.all(x <= upper))
     else:
         return True
-- 
2.43.0


From 32a60c6986193b0e16c7c2d2454b62525d369ccd Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:49 +0000
Subject: [PATCH 02/30] fix: hmc: a user-supplied jac recursed for ever

---
 stochopy/sample/hmc/_hmc.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/stochopy/sample/hmc/_hmc.py b/stochopy/sample/hmc/_hmc.py
index 82199ac..b0dacf3 100644
--- a/stochopy/sample/hmc/_hmc.py
+++ b/stochopy/sample/hmc/_hmc.py
@@ -112,9 +112,9 @@ def sample(
         raise TypeError()
 
     if jac is None:
-        jac = lambda x: numerical_gradient(x, fun, args, finite_diff_abs_step)
+        grad = lambda x: numerical_gradient(x, fun, args, finite_diff_abs_step)
     else:
-        jac = lambda x: jac(x, *args)
+        grad = lambda x: jac(x, *args)
 
     # Seed
     if seed is not None:
@@ -147,12 +147,12 @@ def sample(
         q0 = q.copy()
         p0 = p.copy()
 
-        p -= 0.5 * stepsize * jac(q)  # First half momentum step
+        p -= 0.5 * stepsize * grad(q)  # First half momentum step
         q += stepsize * p  # First full position step
         for _ in range(nleap):
-            p -= stepsize * jac(q)  # Momentum
+            p -= stepsize * grad(q)  # Momentum
             q += stepsize * p  # Position
-        p -= 0.5 * stepsize * jac(q)  # Last half momentum step
+        p -= 0.5 * stepsize * grad(q)  # Last half momentum step
 
         accept = False
         if in_search_space(q, lower, upper, constraints):
-- 
2.43.0


From 63c719939f716ac966fd4fa4aa7935368d24678e Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:49 +0000
Subject: [PATCH 03/30] fix: samplers: the first sample can be the best one

---
 stochopy/sample/hmc/_hmc.py   | 2 +-
 stochopy/sample/mcmc/_mcmc.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/stochopy/sample/hmc/_hmc.py b/stochopy/sample/hmc/_hmc.py
index b0dacf3..03fa744 100644
--- a/stochopy/sample/hmc/_hmc.py
+++ b/stochopy/sample/hmc/_hmc.py
@@ -140,7 +140,7 @@ def sample(
 
     # Leap-frog algorithm
     n_accepted = 0
-    imin, fmin = 0, np.Inf
+    imin, fmin = 0, funall[0]
     for i in range(1, maxiter):
         q = xall[i - 1].copy()
         p = np.random.randn(ndim)  # Random momentum
diff --git a/stochopy/sample/mcmc/_mcmc.py b/stochopy/sample/mcmc/_mcmc.py
index cd47e83..5fc5389 100644
--- a/stochopy/sample/mcmc/_mcmc.py
+++ b/stochopy/sample/mcmc/_mcmc.py
@@ -119,7 +119,7 @@ def sample(
     # Metropolis-Hastings algorithm
     i = 1
     n_accepted = 0
-    imin, fmin = 0, np.Inf
+    imin, fmin = 0, funall[0]
     while i < maxiter:
         for j in np.arange(0, ndim, ndim_per_iter):
             jmax = min(ndim, j + ndim_per_iter - 1)
-- 
2.43.0


From 0d69eb72ac841747ebd4f4787abb01249bab7e17 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:49 +0000
Subject: [PATCH 04/30] fix: samplers: the callback's xall and funall lacked
 the current sample

---
 stochopy/sample/hmc/_hmc.py   | 2 +-
 stochopy/sample/mcmc/_mcmc.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/stochopy/sample/hmc/_hmc.py b/stochopy/sample/hmc/_hmc.py
index 03fa744..f4ba322 100644
--- a/stochopy/sample/hmc/_hmc.py
+++ b/stochopy/sample/hmc/_hmc.py
@@ -182,7 +182,7 @@ def sample(
                 accept_ratio=n_accepted / (i + 1),
             )
             if return_all:
-                res.update({"xall": xall[:i], "funall": funall[:i]})
+                res.update({"xall": xall[: i + 1], "funall": funall[: i + 1]})
 
             callback(xall[i], res)
 
diff --git a/stochopy/sample/mcmc/_mcmc.py b/stochopy/sample/mcmc/_mcmc.py
index 5fc5389..34fb4a3 100644
--- a/stochopy/sample/mcmc/_mcmc.py
+++ b/stochopy/sample/mcmc/_mcmc.py
@@ -151,7 +151,7 @@ def sample(
                     accept_ratio=n_accepted / i,
                 )
                 if return_all:
-                    res.update({"xall": xall[: i - 1], "funall": funall[: i - 1]})
+                    res.update({"xall": xall[:i], "funall": funall[:i]})
 
                 callback(xall[i - 1], res)
 
-- 
2.43.0


From e9e76cb9dc27f573299e0338aa84d337d17368a9 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:49 +0000
Subject: [PATCH 05/30] fix: samplers: do not scale the user's stepsize array
 in place (integer step sizes failed)

---
 stochopy/sample/hmc/_hmc.py   | 2 +-
 stochopy/sample/mcmc/_mcmc.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/stochopy/sample/hmc/_hmc.py b/stochopy/sample/hmc/_hmc.py
index f4ba322..c86c13f 100644
--- a/stochopy/sample/hmc/_hmc.py
+++ b/stochopy/sample/hmc/_hmc.py
@@ -105,7 +105,7 @@ def sample(
     if len(stepsize) != ndim:
         raise ValueError()
 
-    stepsize *= 0.5 * (upper - lower)
+    stepsize = stepsize * (0.5 * (upper - lower))
 
     # Jacobian
     if not (jac is None or hasattr(jac, "__call__")):
diff --git a/stochopy/sample/mcmc/_mcmc.py b/stochopy/sample/mcmc/_mcmc.py
index 34fb4a3..f16799b 100644
--- a/stochopy/sample/mcmc/_mcmc.py
+++ b/stochopy/sample/mcmc/_mcmc.py
@@ -86,7 +86,7 @@ def sample(
     if len(stepsize) != ndim:
         raise ValueError()
 
-    stepsize *= 0.5 * (upper - lower)
+    stepsize = stepsize * (0.5 * (upper - lower))
 
     # Number of dimensions to perturb per iteration
     if not 0.0 <= perc <= 1.0:
-- 
2.43.0


From c4722bc041f6d374bb57ba1e0bba0b9afc7e46cb Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:49 +0000
Subject: [PATCH 06/30] fix: de, cpso: work on a float copy of x0 (x0 was
 overwritten, lists failed, integers were truncated)

---
 stochopy/optimize/cpso/_cpso.py | 2 +-
 stochopy/optimize/de/_de.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/stochopy/optimize/cpso/_cpso.py b/stochopy/optimize/cpso/_cpso.py
index 4ff9398..089800e 100644
--- a/stochopy/optimize/cpso/_cpso.py
+++ b/stochopy/optimize/cpso/_cpso.py
@@ -216,7 +216,7 @@ def cpso(
         delta = np.log(1.0 + 0.003 * popsize) / np.max((0.2, np.log(0.01 * maxiter)))
 
     # Initial population
-    X = x0 if x0 is not None else lhs(popsize, ndim, bounds)
+    X = np.array(x0, dtype=float) if x0 is not None else lhs(popsize, ndim, bounds)
     V = np.zeros((popsize, ndim))
     pbest = X.copy()
 
diff --git a/stochopy/optimize/de/_de.py b/stochopy/optimize/de/_de.py
index d1185ed..db11acc 100644
--- a/stochopy/optimize/de/_de.py
+++ b/stochopy/optimize/de/_de.py
@@ -205,7 +205,7 @@ def de(
     de_iter = de_sync if sync else de_async
 
     # Initial population
-    X = x0 if x0 is not None else lhs(popsize, ndim, bounds)
+    X = np.array(x0, dtype=float) if x0 is not None else lhs(popsize, ndim, bounds)
     U = np.empty((popsize, ndim))
 
     # Evaluate initial population
-- 
2.43.0


From 7a8356d16269dc34e0bf5a77744380c89e3c4290 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:49 +0000
Subject: [PATCH 07/30] fix: na: the first row of xall was in normalized
 coordinates

---
 stochopy/optimize/na/_na.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stochopy/optimize/na/_na.py b/stochopy/optimize/na/_na.py
index 97b1bdc..7b69a50 100644
--- a/stochopy/optimize/na/_na.py
+++ b/stochopy/optimize/na/_na.py
@@ -190,13 +190,13 @@ def na(
         if nout > 0:
             xall = np.empty((maxiter, nout, ndim))
             funall = np.empty((maxiter, nout))
-            xall[0] = X[:nout].copy()
+            xall[0] = unnormalize(X[:nout])
             funall[0] = pfit[:nout].copy()
 
         else:
             xall = np.empty((maxiter, 1, ndim))
             funall = np.empty((maxiter, 1))
-            xall[0] = gbest
+            xall[0] = unnormalize(gbest)
             funall[0] = gfit
 
     # First iteration for callback
-- 
2.43.0


From da150c6e769995394a2deec9b630ca3e53e716ca Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:49 +0000
Subject: [PATCH 08/30] fix: na: the default callback was not a valid callback

---
 stochopy/optimize/na/_na.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stochopy/optimize/na/_na.py b/stochopy/optimize/na/_na.py
index 7b69a50..df1b975 100644
--- a/stochopy/optimize/na/_na.py
+++ b/stochopy/optimize/na/_na.py
@@ -23,7 +23,7 @@ def minimize(
     backend=None,
     return_all=False,
     verbosity=1.0,
-    callback=True,
+    callback=None,
 ):
     """
     Minimize an objective function using Neighborhood Algorithm (NA).
-- 
2.43.0


From 9ac006b831e850b42ee0919cdb93b92a1a0b621b Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:22 +0000
Subject: [PATCH 09/30] fix: na: fixed coordinates distorted the Voronoi cells

---
 stochopy/optimize/na/_na.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/stochopy/optimize/na/_na.py b/stochopy/optimize/na/_na.py
index df1b975..c314e04 100644
--- a/stochopy/optimize/na/_na.py
+++ b/stochopy/optimize/na/_na.py
@@ -157,7 +157,7 @@ def na(
     span = upper - lower
     span_mask = span > 0.0
     span[~span_mask] = 1.0  # Avoid zero division in normalize
-    normalize = lambda x: np.where(span_mask, (x - lower) / span, upper)
+    normalize = lambda x: np.where(span_mask, (x - lower) / span, 0.0)
     unnormalize = lambda x: np.where(span_mask, x * span + lower, upper)
 
     fun = lambda x: funnorm(unnormalize(x))
@@ -283,20 +283,17 @@ def mutation(Xall, Xallfit, popsize, ndim, nr, span_mask):
         d2 = ((U[:, 1:] - X[i, 1:]) ** 2).sum(axis=1)
 
         for j in range(ndim):
-            if not span_mask[j]:
-                # Value does not matter as it will be fixed by unnormalize
-                X[i, j] = 0.0
-                continue
+            # Fixed coordinates are all zero and will be set by unnormalize
+            if span_mask[j]:
+                lim = 0.5 * (Xall[k, j] + U[:, j] + (d1 - d2) / (Xall[k, j] - U[:, j]))
 
-            lim = 0.5 * (Xall[k, j] + U[:, j] + (d1 - d2) / (Xall[k, j] - U[:, j]))
+                idx = lim <= X[i, j]
+                low = max(lim[idx].max(), 0.0) if idx.sum() else 0.0
 
-            idx = lim <= X[i, j]
-            low = max(lim[idx].max(), 0.0) if idx.sum() else 0.0
+                idx = lim >= X[i, j]
+                high = min(lim[idx].min(), 1.0) if idx.sum() else 1.0
 
-            idx = lim >= X[i, j]
-            high = min(lim[idx].min(), 1.0) if idx.sum() else 1.0
-
-            X[i, j] = np.random.uniform(low, high)
+                X[i, j] = np.random.uniform(low, high)
 
             if j < ndim - 1:
                 d1 += (Xall[k, j] - X[i, j]) ** 2 - (Xall[k, j + 1] - X[i, j + 1]) ** 2
-- 
2.43.0


From b8d97b06cf2dc06a50a1a21a3170df437e0672e1 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:22 +0000
Subject: [PATCH 10/30] fix: de: funall held the values of the trials, not of
 the members in xall

---
 stochopy/optimize/de/_de.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stochopy/optimize/de/_de.py b/stochopy/optimize/de/_de.py
index db11acc..28b6730 100644
--- a/stochopy/optimize/de/_de.py
+++ b/stochopy/optimize/de/_de.py
@@ -270,12 +270,12 @@ def de(
         if return_all:
             if nout > 0:
                 xall[it - 1] = X[:nout].copy()
-                funall[it - 1] = pfit[:nout].copy()
+                funall[it - 1] = pbestfit[:nout].copy()
 
             else:
-                idx = pfit.argmin()
+                idx = pbestfit.argmin()
                 xall[it - 1] = X[idx].copy()
-                funall[it - 1] = pfit[idx].copy()
+                funall[it - 1] = pbestfit[idx].copy()
 
         converged = status is not None
 
-- 
2.43.0


From 3f6e7a67e35aaf33dc51aa3e0c3d63515830f3b6 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:22 +0000
Subject: [PATCH 11/30] fix: de, cpso: immediate updating forgot a convergence
 reached before the last individual

---
 stochopy/optimize/cpso/_cpso.py | 10 ++++++++--
 stochopy/optimize/de/_de.py     | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/stochopy/optimize/cpso/_cpso.py b/stochopy/optimize/cpso/_cpso.py
index 089800e..00a9ecb 100644
--- a/stochopy/optimize/cpso/_cpso.py
+++ b/stochopy/optimize/cpso/_cpso.py
@@ -383,6 +383,7 @@ def pso_async(
 ):
     """Asynchronous PSO."""
     popsize = len(X)
+    xbest = gbest
 
     for i in range(popsize):
         # Mutation
@@ -391,12 +392,17 @@ def pso_async(
         )
 
         # Selection
-        gbest, gfit, pfit[i], status = selection_async(
+        gbest, gfit, pfit[i], _ = selection_async(
             it, X, gbest, gfit, pbest, pbestfit, maxiter, xtol, ftol, fun, i
         )
 
+    # Check convergence over the whole iteration
+    status = None
+    if gfit <= ftol:
+        status = 0 if np.linalg.norm(xbest - gbest) <= xtol else 1
+
     # Stop if maximum iteration is reached
-    if status is None and it >= maxiter:
+    elif it >= maxiter:
         status = -1
 
     return X, V, pbest, gbest, pbestfit, gfit, pfit, status
diff --git a/stochopy/optimize/de/_de.py b/stochopy/optimize/de/_de.py
index 28b6730..1106033 100644
--- a/stochopy/optimize/de/_de.py
+++ b/stochopy/optimize/de/_de.py
@@ -371,6 +371,7 @@ def de_async(
 ):
     """Asynchronous DE."""
     popsize, ndim = X.shape
+    xbest = gbest
 
     for i in range(popsize):
         # Mutation
@@ -383,12 +384,17 @@ def de_async(
         U[i] = cons(np.where(np.logical_or(mask, r1[i] <= CR), V, X[i]))
 
         # Selection
-        gbest, gfit, pfit[i], status = selection_async(
+        gbest, gfit, pfit[i], _ = selection_async(
             it, U, gbest, gfit, X, pbestfit, maxiter, xtol, ftol, fun, i
         )
 
+    # Check convergence over the whole iteration
+    status = None
+    if gfit <= ftol:
+        status = 0 if np.linalg.norm(xbest - gbest) <= xtol else 1
+
     # Stop if maximum iteration is reached
-    if status is None and it >= maxiter:
+    elif it >= maxiter:
         status = -1
 
     return X, gbest, pbestfit, gfit, pfit, status
-- 
2.43.0


From 96e9fbc0aeadcb421602a01cf42498e33b3e41e1 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:22 +0000
Subject: [PATCH 12/30] fix: de, cpso, na: maxiter=1 ran two iterations (and
 overran xall)

---
 stochopy/optimize/cpso/_cpso.py | 3 ++-
 stochopy/optimize/de/_de.py     | 3 ++-
 stochopy/optimize/na/_na.py     | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/stochopy/optimize/cpso/_cpso.py b/stochopy/optimize/cpso/_cpso.py
index 00a9ecb..039722d 100644
--- a/stochopy/optimize/cpso/_cpso.py
+++ b/stochopy/optimize/cpso/_cpso.py
@@ -255,7 +255,8 @@ def cpso(
 
     # Iterate until one of the termination criterion is satisfied
     it = 1
-    converged = False
+    status = -1 if it >= maxiter else None
+    converged = status is not None
     while not converged:
         it += 1
 
diff --git a/stochopy/optimize/de/_de.py b/stochopy/optimize/de/_de.py
index 1106033..e482410 100644
--- a/stochopy/optimize/de/_de.py
+++ b/stochopy/optimize/de/_de.py
@@ -243,7 +243,8 @@ def de(
 
     # Iterate until one of the termination criterion is satisfied
     it = 1
-    converged = False
+    status = -1 if it >= maxiter else None
+    converged = status is not None
     while not converged:
         it += 1
 
diff --git a/stochopy/optimize/na/_na.py b/stochopy/optimize/na/_na.py
index c314e04..5bd99ff 100644
--- a/stochopy/optimize/na/_na.py
+++ b/stochopy/optimize/na/_na.py
@@ -209,7 +209,8 @@ def na(
 
     # Iterate until one of the termination criterion is satisfied
     it = 1
-    converged = False
+    status = -1 if it >= maxiter else None
+    converged = status is not None
     while not converged:
         it += 1
 
-- 
2.43.0


From 96bc605b98e6555ef2484f807e981e9899f94b0e Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:22 +0000
Subject: [PATCH 13/30] fix: optimizers: integer objective values made later
 real values be truncated or fail

---
 stochopy/optimize/_common.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stochopy/optimize/_common.py b/stochopy/optimize/_common.py
index d81155e..b159a4e 100644
--- a/stochopy/optimize/_common.py
+++ b/stochopy/optimize/_common.py
@@ -40,7 +40,7 @@ def optimizer(optfun):
 
                         def wrapper(x):
                             f = parallel(fun(xx, *args) for xx in x)
-                            return np.array(f)
+                            return np.array(f, dtype=float)
 
                     elif backend == "mpi":
                         try:
@@ -77,13 +77,13 @@ def optimizer(optfun):
                 else:
 
                     def wrapper(x):
-                        return np.array([fun(xx, *args) for xx in x])
+                        return np.array([fun(xx, *args) for xx in x], dtype=float)
 
             else:
 
                 def wrapper(x):
                     if x.ndim == 2:
-                        return np.array([fun(xx, *args) for xx in x])
+                        return np.array([fun(xx, *args) for xx in x], dtype=float)
                     else:
                         return fun(x, *args)
 
-- 
2.43.0


From 6fce8fed15a4403212aa1ca90c0dd173ceb3d0ae Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:22 +0000
Subject: [PATCH 14/30] fix: cmaes, vdcma: stagnation tests included the zeros
 of iterations not yet made

---
 stochopy/optimize/cmaes/_cmaes.py | 5 ++---
 stochopy/optimize/vdcma/_vdcma.py | 2 +-
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/stochopy/optimize/cmaes/_cmaes.py b/stochopy/optimize/cmaes/_cmaes.py
index 00f1e15..c27298e 100644
--- a/stochopy/optimize/cmaes/_cmaes.py
+++ b/stochopy/optimize/cmaes/_cmaes.py
@@ -315,7 +315,7 @@ def cmaes(
             maxiter,
             xmean,
             xold,
-            arbestfitness,
+            arbestfitness[:it],
             arfitness,
             arindex,
             sigma,
@@ -408,8 +408,7 @@ def converge(
     # EqualFunValues: stop if the range of fitness values is zero
     elif (
         it >= ilim
-        and arbestfitness[it - ilim : it + 1].max()
-        - arbestfitness[it - ilim : it + 1].min()
+        and arbestfitness[it - ilim :].max() - arbestfitness[it - ilim :].min()
         < 1.0e-10
     ):
         status = -5
diff --git a/stochopy/optimize/vdcma/_vdcma.py b/stochopy/optimize/vdcma/_vdcma.py
index 032d32c..55496eb 100644
--- a/stochopy/optimize/vdcma/_vdcma.py
+++ b/stochopy/optimize/vdcma/_vdcma.py
@@ -383,7 +383,7 @@ def vdcma(
             maxiter,
             xmean,
             xold,
-            arbestfitness,
+            arbestfitness[:it],
             arfitness,
             arindex,
             sigma,
-- 
2.43.0


From b646ee4d935539a83fdbc25b57aaae329e20211b Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:22 +0000
Subject: [PATCH 15/30] fix: cmaes, vdcma: keep at least one parent (NaN
 otherwise)

---
 stochopy/optimize/cmaes/_cmaes.py | 2 +-
 stochopy/optimize/vdcma/_vdcma.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/stochopy/optimize/cmaes/_cmaes.py b/stochopy/optimize/cmaes/_cmaes.py
index c27298e..38e9003 100644
--- a/stochopy/optimize/cmaes/_cmaes.py
+++ b/stochopy/optimize/cmaes/_cmaes.py
@@ -181,7 +181,7 @@ def cmaes(
     xold = np.empty(ndim)
 
     # Number of parents
-    mu = int(muperc * popsize)
+    mu = max(1, int(muperc * popsize))
 
     # Strategy parameter setting: Selection
     weights = np.log(mu + 0.5) - np.log(np.arange(1, mu + 1))
diff --git a/stochopy/optimize/vdcma/_vdcma.py b/stochopy/optimize/vdcma/_vdcma.py
index 55496eb..27c283f 100644
--- a/stochopy/optimize/vdcma/_vdcma.py
+++ b/stochopy/optimize/vdcma/_vdcma.py
@@ -182,7 +182,7 @@ def vdcma(
     xold = np.empty(ndim)
 
     # Number of parents
-    mu = int(muperc * popsize)
+    mu = max(1, int(muperc * popsize))
 
     # Strategy parameter setting: Selection
     weights = np.log(mu + 0.5) - np.log(np.arange(1, mu + 1))
-- 
2.43.0


From 240ad0a608b6c10a5ace32cd348f8879ca9334e6 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 16/30] fix: mpi backend: unseeded ranks diverged (mismatched x
 and fun, deadlock)

---
 stochopy/optimize/_common.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/stochopy/optimize/_common.py b/stochopy/optimize/_common.py
index b159a4e..4f72e41 100644
--- a/stochopy/optimize/_common.py
+++ b/stochopy/optimize/_common.py
@@ -55,6 +55,11 @@ def optimizer(optfun):
                         mpi_size = mpi_comm.Get_size()
                         mpi_double = MPI.DOUBLE
 
+                        # All ranks must draw the same random numbers
+                        np.random.set_state(
+                            mpi_comm.bcast(np.random.get_state(), root=0)
+                        )
+
                         def wrapper(x):
                             popsize = len(x)
                             f = np.zeros(popsize)
-- 
2.43.0


From 93a7c5df8853c02ed25cec6062f1b450ee60c96c Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 17/30] fix: optimizers: an unknown backend was silently
 ignored

---
 stochopy/optimize/_common.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stochopy/optimize/_common.py b/stochopy/optimize/_common.py
index 4f72e41..e76d104 100644
--- a/stochopy/optimize/_common.py
+++ b/stochopy/optimize/_common.py
@@ -96,6 +96,9 @@ def optimizer(optfun):
 
         backend = backend if backend else "threading"
 
+        if backend not in prefer and backend != "mpi":
+            raise ValueError(f"unknown backend '{backend}'")
+
         if backend in prefer and workers not in {0, 1}:
             with Parallel(n_jobs=workers, prefer=prefer[backend]) as parallel:
                 fun = wrapper(fun, args, sync, backend, parallel)
-- 
2.43.0


From 7cf1ed071d8f50d572c412a7b1862c9109a26726 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 18/30] fix: cpso: a restarted particle could become the best
 one for values above 1e30

---
 stochopy/optimize/cpso/_cpso.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stochopy/optimize/cpso/_cpso.py b/stochopy/optimize/cpso/_cpso.py
index 039722d..6a9c943 100644
--- a/stochopy/optimize/cpso/_cpso.py
+++ b/stochopy/optimize/cpso/_cpso.py
@@ -428,7 +428,7 @@ def restart(it, X, V, pbest, gbest, pbestfit, lower, upper, gamma, delta, maxite
             V[idx] = np.zeros((nw, ndim))
             X[idx] = np.random.uniform(lower, upper, (nw, ndim))
             pbest[idx] = X[idx].copy()
-            pbestfit[idx] = np.full(nw, 1.0e30)
+            pbestfit[idx] = np.full(nw, np.inf)
 
     return X, V, pbest, pbestfit
 
-- 
2.43.0


From 1f7e4af4c2d46032dceab52e7cddb7dbcd34a840 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 19/30] fix: cpso: 'Shrink' could overshoot a bound by rounding
 and then yield NaN

---
 stochopy/optimize/cpso/_constraints.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stochopy/optimize/cpso/_constraints.py b/stochopy/optimize/cpso/_constraints.py
index 7f43cbc..3515f31 100644
--- a/stochopy/optimize/cpso/_constraints.py
+++ b/stochopy/optimize/cpso/_constraints.py
@@ -50,7 +50,7 @@ def Shrink(lower, upper, sync):
             )
             V *= beta[:, None]
 
-            return X + V, V
+            return np.clip(X + V, lower, upper), V
 
     else:
 
@@ -61,7 +61,7 @@ def Shrink(lower, upper, sync):
             beta = shrink(X, V, maskl, masku)
             V *= beta
 
-            return X + V, V
+            return np.clip(X + V, lower, upper), V
 
     return cons
 
-- 
2.43.0


From 1556d018a8f39d650b5c7b08c0745bbb214391c5 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 20/30] fix: de: reject populations too small for the strategy
 instead of failing half-way

---
 stochopy/optimize/de/_de.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stochopy/optimize/de/_de.py b/stochopy/optimize/de/_de.py
index e482410..d2f729c 100644
--- a/stochopy/optimize/de/_de.py
+++ b/stochopy/optimize/de/_de.py
@@ -139,6 +139,10 @@ def minimize(
     CR = recombination
     mut = _strategy_map[strategy]
 
+    # Mutation needs enough distinct individuals
+    if popsize < {"best1bin": 3, "rand1bin": 4, "best2bin": 5, "rand2bin": 6}[strategy]:
+        raise ValueError()
+
     # Synchronize
     sync = updating == "deferred"
     sync = sync or workers not in {0, 1}
-- 
2.43.0


From 589ebce3be4654f73ec5f0b17a8abd648d685def Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 21/30] fix: hmc: the callback state lacked nfev

---
 stochopy/sample/hmc/_hmc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stochopy/sample/hmc/_hmc.py b/stochopy/sample/hmc/_hmc.py
index c86c13f..d122bf1 100644
--- a/stochopy/sample/hmc/_hmc.py
+++ b/stochopy/sample/hmc/_hmc.py
@@ -132,7 +132,9 @@ def sample(
 
     # First iteration for callback
     if callback is not None:
-        res = SampleResult(x=xall[0], fun=funall[0], nit=1, accept_ratio=1.0)
+        res = SampleResult(
+            x=xall[0], fun=funall[0], nfev=fun.nfev, nit=1, accept_ratio=1.0
+        )
         if return_all:
             res.update({"xall": xall[:1], "funall": funall[:1]})
 
@@ -178,6 +180,7 @@ def sample(
             res = SampleResult(
                 x=xall[imin],
                 fun=funall[imin],
+                nfev=fun.nfev,
                 nit=i + 1,
                 accept_ratio=n_accepted / (i + 1),
             )
-- 
2.43.0


From fa453514f728778aa65be2a7164dc4dc339538a4 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:25 +0000
Subject: [PATCH 22/30] fix: mcmc: a last block shorter than the others failed

---
 stochopy/sample/mcmc/_mcmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stochopy/sample/mcmc/_mcmc.py b/stochopy/sample/mcmc/_mcmc.py
index f16799b..e7e23d0 100644
--- a/stochopy/sample/mcmc/_mcmc.py
+++ b/stochopy/sample/mcmc/_mcmc.py
@@ -122,7 +122,7 @@ def sample(
     imin, fmin = 0, funall[0]
     while i < maxiter:
         for j in np.arange(0, ndim, ndim_per_iter):
-            jmax = min(ndim, j + ndim_per_iter - 1)
+            jmax = min(ndim - 1, j + ndim_per_iter - 1)
             perturbation = np.random.randn(jmax - j + 1) * stepsize[j : jmax + 1]
 
             xall[i] = xall[i - 1].copy()
-- 
2.43.0


From 8ff7d914458ab980323e09a74e7ff7c66082eb9d Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:50 +0000
Subject: [PATCH 23/30] fix: samplers: x0 of shape (1, 1) was accepted for
 one-dimensional problems

---
 stochopy/sample/hmc/_hmc.py   | 2 +-
 stochopy/sample/mcmc/_mcmc.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/stochopy/sample/hmc/_hmc.py b/stochopy/sample/hmc/_hmc.py
index d122bf1..5e0b28f 100644
--- a/stochopy/sample/hmc/_hmc.py
+++ b/stochopy/sample/hmc/_hmc.py
@@ -91,7 +91,7 @@ def sample(
     lower, upper = np.transpose(bounds)
 
     # Initial guess x0
-    if x0 is not None and len(x0) != ndim:
+    if x0 is not None and (np.ndim(x0) != 1 or len(x0) != ndim):
         raise ValueError()
 
     # Number of leap-frog steps
diff --git a/stochopy/sample/mcmc/_mcmc.py b/stochopy/sample/mcmc/_mcmc.py
index e7e23d0..448d0e4 100644
--- a/stochopy/sample/mcmc/_mcmc.py
+++ b/stochopy/sample/mcmc/_mcmc.py
@@ -76,7 +76,7 @@ def sample(
     lower, upper = np.transpose(bounds)
 
     # Initial guess x0
-    if x0 is not None and len(x0) != ndim:
+    if x0 is not None and (np.ndim(x0) != 1 or len(x0) != ndim):
         raise ValueError()
 
     # Step size
-- 
2.43.0


From 72078c14ca9c01c8d0beef5802d70eccf1b8810e Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:50 +0000
Subject: [PATCH 24/30] fix: optimizers: reject a verbosity outside [0, 1]
 instead of failing after the first generation

---
 stochopy/optimize/cmaes/_cmaes.py | 4 ++++
 stochopy/optimize/cpso/_cpso.py   | 4 ++++
 stochopy/optimize/de/_de.py       | 4 ++++
 stochopy/optimize/na/_na.py       | 4 ++++
 stochopy/optimize/vdcma/_vdcma.py | 4 ++++
 5 files changed, 20 insertions(+)

diff --git a/stochopy/optimize/cmaes/_cmaes.py b/stochopy/optimize/cmaes/_cmaes.py
index 38e9003..74edbed 100644
--- a/stochopy/optimize/cmaes/_cmaes.py
+++ b/stochopy/optimize/cmaes/_cmaes.py
@@ -112,6 +112,10 @@ def minimize(
     if not 0.0 < muperc <= 1.0:
         raise ValueError()
 
+    # Verbosity
+    if not 0.0 <= verbosity <= 1.0:
+        raise ValueError()
+
     # Seed
     if seed is not None:
         np.random.seed(seed)
diff --git a/stochopy/optimize/cpso/_cpso.py b/stochopy/optimize/cpso/_cpso.py
index 6a9c943..531aebd 100644
--- a/stochopy/optimize/cpso/_cpso.py
+++ b/stochopy/optimize/cpso/_cpso.py
@@ -149,6 +149,10 @@ def minimize(
     sync = sync or workers not in {0, 1}
     sync = sync or backend == "mpi"
 
+    # Verbosity
+    if not 0.0 <= verbosity <= 1.0:
+        raise ValueError()
+
     # Seed
     if seed is not None:
         np.random.seed(seed)
diff --git a/stochopy/optimize/de/_de.py b/stochopy/optimize/de/_de.py
index d2f729c..68c4dfa 100644
--- a/stochopy/optimize/de/_de.py
+++ b/stochopy/optimize/de/_de.py
@@ -148,6 +148,10 @@ def minimize(
     sync = sync or workers not in {0, 1}
     sync = sync or backend == "mpi"
 
+    # Verbosity
+    if not 0.0 <= verbosity <= 1.0:
+        raise ValueError()
+
     # Seed
     if seed is not None:
         np.random.seed(seed)
diff --git a/stochopy/optimize/na/_na.py b/stochopy/optimize/na/_na.py
index 5bd99ff..d817f8c 100644
--- a/stochopy/optimize/na/_na.py
+++ b/stochopy/optimize/na/_na.py
@@ -105,6 +105,10 @@ def minimize(
     if not 0.0 < nrperc <= 1.0:
         raise ValueError()
 
+    # Verbosity
+    if not 0.0 <= verbosity <= 1.0:
+        raise ValueError()
+
     # Seed
     if seed is not None:
         np.random.seed(seed)
diff --git a/stochopy/optimize/vdcma/_vdcma.py b/stochopy/optimize/vdcma/_vdcma.py
index 27c283f..eac0c1f 100644
--- a/stochopy/optimize/vdcma/_vdcma.py
+++ b/stochopy/optimize/vdcma/_vdcma.py
@@ -113,6 +113,10 @@ def minimize(
     if not 0.0 < muperc <= 1.0:
         raise ValueError()
 
+    # Verbosity
+    if not 0.0 <= verbosity <= 1.0:
+        raise ValueError()
+
     # Seed
     if seed is not None:
         np.random.seed(seed)
-- 
2.43.0


From a8b6a66d062a295dadc07a1d0d387e68e00cecdf Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:08 +0000
Subject: [PATCH 25/30] fix: factory: integer arguments overflowed silently
 (compute in floating point)

---
 stochopy/factory/benchmark.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/stochopy/factory/benchmark.py b/stochopy/factory/benchmark.py
index b39cd52..767656d 100644
--- a/stochopy/factory/benchmark.py
+++ b/stochopy/factory/benchmark.py
@@ -26,7 +26,7 @@ def ackley(x):
         The value of the Ackley function.
 
     """
-    x = np.asarray(x)
+    x = np.asarray(x, dtype=float)
     ndim = x.size
     e = 2.7182818284590451
     sum1 = np.sqrt(1.0 / ndim * np.square(x).sum())
@@ -49,7 +49,7 @@ def griewank(x):
         The value of the Griewank function.
 
     """
-    x = np.asarray(x)
+    x = np.asarray(x, dtype=float)
     ndim = x.size
     sum1 = np.square(x).sum() / 4000.0
     prod1 = np.prod(np.cos(x / np.sqrt(np.arange(1, ndim + 1))))
@@ -71,7 +71,7 @@ def quartic(x):
         The value of the Quartic function.
 
     """
-    x = np.asarray(x)
+    x = np.asarray(x, dtype=float)
     ndim = x.size
     return (np.arange(1, ndim + 1) * np.power(x, 4)).sum()
 
@@ -91,7 +91,7 @@ def rastrigin(x):
         The value of the Rastrigin function.
 
     """
-    x = np.asarray(x)
+    x = np.asarray(x, dtype=float)
     ndim = x.size
     sum1 = (np.square(x) - 10.0 * np.cos(2.0 * np.pi * x)).sum()
     return 10.0 * ndim + sum1
@@ -112,7 +112,7 @@ def rosenbrock(x):
         The value of the Rosenbrock function.
 
     """
-    x = np.asarray(x)
+    x = np.asarray(x, dtype=float)
     sum1 = ((x[1:] - x[:-1] ** 2) ** 2).sum()
     sum2 = np.square(1.0 - x[:-1]).sum()
     return 100.0 * sum1 + sum2
@@ -133,7 +133,7 @@ def sphere(x):
         The value of the Sphere function.
 
     """
-    return np.square(x).sum()
+    return np.square(np.asarray(x, dtype=float)).sum()
 
 
 def styblinski_tang(x):
@@ -151,6 +151,6 @@ def styblinski_tang(x):
         The value of the Styblinski-Tang function.
 
     """
-    x = np.asarray(x)
+    x = np.asarray(x, dtype=float)
     sum1 = (np.power(x, 4) - 16.0 * np.square(x) + 5.0 * x).sum()
     return 0.5 * sum1 + 39.16599 * x.size
-- 
2.43.0


From f3749662019396fc71798bb0665aa846ddd09b0a Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:44 +0000
Subject: [PATCH 26/30] fix: cmaes, vdcma: status 0 was not reported for a best
 value equal to ftol

---
 stochopy/optimize/cmaes/_cmaes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stochopy/optimize/cmaes/_cmaes.py b/stochopy/optimize/cmaes/_cmaes.py
index 74edbed..0ba7b28 100644
--- a/stochopy/optimize/cmaes/_cmaes.py
+++ b/stochopy/optimize/cmaes/_cmaes.py
@@ -390,7 +390,7 @@ def converge(
         status = -1
 
     # Stop if mean position changes less than xtol
-    elif np.linalg.norm(xold - xmean) <= xtol and arfitness[arindex[0]] < ftol:
+    elif np.linalg.norm(xold - xmean) <= xtol and arfitness[arindex[0]] <= ftol:
         status = 0
 
     # Stop if fitness is less than ftol
-- 
2.43.0


From 275961d21ef66a87ba0b0552f7a1277046a9b415 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:38 +0000
Subject: [PATCH 27/30] fix: Penalize: measure the distance of the mean to a
 violated lower bound too

The clipping at the lower bound was overwritten by the clipping at the upper
bound, so that the boundary weights never grew for a mean beyond a lower bound.
---
 stochopy/optimize/cmaes/_constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stochopy/optimize/cmaes/_constraints.py b/stochopy/optimize/cmaes/_constraints.py
index 0009593..3178d5d 100644
--- a/stochopy/optimize/cmaes/_constraints.py
+++ b/stochopy/optimize/cmaes/_constraints.py
@@ -51,7 +51,7 @@ def Penalize(
     # Corrected mean
     ti = np.logical_or(xmean < -ones, xmean > ones)
     tx = np.where(xmean < -ones, -ones, xmean)
-    tx = np.where(xmean > ones, ones, xmean)
+    tx = np.where(xmean > ones, ones, tx)
 
     # Set initial weights
     if iniphase and ti.any():
-- 
2.43.0


From 72c7ada01f3b533ef484b189de7bf0743ad8f629 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:27 +0000
Subject: [PATCH 28/30] fix: cmaes/vdcma: the first generation's penalty read
 uninitialised memory

With x0 outside the bounds and 'Penalize', the direction of the mean's last
move was computed from an np.empty array, so that seeded runs could differ.
---
 stochopy/optimize/cmaes/_cmaes.py | 2 +-
 stochopy/optimize/vdcma/_vdcma.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/stochopy/optimize/cmaes/_cmaes.py b/stochopy/optimize/cmaes/_cmaes.py
index 0ba7b28..ea43eb2 100644
--- a/stochopy/optimize/cmaes/_cmaes.py
+++ b/stochopy/optimize/cmaes/_cmaes.py
@@ -182,7 +182,7 @@ def cmaes(
 
     # Initial mean
     xmean = np.random.uniform(-1.0, 1.0, ndim) if x0 is None else standardize(x0)
-    xold = np.empty(ndim)
+    xold = xmean.copy()
 
     # Number of parents
     mu = max(1, int(muperc * popsize))
diff --git a/stochopy/optimize/vdcma/_vdcma.py b/stochopy/optimize/vdcma/_vdcma.py
index eac0c1f..07d2f37 100644
--- a/stochopy/optimize/vdcma/_vdcma.py
+++ b/stochopy/optimize/vdcma/_vdcma.py
@@ -183,7 +183,7 @@ def vdcma(
 
     # Initial mean
     xmean = np.random.uniform(-1.0, 1.0, ndim) if x0 is None else standardize(x0)
-    xold = np.empty(ndim)
+    xold = xmean.copy()
 
     # Number of parents
     mu = max(1, int(muperc * popsize))
-- 
2.43.0


From 417e53327996b297ff12066c802a423fe04fb00d Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:14 +0000
Subject: [PATCH 29/30] fix: Penalize: seeded runs could differ in the last
 digit

np.log of np.diag(C), a strided view, is rounded differently by NumPy
depending on where the view lies in memory.
---
 stochopy/optimize/cmaes/_constraints.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stochopy/optimize/cmaes/_constraints.py b/stochopy/optimize/cmaes/_constraints.py
index 3178d5d..91064ba 100644
--- a/stochopy/optimize/cmaes/_constraints.py
+++ b/stochopy/optimize/cmaes/_constraints.py
@@ -25,6 +25,7 @@ def Penalize(
     """
     popsize, ndim = arx.shape
     ones = np.ones(ndim)
+    diagC = np.array(diagC)  # Contiguous: NumPy rounds np.log of a strided view differently depending on where it lies
 
     # Clip to boundaries
     arxvalid = np.where(arxvalid < -1.0, -ones, arxvalid)
-- 
2.43.0


From 9dc359ac40bf7010b593f642def37d9ed0d8f275 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:29 +0000
Subject: [PATCH 30/30] fix: bounds given in a narrow type overflowed or lost
 precision (compute in floating point)

---
 stochopy/optimize/_common.py      | 2 +-
 stochopy/optimize/cmaes/_cmaes.py | 2 +-
 stochopy/optimize/cpso/_cpso.py   | 2 +-
 stochopy/optimize/de/_de.py       | 2 +-
 stochopy/optimize/na/_na.py       | 2 +-
 stochopy/optimize/vdcma/_vdcma.py | 2 +-
 stochopy/sample/hmc/_hmc.py       | 2 +-
 stochopy/sample/mcmc/_mcmc.py     | 2 +-
 8 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/stochopy/optimize/_common.py b/stochopy/optimize/_common.py
index e76d104..1d0d6ee 100644
--- a/stochopy/optimize/_common.py
+++ b/stochopy/optimize/_common.py
@@ -121,7 +121,7 @@ def lhs(popsize, ndim, bounds=None):
     pop = np.transpose([x[np.random.permutation(popsize), i] for i in range(ndim)])
 
     if bounds is not None:
-        lower, upper = np.transpose(bounds)
+        lower, upper = np.transpose(bounds).astype(float)
         pop *= 0.5 * (upper - lower)
         pop += 0.5 * (upper + lower)
 
diff --git a/stochopy/optimize/cmaes/_cmaes.py b/stochopy/optimize/cmaes/_cmaes.py
index ea43eb2..1426c35 100644
--- a/stochopy/optimize/cmaes/_cmaes.py
+++ b/stochopy/optimize/cmaes/_cmaes.py
@@ -166,7 +166,7 @@ def cmaes(
 ):
     """Optimize with CMA-ES."""
     ndim = len(bounds)
-    lower, upper = np.transpose(bounds)
+    lower, upper = np.transpose(bounds).astype(float)
 
     # Standardize and unstandardize
     xm = 0.5 * (upper + lower)
diff --git a/stochopy/optimize/cpso/_cpso.py b/stochopy/optimize/cpso/_cpso.py
index 531aebd..c60eb00 100644
--- a/stochopy/optimize/cpso/_cpso.py
+++ b/stochopy/optimize/cpso/_cpso.py
@@ -207,7 +207,7 @@ def cpso(
 ):
     """Optimize with CPSO."""
     ndim = len(bounds)
-    lower, upper = np.transpose(bounds)
+    lower, upper = np.transpose(bounds).astype(float)
 
     # Constraints
     cons = _constraints_map[constraints](lower, upper, sync)
diff --git a/stochopy/optimize/de/_de.py b/stochopy/optimize/de/_de.py
index 68c4dfa..0df40ad 100644
--- a/stochopy/optimize/de/_de.py
+++ b/stochopy/optimize/de/_de.py
@@ -204,7 +204,7 @@ def de(
 ):
     """Optimize with DE."""
     ndim = len(bounds)
-    lower, upper = np.transpose(bounds)
+    lower, upper = np.transpose(bounds).astype(float)
 
     # Constraints
     cons = _constraints_map[constraints](lower, upper)
diff --git a/stochopy/optimize/na/_na.py b/stochopy/optimize/na/_na.py
index d817f8c..7f07098 100644
--- a/stochopy/optimize/na/_na.py
+++ b/stochopy/optimize/na/_na.py
@@ -155,7 +155,7 @@ def na(
 ):
     """Optimize with Neighborhood Algorithm."""
     ndim = len(bounds)
-    lower, upper = np.transpose(bounds)
+    lower, upper = np.transpose(bounds).astype(float)
 
     # Normalize and unnormalize
     span = upper - lower
diff --git a/stochopy/optimize/vdcma/_vdcma.py b/stochopy/optimize/vdcma/_vdcma.py
index 07d2f37..0906c80 100644
--- a/stochopy/optimize/vdcma/_vdcma.py
+++ b/stochopy/optimize/vdcma/_vdcma.py
@@ -167,7 +167,7 @@ def vdcma(
 ):
     """Optimize with VD-CMA."""
     ndim = len(bounds)
-    lower, upper = np.transpose(bounds)
+    lower, upper = np.transpose(bounds).astype(float)
 
     # Standardize and unstandardize
     xm = 0.5 * (upper + lower)
diff --git a/stochopy/sample/hmc/_hmc.py b/stochopy/sample/hmc/_hmc.py
index 5e0b28f..7e0c325 100644
--- a/stochopy/sample/hmc/_hmc.py
+++ b/stochopy/sample/hmc/_hmc.py
@@ -88,7 +88,7 @@ def sample(
         raise ValueError()
 
     ndim = len(bounds)
-    lower, upper = np.transpose(bounds)
+    lower, upper = np.transpose(bounds).astype(float)
 
     # Initial guess x0
     if x0 is not None and (np.ndim(x0) != 1 or len(x0) != ndim):
diff --git a/stochopy/sample/mcmc/_mcmc.py b/stochopy/sample/mcmc/_mcmc.py
index 448d0e4..030126c 100644
--- a/stochopy/sample/mcmc/_mcmc.py
+++ b/stochopy/sample/mcmc/_mcmc.py
@@ -73,7 +73,7 @@ def sample(
         raise ValueError()
 
     ndim = len(bounds)
-    lower, upper = np.transpose(bounds)
+    lower, upper = np.transpose(bounds).astype(float)
 
     # Initial guess x0
     if x0 is not None and (np.ndim(x0) != 1 or len(x0) != ndim):
-- 
2.43.0

