From 017e75382f30411ff5a4f6648ecf0a069436ecfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:40 +0000
Subject: [PATCH 01/39] fix: SKROCK recursion follows the Chebyshev recursion
 it implements

T_j was evaluated at omega_1 instead of omega_0, k_j used nu_0 instead of nu_j,
and K_{j-2} was subtracted instead of being weighted by k_j, so every chain
with s >= 2 diverged.
---
 pxmcmc/mcmc.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pxmcmc/mcmc.py b/pxmcmc/mcmc.py
index 45cf316..dcdbea6 100644
--- a/pxmcmc/mcmc.py
+++ b/pxmcmc/mcmc.py
@@ -363,8 +363,7 @@ class SKROCK(PxMCMC):
                 * self.delta
                 * self._gradlogpi(self._K_recursion(X, s - 1, Z))
                 + self.nus[s] * self._K_recursion(X, s - 1, Z)
-                + self.ks[s]
-                - self._K_recursion(X, s - 2, Z)
+                + self.ks[s] * self._K_recursion(X, s - 2, Z)
             )
 
     def _recursion_coefs(self):
@@ -377,7 +376,7 @@ class SKROCK(PxMCMC):
         self.ks[1] = self.s * self.omega_1 / self.omega_0
 
         for j in range(2, self.s + 1):
-            cheb_ratio = chebyshev1(self.omega_0, j - 1) / chebyshev1(self.omega_1, j)
+            cheb_ratio = chebyshev1(self.omega_0, j - 1) / chebyshev1(self.omega_0, j)
             self.mus[j] = 2 * self.omega_1 * cheb_ratio
             self.nus[j] = 2 * self.omega_0 * cheb_ratio
-            self.ks[j] = 1 - self.nus[0]
+            self.ks[j] = 1 - self.nus[j]
-- 
2.43.0


From 6dfc24b82f6b353cab738624f877ce6a1f59f31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:40 +0000
Subject: [PATCH 02/39] fix: PxMALA transition probability matches the proposal
 it draws

The proposal is N(X1 + delta * gradlogpi(X1), 2 * delta), but the log density
used delta / 2 as step and as prefactor, and squared the squared distance, so
the Metropolis-Hastings step did not leave the posterior invariant.
---
 pxmcmc/mcmc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pxmcmc/mcmc.py b/pxmcmc/mcmc.py
index dcdbea6..c806a23 100644
--- a/pxmcmc/mcmc.py
+++ b/pxmcmc/mcmc.py
@@ -284,8 +284,8 @@ class PxMALA(MYULA):
         """
         gradlogpiX1 = -((X1 - proxf) / self.lmda) - gradg
         return (
-            -(1 / 2 * self.delta)
-            * np.sum((X2 - X1 - (self.delta / 2) * gradlogpiX1) ** 2) ** 2
+            -(1 / (4 * self.delta))
+            * np.sum(np.abs(X2 - X1 - self.delta * gradlogpiX1) ** 2)
         )
 
 
-- 
2.43.0


From 620b182efcfa834b2742a9aa5f25d01cd138680e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:40 +0000
Subject: [PATCH 03/39] fix: PxMALA saves the current state when a proposal is
 rejected

A Metropolis-Hastings chain repeats its state on rejection. Saving only
accepted proposals biased the samples, and never ended if nothing was accepted.
---
 pxmcmc/mcmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pxmcmc/mcmc.py b/pxmcmc/mcmc.py
index c806a23..343c912 100644
--- a/pxmcmc/mcmc.py
+++ b/pxmcmc/mcmc.py
@@ -260,7 +260,7 @@ class PxMALA(MYULA):
                 self.deltas_trace.append(self.delta)
 
             if i >= self.nburn:
-                if (self.ngap == 0 or (i - self.nburn) % self.ngap == 0) and accept:
+                if self.ngap == 0 or (i - self.nburn) % self.ngap == 0:
                     self._tracking(j, X_curr, curr_preds, logpiXc, L2Xc, priorXc)
                     j += 1
             if self.verbosity > 0 and (i + 1) % self.verbosity == 0:
-- 
2.43.0


From 7bb67b8959d31d3e6fb9267f04809d8a3fb4ef3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:40 +0000
Subject: [PATCH 04/39] fix: log posterior uses the Gaussian log-likelihood
 -L2/2

calc_gradg returns the gradient of L2/2, which is what the chains follow; the
log posterior used -L2, i.e. half the stated data variance.
---
 pxmcmc/mcmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pxmcmc/mcmc.py b/pxmcmc/mcmc.py
index 343c912..7edae43 100644
--- a/pxmcmc/mcmc.py
+++ b/pxmcmc/mcmc.py
@@ -78,7 +78,7 @@ class PxMCMC:
         diff = self.forward.data - preds
         L2 = np.vdot(diff, self.forward.invcov @ diff)
         prior = self.prior.prior(X)
-        logPi = -self.mu * prior - L2
+        logPi = -self.mu * prior - L2 / 2
         return logPi, L2, prior
 
     def _gradlogpi(self, X, preds=None):
-- 
2.43.0


From 5cc2c1da55d97c67fe03b71e1ef751579499e33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:40 +0000
Subject: [PATCH 05/39] fix: chains stay real when complex=False

With complex data (e.g. weak lensing) the gradient is complex, and the chain
drifted into complex parameters of which only the real part was saved. The
gradient with respect to real parameters is the real part.
---
 pxmcmc/mcmc.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pxmcmc/mcmc.py b/pxmcmc/mcmc.py
index 7edae43..9e712a1 100644
--- a/pxmcmc/mcmc.py
+++ b/pxmcmc/mcmc.py
@@ -85,9 +85,13 @@ class PxMCMC:
         gradf = (X - self.prior.proxf(X)) / self.lmda
         if preds is None:
             preds = self.forward.forward(X)
-        gradg = self.forward.calc_gradg(preds)
+        gradg = self._calc_gradg(preds)
         return -gradf - gradg
 
+    def _calc_gradg(self, preds):
+        gradg = self.forward.calc_gradg(preds)
+        return gradg if self.complex else np.real(gradg)
+
     def _print_progress(self, i, logpi, **kwargs):
         print(
             f"{i+1:,}/{self.nsamples:,} - logposterior: {logpi:.8e} - "
@@ -155,7 +159,7 @@ class MYULA(PxMCMC):
         j = 0  # saved samples (excludes burn-in and thinned samples)
         X_curr, curr_preds = self._initial_sample(start_point)
         while j < self.nsamples:
-            gradg = self.forward.calc_gradg(curr_preds)
+            gradg = self._calc_gradg(curr_preds)
             proxf = self.prior.proxf(X_curr)
             X_prop = self.chain_step(X_curr, proxf, gradg)
             prop_preds = self.forward.forward(X_prop)
@@ -224,13 +228,13 @@ class PxMALA(MYULA):
         i = 0
         j = 0
         X_curr, curr_preds = self._initial_sample(start_point)
-        gradg_curr = self.forward.calc_gradg(curr_preds)
+        gradg_curr = self._calc_gradg(curr_preds)
         proxf_curr = self.prior.proxf(X_curr)
         logpiXc, L2Xc, priorXc = self.logpi(X_curr, curr_preds)
         while j < self.nsamples:
             X_prop = self.chain_step(X_curr, proxf_curr, gradg_curr)
             prop_preds = self.forward.forward(X_prop)
-            gradg_prop = self.forward.calc_gradg(prop_preds)
+            gradg_prop = self._calc_gradg(prop_preds)
             proxf_prop = self.prior.proxf(X_prop)
 
             logtransXcXp = self.calc_logtransition(
-- 
2.43.0


From e7c08c4f119e572a284d461113b7e595ab57a0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:40 +0000
Subject: [PATCH 06/39] fix: real data errors stay real for complex data

Scaling the variance by (1 + 1j) / sqrt(2) made the inverse covariance complex,
so the L2 norm was complex and the gradient rotated by 45 degrees.
---
 pxmcmc/forward.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pxmcmc/forward.py b/pxmcmc/forward.py
index 3f3bbd3..2d1a111 100644
--- a/pxmcmc/forward.py
+++ b/pxmcmc/forward.py
@@ -78,8 +78,6 @@ class ForwardOperator:
             return sparse.linalg.inv(sig_d)
 
         var = sig_d ** 2
-        if np.iscomplexobj(self.data) and not np.iscomplexobj(var):
-            var = var / np.sqrt(2) * (1 + 1j)
         if isinstance(var, float) or isinstance(var, int) or isinstance(var, complex):
             return sparse.identity(len(self.data)).dot(1 / var)
         elif var.size == len(self.data) and len(var.shape) == 1:
-- 
2.43.0


From c417da67cc554b3642ad092ec40fa2e7e819f6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:40 +0000
Subject: [PATCH 07/39] fix: tracked predictions keep the imaginary part of
 complex data

---
 pxmcmc/mcmc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pxmcmc/mcmc.py b/pxmcmc/mcmc.py
index 9e712a1..0591eaa 100644
--- a/pxmcmc/mcmc.py
+++ b/pxmcmc/mcmc.py
@@ -119,7 +119,8 @@ class PxMCMC:
             self.logPi = np.zeros(self.nsamples)
         if "predictions" in self.track:
             self.preds = np.zeros(
-                (self.nsamples, len(self.forward.data)), dtype=float
+                (self.nsamples, len(self.forward.data)),
+                dtype=complex if np.iscomplexobj(self.forward.data) else float,
             )
         if "chain" in self.track:
             self.chain = np.zeros(
-- 
2.43.0


From 7c85088375382f3ab578ae798b3ba4410b181098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:40 +0000
Subject: [PATCH 08/39] fix: printing progress does not need the tracked arrays

MYULA and SKROCK raised AttributeError when the log posterior, L2 or prior
were not in the track list, and SKROCK printed unset values during burn-in.
---
 pxmcmc/mcmc.py | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/pxmcmc/mcmc.py b/pxmcmc/mcmc.py
index 0591eaa..8f7eed5 100644
--- a/pxmcmc/mcmc.py
+++ b/pxmcmc/mcmc.py
@@ -174,12 +174,7 @@ class MYULA(PxMCMC):
                     self._tracking(j, X_curr, curr_preds, logPi, L2, prior)
                     j += 1
                 if self.verbosity > 0 and (i + 1) % self.verbosity == 0:
-                    self._print_progress(
-                        j - 1,
-                        self.logPi[j - 1],
-                        L2=self.L2s[j - 1],
-                        prior=self.priors[j - 1],
-                    )
+                    self._print_progress(j - 1, logPi, L2=L2, prior=prior)
             else:
                 if self.verbosity > 0 and (i + 1) % self.verbosity == 0:
                     print("Burning in...")
@@ -329,13 +324,11 @@ class SKROCK(PxMCMC):
                     logPi, L2, prior = self.logpi(X_curr, curr_preds)
                     self._tracking(j, X_curr, curr_preds, logPi, L2, prior)
                     j += 1
-            if self.verbosity > 0 and (i + 1) % self.verbosity == 0:
-                self._print_progress(
-                    j - 1,
-                    self.logPi[j - 1],
-                    L2=self.L2s[j - 1],
-                    prior=self.priors[j - 1],
-                )
+                if self.verbosity > 0 and (i + 1) % self.verbosity == 0:
+                    self._print_progress(j - 1, logPi, L2=L2, prior=prior)
+            else:
+                if self.verbosity > 0 and (i + 1) % self.verbosity == 0:
+                    print("Burning in...")
             i += 1
 
         print("\nDONE")
-- 
2.43.0


From dc9bd66c9e4649314a86fd490e4c87950779c34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:40 +0000
Subject: [PATCH 09/39] fix: data errors can be given as a covariance matrix

scipy.sparse.linalg.inv only takes sparse input, so the documented dense
covariance matrix always raised TypeError.
---
 pxmcmc/forward.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pxmcmc/forward.py b/pxmcmc/forward.py
index 2d1a111..c836116 100644
--- a/pxmcmc/forward.py
+++ b/pxmcmc/forward.py
@@ -75,7 +75,7 @@ class ForwardOperator:
         if isinstance(sig_d, np.ndarray) and len(sig_d.shape) == 2:
             if sig_d.shape[0] != sig_d.shape[1]:
                 raise ValueError("Covariance matrix should be square")
-            return sparse.linalg.inv(sig_d)
+            return sparse.csr_matrix(np.linalg.inv(sig_d))
 
         var = sig_d ** 2
         if isinstance(var, float) or isinstance(var, int) or isinstance(var, complex):
-- 
2.43.0


From df21e4a985bc32509c8685c6b1f7a320275a92ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:40 +0000
Subject: [PATCH 10/39] fix: L1 prior in the analysis setting is the norm its
 prox belongs to

proxf thresholds adj(X) in the analysis setting, but prior summed abs(X).
---
 pxmcmc/prior.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pxmcmc/prior.py b/pxmcmc/prior.py
index 661011d..327c64d 100644
--- a/pxmcmc/prior.py
+++ b/pxmcmc/prior.py
@@ -32,6 +32,8 @@ class L1:
         :param X: MCMC sample
         :return: log prior
         """
+        if self.setting == "analysis":
+            X = self.adj(X)
         return sum(abs(X))
 
     def proxf(self, X):
-- 
2.43.0


From 7b27c2b8a735c7a77660342fa5a90b123bc44820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:40 +0000
Subject: [PATCH 11/39] fix: S2_Wavelets_L1 does not modify the threshold array
 it is given

---
 pxmcmc/prior.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pxmcmc/prior.py b/pxmcmc/prior.py
index 327c64d..f60207e 100644
--- a/pxmcmc/prior.py
+++ b/pxmcmc/prior.py
@@ -80,7 +80,7 @@ class S2_Wavelets_L1(L1):
             self.map_weights = np.concatenate([mw_map_weights(el) for el in bls])
         else:
             raise NotImplementedError
-        self.T *= self.map_weights
+        self.T = self.T * self.map_weights
 
     def prior(self, X):
         return super().prior(self.map_weights * X)
-- 
2.43.0


From 2522f54a68c80aec8ea2c6ddac9adc192aa7427d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:40 +0000
Subject: [PATCH 12/39] fix: S2_Wavelets_L1_Power_Weights applies its weights
 once

The threshold was weighted by the pixel areas of the parent class and by the
power weights, and the prior by the square of the power weights, so prox and
prior belonged to different norms.
---
 pxmcmc/prior.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pxmcmc/prior.py b/pxmcmc/prior.py
index f60207e..c10cff4 100644
--- a/pxmcmc/prior.py
+++ b/pxmcmc/prior.py
@@ -107,10 +107,7 @@ class S2_Wavelets_L1_Power_Weights(S2_Wavelets_L1):
             self._get_weights()
         else:
             raise NotImplementedError
-        self.T *= self.map_weights
-
-    def prior(self, X):
-        return super().prior(self.map_weights * X)
+        self.T = T * self.map_weights
 
     def _get_weights(self):
         scaling_weights = self._calculate_scaling_weights()
-- 
2.43.0


From cccf02a0e334966cb4d910819c10d5e095854082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:40 +0000
Subject: [PATCH 13/39] fix: power weights work when all wavelet scales have
 the same bandlimit

np.array(..., dtype=list) made a 3D object array in that case, which cannot
be multiplied into the threshold.
---
 pxmcmc/prior.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pxmcmc/prior.py b/pxmcmc/prior.py
index c10cff4..fab04b4 100644
--- a/pxmcmc/prior.py
+++ b/pxmcmc/prior.py
@@ -145,4 +145,4 @@ class S2_Wavelets_L1_Power_Weights(S2_Wavelets_L1):
             thetas, _ = pyssht.sample_positions(effective_L)
             weights = (weights.T * np.sin(thetas)).T
             all_weights.append(weights)
-        return np.array(all_weights, dtype=list)
+        return all_weights
-- 
2.43.0


From 88ef2a89fbfdc33f0136c7f9399283b921309016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:40 +0000
Subject: [PATCH 14/39] fix: multiresolution bandlimits of tilings with an
 empty wavelet scale

When L - 1 is a power of B (e.g. B=2 and L=17) the last wavelet has no
multipoles below L and taking its last nonzero one raised ValueError. Use the
bandlimit of each scale instead, as s2let does. Power weights are undefined
for such a scale and still raise.
---
 pxmcmc/prior.py |  2 ++
 pxmcmc/utils.py | 13 ++++---------
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/pxmcmc/prior.py b/pxmcmc/prior.py
index fab04b4..9edfa2f 100644
--- a/pxmcmc/prior.py
+++ b/pxmcmc/prior.py
@@ -132,6 +132,8 @@ class S2_Wavelets_L1_Power_Weights(S2_Wavelets_L1):
         wavelet_powers = np.array(
             [np.vdot(lm, lm).real for lm in psi_lm.T]
         )
+        if np.any(wavelet_powers == 0):
+            raise ValueError("Power weights are undefined for an empty wavelet scale")
         psi_l = np.zeros((psi_lm.shape[1], self.L), dtype=complex)
         for j, psi in enumerate(psi_lm.T):
             psi_l[j, :] = np.array([psi[el ** 2 + el] for el in range(self.L)])
diff --git a/pxmcmc/utils.py b/pxmcmc/utils.py
index 5af11de..4014dc5 100644
--- a/pxmcmc/utils.py
+++ b/pxmcmc/utils.py
@@ -114,15 +114,10 @@ def alm2map(alm, nside, **kwargs):
 
 
 def _multires_bandlimits(L, B, J_min, dirs=1, spin=0):
-    phi_l, psi_lm = pys2let.wavelet_tiling(B, L, dirs, J_min, spin)
-    psi_l = np.zeros((psi_lm.shape[1], L), dtype=complex)
-    for j, psi in enumerate(psi_lm.T):
-        psi_l[j, :] = np.array([psi[el ** 2 + el] for el in range(L)])
-    gamma_l = np.vstack([phi_l, psi_l])
-    bandlimits = np.zeros(gamma_l.shape[0], dtype=int)
-    for j, gamma in enumerate(gamma_l):
-        bandlimits[j] = np.nonzero(gamma)[0].max() + 1
-    return bandlimits
+    J_max = pys2let.pys2let_j_max(B, L, J_min)
+    return np.array(
+        [min(int(np.ceil(float(B) ** j)), L) for j in range(J_min, J_max + 2)]
+    )
 
 
 def chebyshev1(X, order):
-- 
2.43.0


From a14d12994be2fb056e6939466a0e6dc77d16a7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:40 +0000
Subject: [PATCH 15/39] fix: WeakLensing raises ValueError for a mask of the
 wrong shape

The check came after the mask had been used, which raised IndexError.
---
 pxmcmc/measurements.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pxmcmc/measurements.py b/pxmcmc/measurements.py
index 207b88f..993ed7f 100644
--- a/pxmcmc/measurements.py
+++ b/pxmcmc/measurements.py
@@ -197,15 +197,15 @@ class WeakLensing(WeakLensingHarmonic):
         else:
             self.mask = mask.astype(bool)
 
+        if self.mask.shape != self.shape:
+            raise ValueError("Shape of mask map is incorrect!")
+
         # Define observational covariance
         if ngal is None:
             self.inv_cov = self.mask_forward(np.ones(self.shape))
         else:
             self.inv_cov = self.ngal_to_inv_cov(ngal)
 
-        if self.mask.shape != self.shape:
-            raise ValueError("Shape of mask map is incorrect!")
-
     def forward(self, kappa):
         """Spherical weak lensing measurement operator
 
-- 
2.43.0


From 8795675daec4d56544a552ee192a62f74d48c055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:40 +0000
Subject: [PATCH 16/39] fix: WeakLensing masking raises ValueError for NaN
 signals as documented

---
 pxmcmc/measurements.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pxmcmc/measurements.py b/pxmcmc/measurements.py
index 993ed7f..fb76890 100644
--- a/pxmcmc/measurements.py
+++ b/pxmcmc/measurements.py
@@ -252,7 +252,7 @@ class WeakLensing(WeakLensingHarmonic):
                 ValueError: Raised if signal is of incorrect shape.
 
         """
-        if f is not f:
+        if np.isnan(f).any():
             raise ValueError("Signal is NaN.")
 
         if f.shape != self.shape:
@@ -272,7 +272,7 @@ class WeakLensing(WeakLensingHarmonic):
                 ValueError: Raised if signal is nan
 
         """
-        if x is not x:
+        if np.isnan(x).any():
             raise ValueError("Signal is NaN.")
 
         f = np.zeros(self.shape, dtype=complex)
-- 
2.43.0


From cc1093fd9de3a7c43f1ee00850b7408e47f9ce92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:40 +0000
Subject: [PATCH 17/39] fix: credible region holds the samples of highest
 posterior

With log posteriors, the set logpi <= quantile(1 - alpha) leaves out the
most probable samples, including the MAP.
---
 pxmcmc/uncertainty.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pxmcmc/uncertainty.py b/pxmcmc/uncertainty.py
index 36297d5..6e08ff6 100644
--- a/pxmcmc/uncertainty.py
+++ b/pxmcmc/uncertainty.py
@@ -48,9 +48,9 @@ def credible_region_threshold(logpis, alpha=0.05):
     :param float `alpha`: confidence level
     :return: log posterior threshold
     """
-    return np.quantile(logpis, 1 - alpha)
+    return np.quantile(logpis, alpha)
 
 
 def in_credible_region(logpi, threshold):
     """:meta private:"""
-    return True if logpi <= threshold else False
+    return True if logpi >= threshold else False
-- 
2.43.0


From 8f03e59c7587e8551a034ba55784b38a64b18494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:40 +0000
Subject: [PATCH 18/39] fix: plot_map works with matplotlib >= 3.9, which has
 no cm.get_cmap

---
 pxmcmc/plotting.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pxmcmc/plotting.py b/pxmcmc/plotting.py
index de70c24..d587e45 100644
--- a/pxmcmc/plotting.py
+++ b/pxmcmc/plotting.py
@@ -1,7 +1,6 @@
 import numpy as np
 import healpy as hp
 import matplotlib.pyplot as plt
-from matplotlib import cm
 import copy
 import pyssht
 import pys2let
@@ -44,7 +43,7 @@ def plot_map(
 
     :return: matplotlib figure
     """
-    cmap = copy.copy(cm.get_cmap(cmap))
+    cmap = copy.copy(plt.get_cmap(cmap))
     cmap.set_bad(alpha=0)
 
     if oversample:
-- 
2.43.0


From ba4e772daf7b13f9c18a04a15c21e982ee446deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:40 +0000
Subject: [PATCH 19/39] fix: plot_map does not write the mask into the caller's
 map

---
 pxmcmc/plotting.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pxmcmc/plotting.py b/pxmcmc/plotting.py
index d587e45..906ee80 100644
--- a/pxmcmc/plotting.py
+++ b/pxmcmc/plotting.py
@@ -58,6 +58,7 @@ def plot_map(
         vmin = -cbar_end
 
     if mask is not None:
+        f = np.copy(f)
         f[mask] = np.nan
     f_plt, _ = pyssht.mollweide_projection(f, L)
     fig = plt.figure(figsize=(20, 10))
-- 
2.43.0


From 91d8bfbfedfd0092776b39131c8b8d4c5a494e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:40 +0000
Subject: [PATCH 20/39] fix: plot_wavelet_maps works without oversampling

The wavelet coefficients are complex, which the projection splits into two
maps; oversampling already took the real part.
---
 pxmcmc/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pxmcmc/plotting.py b/pxmcmc/plotting.py
index 906ee80..92bf674 100644
--- a/pxmcmc/plotting.py
+++ b/pxmcmc/plotting.py
@@ -109,7 +109,7 @@ def plot_wavelet_maps(f, L, B, J_min, dirs=1, spin=0, same_scale=True, **map_arg
     else:
         base_title = ""
     map_args["title"] = f"{base_title} Scaling function"
-    figs.append(plot_map(f_scal.reshape(pyssht.sample_shape(bls[0])), **map_args))
+    figs.append(plot_map(f_scal.real.reshape(pyssht.sample_shape(bls[0])), **map_args))
 
     if same_scale:
         map_args["vmax"] = np.max(f_wav).real
@@ -119,7 +119,7 @@ def plot_wavelet_maps(f, L, B, J_min, dirs=1, spin=0, same_scale=True, **map_arg
         scale_length = pyssht.sample_length(bl)
         wav = f_wav[scale_start : scale_start + scale_length]
         map_args["title"] = f"{base_title} Wavelet scale {i}"
-        figs.append(plot_map(wav.reshape(pyssht.sample_shape(bl)), **map_args))
+        figs.append(plot_map(wav.real.reshape(pyssht.sample_shape(bl)), **map_args))
         scale_start += scale_length
 
     return figs
-- 
2.43.0


From 45cb7077c7a581b921f0ffb9db8aca749f501bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:40 +0000
Subject: [PATCH 21/39] fix: hard thresholding leaves its input alone and can
 keep nothing

It thresholded the caller's array in place, and kept everything when the
fraction to keep rounds down to no element.
---
 pxmcmc/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pxmcmc/utils.py b/pxmcmc/utils.py
index 4014dc5..2a046a2 100644
--- a/pxmcmc/utils.py
+++ b/pxmcmc/utils.py
@@ -74,8 +74,11 @@ def hard(X, T=0.1):
 
     :meta private:
     """
+    X = np.array(X)
     X_srt = np.sort(abs(X))
     thresh_ind = int(T * len(X))
+    if thresh_ind == 0:
+        return np.zeros_like(X)
     thresh_val = X_srt[-thresh_ind]
     X[abs(X) < thresh_val] = 0
     return X
-- 
2.43.0


From 1988524c1d1b147a8de0f065aba0e4e2906ef4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:40 +0000
Subject: [PATCH 22/39] fix: harmonic wavelet transforms count their own
 coefficients

ncoefs and nscal were those of the pixel transform, so the inverse split the
coefficients at the wrong place and read past the end of the array.
---
 pxmcmc/transforms.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pxmcmc/transforms.py b/pxmcmc/transforms.py
index ec288b3..5a41a96 100644
--- a/pxmcmc/transforms.py
+++ b/pxmcmc/transforms.py
@@ -76,6 +76,7 @@ class SphericalWaveletTransform(Transform):
         self.nscales = self.J_max - self.J_min + 1
         self.dirs = dirs
         self.spin = spin
+        self.harmonic = harmonic
 
         self.params = {
             "B": B,
@@ -157,10 +158,8 @@ class SphericalWaveletTransform(Transform):
         """
         Counts the number of wavelet and scaling coefs for
         the multiresolution algorithm
-
-        TODO: CHECK THIS FOR HARMONIC
         """
-        f_mw = np.empty(pyssht.sample_length(self.L), dtype=complex)
-        f_wav, f_scal = pys2let.analysis_px2wav(f_mw, **self.params)
+        size = self.L ** 2 if self.harmonic else pyssht.sample_length(self.L)
+        f_wav, f_scal = self.fwd(np.zeros(size, dtype=complex), **self.params)
         self.nwav, self.nscal = (f_wav.shape[0], f_scal.shape[0])
         self.ncoefs = self.nwav + self.nscal
-- 
2.43.0


From 2250d28bf07d2f4746691d60504a49850528a689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:40 +0000
Subject: [PATCH 23/39] fix: save_mcmc can save extras larger than 64 kB

e.g. the noise map of an L=64 run; HDF5's oldest file format limits the
attributes to 64 kB.
---
 pxmcmc/saving.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pxmcmc/saving.py b/pxmcmc/saving.py
index 4e619f2..9685208 100644
--- a/pxmcmc/saving.py
+++ b/pxmcmc/saving.py
@@ -14,7 +14,7 @@ def save_mcmc(
     :param string filename: filename without extension.
     :param \**kwargs: additional bits users want to save.
     """
-    with h5py.File(os.path.join(outpath, f"{filename}.hdf5"), "w") as f:
+    with h5py.File(os.path.join(outpath, f"{filename}.hdf5"), "w", libver="v108") as f:
         if hasattr(mcmc, "logPi"):
             f.create_dataset("logposterior", data=mcmc.logPi)
         if hasattr(mcmc, "preds"):
-- 
2.43.0


From 0956271600e580dfa408bc212af70486e7bcf712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:25 +0000
Subject: [PATCH 24/39] fix: tracked predictions of complex parameters keep
 their imaginary part

---
 pxmcmc/mcmc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pxmcmc/mcmc.py b/pxmcmc/mcmc.py
index 8f7eed5..bb13cc3 100644
--- a/pxmcmc/mcmc.py
+++ b/pxmcmc/mcmc.py
@@ -120,7 +120,9 @@ class PxMCMC:
         if "predictions" in self.track:
             self.preds = np.zeros(
                 (self.nsamples, len(self.forward.data)),
-                dtype=complex if np.iscomplexobj(self.forward.data) else float,
+                dtype=complex
+                if self.complex or np.iscomplexobj(self.forward.data)
+                else float,
             )
         if "chain" in self.track:
             self.chain = np.zeros(
-- 
2.43.0


From a998d43626f9ef018a8e4c4fbc22c29a60299ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:17 +0000
Subject: [PATCH 25/39] fix: build_mask works when rounding puts the last ring
 beyond the pole

---
 pxmcmc/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pxmcmc/utils.py b/pxmcmc/utils.py
index 2a046a2..88ccf83 100644
--- a/pxmcmc/utils.py
+++ b/pxmcmc/utils.py
@@ -333,7 +333,7 @@ def build_mask(L, size=20):
                 mask[i, j] = 0
 
     thetaarray, phiarray = pyssht.sample_positions(L, Grid=True)
-    thetaarray = np.degrees(thetaarray) - 90
+    thetaarray = np.clip(np.degrees(thetaarray) - 90, -90, 90)
     phiarray = np.degrees(phiarray) - 180
 
     c = SkyCoord(phiarray, thetaarray, unit="deg")
-- 
2.43.0


From c8a6dfe0897a6bbdf730d6974a4162990ead471e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:05 +0000
Subject: [PATCH 26/39] fix: plot_evolution works when the best sample was
 saved more than once

---
 pxmcmc/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pxmcmc/plotting.py b/pxmcmc/plotting.py
index 92bf674..58b2997 100644
--- a/pxmcmc/plotting.py
+++ b/pxmcmc/plotting.py
@@ -147,7 +147,7 @@ def plot_evolution(logposteriors, L2s, L1s, figsize=(10, 8)):
 
     :return: matplotlib figure
     """
-    MAP_idx = np.where(logposteriors == max(logposteriors))
+    MAP_idx = np.argmax(logposteriors)
     fig = plt.figure(figsize=figsize)
     plt.subplot(3, 1, 1)
     plt.plot(-logposteriors)
-- 
2.43.0


From 93d19aacb2b37f8e354c4dde971c446c73122a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:40 +0000
Subject: [PATCH 27/39] fix: plot_wavelet_maps hands contiguous maps to the
 projection

---
 pxmcmc/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pxmcmc/plotting.py b/pxmcmc/plotting.py
index 58b2997..120c69e 100644
--- a/pxmcmc/plotting.py
+++ b/pxmcmc/plotting.py
@@ -109,7 +109,7 @@ def plot_wavelet_maps(f, L, B, J_min, dirs=1, spin=0, same_scale=True, **map_arg
     else:
         base_title = ""
     map_args["title"] = f"{base_title} Scaling function"
-    figs.append(plot_map(f_scal.real.reshape(pyssht.sample_shape(bls[0])), **map_args))
+    figs.append(plot_map(f_scal.real.copy().reshape(pyssht.sample_shape(bls[0])), **map_args))
 
     if same_scale:
         map_args["vmax"] = np.max(f_wav).real
@@ -119,7 +119,7 @@ def plot_wavelet_maps(f, L, B, J_min, dirs=1, spin=0, same_scale=True, **map_arg
         scale_length = pyssht.sample_length(bl)
         wav = f_wav[scale_start : scale_start + scale_length]
         map_args["title"] = f"{base_title} Wavelet scale {i}"
-        figs.append(plot_map(wav.real.reshape(pyssht.sample_shape(bl)), **map_args))
+        figs.append(plot_map(wav.real.copy().reshape(pyssht.sample_shape(bl)), **map_args))
         scale_start += scale_length
 
     return figs
-- 
2.43.0


From 50758a87cefa58d830ee03fd9fe39d5f8bb8bb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:28 +0000
Subject: [PATCH 28/39] fix: earthtopography/plot.py can save its maps as .npy

---
 experiments/earthtopography/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/experiments/earthtopography/plot.py b/experiments/earthtopography/plot.py
index aa92ed7..b3abfbd 100644
--- a/experiments/earthtopography/plot.py
+++ b/experiments/earthtopography/plot.py
@@ -37,8 +37,8 @@ parser.add_argument(
 args = parser.parse_args()
 
 
-def filename(name):
-    return f"{args.directory}/{name}{args.suffix}.png"
+def filename(name, ext="png"):
+    return f"{args.directory}/{name}{args.suffix}.{ext}"
 
 
 # Load results file and extract global parameters
-- 
2.43.0


From 503c45f16f2d66f86a7f910fe72dee7dc69ffc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:28 +0000
Subject: [PATCH 29/39] fix: earthtopography/plot.py plots runs with added
 noise

---
 experiments/earthtopography/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/earthtopography/plot.py b/experiments/earthtopography/plot.py
index b3abfbd..5f8ea76 100644
--- a/experiments/earthtopography/plot.py
+++ b/experiments/earthtopography/plot.py
@@ -135,7 +135,7 @@ diffpmean = plotting.plot_map(
 diffpmean.savefig(filename("diff_mean"))
 
 # If noise was added, plot it
-if "noise" in params and params["noise"]:
+if "noise" in params and np.any(params["noise"]):
     noise = params["noise"].reshape((L, 2 * L - 1)) / 1000
     noise_map = plotting.plot_map(
         noise, title="Added noise", cmap="binary", oversample=False
-- 
2.43.0


From 8e47e2b56b642c272d4cfa345231bf109cb20533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:28 +0000
Subject: [PATCH 30/39] fix: earthtopography/main.py states the errors of noisy
 data in the units of the data

---
 experiments/earthtopography/main.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/experiments/earthtopography/main.py b/experiments/earthtopography/main.py
index c751227..45399d0 100644
--- a/experiments/earthtopography/main.py
+++ b/experiments/earthtopography/main.py
@@ -103,6 +103,7 @@ if args.makenoise:  # Adding noise to data, as noise would be present in real da
     sig_d = sig_d.flatten()  # flatten() by default goes to C ordering like in s2let
     noise = np.random.normal(0, sig_d)
     topo_d += noise
+    sig_d = sig_d / 1000  # the data are inverted in km
     np.random.seed(None)
 else:
     sig_d = sigma
-- 
2.43.0


From 2b190f895c4cfb297ece450d0288f28187aeabbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:28 +0000
Subject: [PATCH 31/39] fix: weaklensing/plot.py maps the credible intervals of
 the real convergence

---
 experiments/weaklensing/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/weaklensing/plot.py b/experiments/weaklensing/plot.py
index 6c0b571..e9950ef 100644
--- a/experiments/weaklensing/plot.py
+++ b/experiments/weaklensing/plot.py
@@ -135,7 +135,7 @@ for i, sample in enumerate(file["chain"][args.burn :]):
         chain_pix[i] = np.copy(sample)
 
 # Get and plot the uncertainty
-ci_range = uncertainty.credible_interval_range(chain_pix).reshape(mw_shape)
+ci_range = uncertainty.credible_interval_range(chain_pix.real).reshape(mw_shape)
 ci_map = plotting.plot_map(
     np.ascontiguousarray(ci_range.real),
     title="95% credible interval range",
-- 
2.43.0


From 580279058d057eedda30bcf576abefd5ec9ad429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:28 +0000
Subject: [PATCH 32/39] fix: phasevel/plot.py shows the 95% credible interval
 range it announces

---
 experiments/phasevel/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/phasevel/plot.py b/experiments/phasevel/plot.py
index e516077..15808ec 100644
--- a/experiments/phasevel/plot.py
+++ b/experiments/phasevel/plot.py
@@ -103,7 +103,7 @@ for i, sample in enumerate(file["chain"][args.burn :]):
         chain_pix[i] = np.copy(sample)
 
 # Calculate and plot the credible interval range
-alpha = 0.01
+alpha = 0.05
 quantiles = np.quantile(chain_pix, (alpha / 2, 1 - alpha / 2), axis=0)
 in_ci = (truth.flatten() >= quantiles[0]) & (truth.flatten() <= quantiles[1])
 ci_range = np.diff(quantiles, axis=0)[0].reshape(mw_shape)
-- 
2.43.0


From d7ee55ca0158c3fac0558ff8d1c47dee8b8b02f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:42 +0000
Subject: [PATCH 33/39] fix: earthtopography/main.py reads maps in MW sampling

---
 experiments/earthtopography/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/earthtopography/main.py b/experiments/earthtopography/main.py
index 45399d0..e1ae2c2 100644
--- a/experiments/earthtopography/main.py
+++ b/experiments/earthtopography/main.py
@@ -82,7 +82,7 @@ if "_hpx_" in args.infile:
     topo_d = pys2let.alm2map_mw(pys2let.lm_hp2lm(topo_d_lm, L), L, 0)
 elif "_mw_" in args.infile:
     topo = np.load(args.infile)
-    topo_d = topo.reshape((L, 2 * L - 1))
+    topo_d = topo.flatten()
 else:
     raise ValueError("Check filename")
 
-- 
2.43.0


From 11d3794c9b367842cccb569d2b326596b2cfb91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:57 +0000
Subject: [PATCH 34/39] fix: mollview draws into a figure of its own and leaves
 the random generator alone

---
 pxmcmc/plotting.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pxmcmc/plotting.py b/pxmcmc/plotting.py
index 120c69e..4ba40bf 100644
--- a/pxmcmc/plotting.py
+++ b/pxmcmc/plotting.py
@@ -126,12 +126,9 @@ def plot_wavelet_maps(f, L, B, J_min, dirs=1, spin=0, same_scale=True, **map_arg
 
 
 def mollview(image, figsize=(10, 8), **kwargs):
-    i = np.random.randint(1000)
-    fig = plt.figure(
-        num=i, figsize=figsize
-    )  # this figure number thing is a bit hacky...
+    fig = plt.figure(figsize=figsize)
     with suppress_stdout():
-        hp.mollview(image, fig=i, **kwargs)
+        hp.mollview(image, fig=fig.number, **kwargs)
         hp.graticule(30)
     return fig
 
-- 
2.43.0


From 20eb492d7dcf3b0e745931882071b854440723f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:10 +0000
Subject: [PATCH 35/39] fix: scaling power weights use the bandlimit of the
 scaling coefficients

The number of non-zero kernel values differs from the bandlimit when B**J_min
is rounded to just above an integer (e.g. B=sqrt(5), J_min=2), so the prior
had fewer weights than there are scaling coefficients.
---
 pxmcmc/prior.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pxmcmc/prior.py b/pxmcmc/prior.py
index 9edfa2f..8efa0dd 100644
--- a/pxmcmc/prior.py
+++ b/pxmcmc/prior.py
@@ -119,7 +119,7 @@ class S2_Wavelets_L1_Power_Weights(S2_Wavelets_L1):
     def _calculate_scaling_weights(self):
         phi_l, _ = pys2let.wavelet_tiling(self.B, self.L, self.dirs, self.J_min, self.spin)
         scaling_power = np.vdot(phi_l, phi_l).real
-        effective_L = np.nonzero(phi_l)[0].max() + 1
+        effective_L = _multires_bandlimits(self.L, self.B, self.J_min)[0]
         nsamples = pyssht.sample_length(effective_L)
         weights = np.full(pyssht.sample_shape(effective_L), 2 * np.pi ** 2 / (scaling_power * nsamples))
         thetas, _ = pyssht.sample_positions(effective_L)
-- 
2.43.0


From 3a5c5201cdf54cee6eb2bf98fd7a68701ea1f4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:24 +0000
Subject: [PATCH 36/39] fix: only complete downloads of the simulation are kept
 under its name

---
 experiments/weaklensing/download_takahasi.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/experiments/weaklensing/download_takahasi.py b/experiments/weaklensing/download_takahasi.py
index 325f732..c616ed7 100644
--- a/experiments/weaklensing/download_takahasi.py
+++ b/experiments/weaklensing/download_takahasi.py
@@ -104,11 +104,16 @@ def download_binary(filename):
     ind = filename.find("nres")
     nres = int(filename[ind + 4 : ind + 6])
     url = f"http://cosmo.phys.hirosaki-u.ac.jp/takahasi/allsky_raytracing/sub1/nres{nres}/{filename}"
+    partial = f"{filename}.part"  # only a complete download gets the final name
     with requests.get(url, stream=True) as r:
+        r.raise_for_status()
         total_length = int(r.headers.get("Content-Length"))
         with tqdm.wrapattr(r.raw, "read", total=total_length, desc="") as raw:
-            with open(filename, "wb") as file:
+            with open(partial, "wb") as file:
                 shutil.copyfileobj(raw, file)
+    if os.path.getsize(partial) != total_length:
+        raise IOError(f"incomplete download of {url}")
+    os.rename(partial, filename)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 3d78f80516ab1cda0b5856e2b736e65368bb7951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:24 +0000
Subject: [PATCH 37/39] fix: convert the simulation also when an earlier
 conversion was interrupted

---
 experiments/weaklensing/download_takahasi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/weaklensing/download_takahasi.py b/experiments/weaklensing/download_takahasi.py
index c616ed7..83ec813 100644
--- a/experiments/weaklensing/download_takahasi.py
+++ b/experiments/weaklensing/download_takahasi.py
@@ -93,7 +93,7 @@ def binary_to_fits(filename):
     print("loading completed")
 
     # example of saving data as a fits file
-    hp.fitsfunc.write_map("output.fits", kappa)
+    hp.fitsfunc.write_map("output.fits", kappa, overwrite=True)
 
 
 def download_binary(filename):
-- 
2.43.0


From 7cd089f7270d8afc13d8112c8cf04c8870f4546d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:24 +0000
Subject: [PATCH 38/39] fix: reject a truncated simulation file instead of
 converting what is left

---
 experiments/weaklensing/download_takahasi.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/experiments/weaklensing/download_takahasi.py b/experiments/weaklensing/download_takahasi.py
index 83ec813..be332c3 100644
--- a/experiments/weaklensing/download_takahasi.py
+++ b/experiments/weaklensing/download_takahasi.py
@@ -90,6 +90,8 @@ def binary_to_fits(filename):
                 np.fromfile(f, dtype="uint32", count=2)
                 omega = np.append(omega, load)
 
+    if kappa.size != npix:
+        raise IOError(f"{filename} holds {kappa.size} of {npix} pixels")
     print("loading completed")
 
     # example of saving data as a fits file
-- 
2.43.0


From be5bce161e7c5bc75b4d5e2a29bd417621e079dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:39 +0000
Subject: [PATCH 39/39] fix: changing the tracked quantities of one parameter
 object changed the defaults of all others

---
 pxmcmc/mcmc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pxmcmc/mcmc.py b/pxmcmc/mcmc.py
index bb13cc3..e77dc89 100644
--- a/pxmcmc/mcmc.py
+++ b/pxmcmc/mcmc.py
@@ -16,7 +16,7 @@ class PxMCMCParams:
     :param ngap: Thinning parameter=number of iterations between saved samples
     :param complex: :code:`True` if sampled parameters are complex. Default :code:`False`.
     :param verbosity: print every :code:`verbosity` samples to console
-    :param track: list of variables to keep track of
+    :param track: list of variables to keep track of. Default :code:`["logposterior", "L2", "prior", "chain"]`
     """
     def __init__(
         self,
@@ -29,7 +29,7 @@ class PxMCMCParams:
         ngap=int(1e2),
         complex=False,
         verbosity=100,
-        track=["logposterior", "L2", "prior", "chain"],
+        track=None,
     ):
         self.lmda = lmda
         self.delta = delta
@@ -40,6 +40,8 @@ class PxMCMCParams:
         self.ngap = ngap
         self.complex = complex
         self.verbosity = verbosity
+        if track is None:  # a new list each time, so that changing one leaves the others alone
+            track = ["logposterior", "L2", "prior", "chain"]
         self.track = track
 
 
-- 
2.43.0

