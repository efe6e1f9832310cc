From 7e46ccecef1755374221bff3382ee0445a61a836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:20 +0000
Subject: [PATCH 01/29] fix: include p(v_k | x_{k-1}, v_{k-1}) in the backward
 sampling weights of the cSMC kernel

---
 fbs/samplers/csmc/csmc.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/fbs/samplers/csmc/csmc.py b/fbs/samplers/csmc/csmc.py
index 9b2bb1f..b0d30a3 100644
--- a/fbs/samplers/csmc/csmc.py
+++ b/fbs/samplers/csmc/csmc.py
@@ -71,7 +71,8 @@ def csmc_kernel(key: JKey,
                                    transition_sampler, measurement_cond_logpdf, cond_resampling, nsamples,
                                    **kwargs)
     if backward:
-        xs_star, bs_star = backward_sampling_pass(key_bwd, transition_logpdf, vs, ts, xss, log_ws, **kwargs)
+        xs_star, bs_star = backward_sampling_pass(key_bwd, transition_logpdf, vs, ts, xss, log_ws,
+                                                  measurement_cond_logpdf=measurement_cond_logpdf, **kwargs)
     else:
         xs_star, bs_star = backward_scanning_pass(key_bwd, As, xss, log_ws[-1])
     return xs_star, bs_star
@@ -164,7 +165,7 @@ def forward_pass(key: JKey,
     return As, log_wss, uss
 
 
-def backward_sampling_pass(key, transition_logpdf, vs, ts, uss, log_ws, *args, **kwargs):
+def backward_sampling_pass(key, transition_logpdf, vs, ts, uss, log_ws, *args, measurement_cond_logpdf, **kwargs):
     """
     Backward sampling pass for the cSMC kernel.
 
@@ -178,6 +179,9 @@ def backward_sampling_pass(key, transition_logpdf, vs, ts, uss, log_ws, *args, *
         JArray of particles.
     log_ws:
         JArray of log-weights for the filtering solution.
+    measurement_cond_logpdf:
+        The measurement conditional logpdf. p(v_k | x_{k-1}, v_{k-1}). As the measurement v_k depends on x_{k-1}, it
+        contributes to the backward weights of x_{k-1}.
 
     Returns
     -------
@@ -202,8 +206,9 @@ def backward_sampling_pass(key, transition_logpdf, vs, ts, uss, log_ws, *args, *
     x_T = uss[-1, B_T]
 
     def body(x_t, inp):
-        op_key, xs_t_m_1, log_w_t_m_1, v_t_m_1, t_m_1 = inp
+        op_key, xs_t_m_1, log_w_t_m_1, v_t, v_t_m_1, t_m_1 = inp
         Gamma_log_w = transition_logpdf(x_t, xs_t_m_1, v_t_m_1, t_m_1, *args, **kwargs)  # I swapped the order
+        Gamma_log_w += measurement_cond_logpdf(v_t, xs_t_m_1, v_t_m_1, t_m_1, *args, **kwargs)
         Gamma_log_w -= jnp.max(Gamma_log_w)
         log_w = Gamma_log_w + log_w_t_m_1
         w = normalise(log_w)
@@ -214,7 +219,7 @@ def backward_sampling_pass(key, transition_logpdf, vs, ts, uss, log_ws, *args, *
     # Reverse arrays, ideally, should use jax.lax.scan(reverse=True) but it is simpler this way due to insertions.
     # xs[-2::-1] is the reversed list of xs[:-1], I know, not readable... Same for log_ws.
     # vs[-1:0:-1] means the reverse of vs[1:]
-    inps = keys[:-1], uss[-2::-1], log_ws[-2::-1], vs[-2::-1], ts[-2::-1]
+    inps = keys[:-1], uss[-2::-1], log_ws[-2::-1], vs[-1:0:-1], vs[-2::-1], ts[-2::-1]
 
     # Run backward pass
     _, (uss, Bs, Ws) = jax.lax.scan(body, x_T, inps)
-- 
2.43.0


From cc4d997552794e0851106019b375e9f435ca6f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:20 +0000
Subject: [PATCH 02/29] fix: KL divergence between Gaussians misses the factor
 1/2

---
 fbs/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fbs/utils.py b/fbs/utils.py
index 8a79862..293184f 100644
--- a/fbs/utils.py
+++ b/fbs/utils.py
@@ -48,6 +48,6 @@ def kl(m0, cov0, m1, cov1):
     chol1 = jax.scipy.linalg.cho_factor(cov1)
     log_det0 = _log_det(chol0[0])
     log_det1 = _log_det(chol1[0])
-    return (jnp.trace(jax.scipy.linalg.cho_solve(chol1, cov0))
-            - d + jnp.dot(m1 - m0, jax.scipy.linalg.cho_solve(chol1, m1 - m0))
-            + log_det1 - log_det0)
+    return 0.5 * (jnp.trace(jax.scipy.linalg.cho_solve(chol1, cov0))
+                  - d + jnp.dot(m1 - m0, jax.scipy.linalg.cho_solve(chol1, m1 - m0))
+                  + log_det1 - log_det0)
-- 
2.43.0


From 9fae58985a98751ca8332a42e5697f4190b658a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:20 +0000
Subject: [PATCH 03/29] fix: Crescent prior pdf takes the standard deviation
 instead of the variance

---
 fbs/data/bayesian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbs/data/bayesian.py b/fbs/data/bayesian.py
index de63431..8aa5b4a 100644
--- a/fbs/data/bayesian.py
+++ b/fbs/data/bayesian.py
@@ -36,7 +36,7 @@ class Crescent(Dataset):
 
     def log_prior_pdf(self, phi):
         if self.cov_is_diag:
-            return jnp.sum(jax.scipy.stats.norm.logpdf(phi, self.m, jnp.diag(self.cov)))
+            return jnp.sum(jax.scipy.stats.norm.logpdf(phi, self.m, jnp.sqrt(jnp.diag(self.cov))))
         else:
             return jax.scipy.stats.multivariate_normal.logpdf(phi, self.m, self.cov)
 
-- 
2.43.0


From a7b01f71494daf2e66db0b41da581a0aafeb3222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:20 +0000
Subject: [PATCH 04/29] fix: Crescent posterior integrates each mesh axis
 against its own coordinates

---
 fbs/data/bayesian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbs/data/bayesian.py b/fbs/data/bayesian.py
index 8aa5b4a..dcc6fc9 100644
--- a/fbs/data/bayesian.py
+++ b/fbs/data/bayesian.py
@@ -52,7 +52,7 @@ class Crescent(Dataset):
         def energy(phi): return jnp.exp(self.log_prior_pdf(phi) + self.log_cond_pdf_likelihood(y, phi))
 
         evals = jax.vmap(jax.vmap(energy, in_axes=[0]), in_axes=[0])(phi_mesh)
-        z = jax.scipy.integrate.trapezoid(jax.scipy.integrate.trapezoid(evals, phi_mesh[0, :, 0], axis=0),
+        z = jax.scipy.integrate.trapezoid(jax.scipy.integrate.trapezoid(evals, phi_mesh[0, :, 0], axis=1),
                                           phi_mesh[:, 0, 1])
         return evals / z
 
-- 
2.43.0


From 622dd0c0e5f6aa184228d35a29dd371de0187589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:20 +0000
Subject: [PATCH 05/29] fix: marginal simulation of linear SDEs broadcasts
 times over the state and defaults t0 to ts[0]

---
 fbs/sdes/linear.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fbs/sdes/linear.py b/fbs/sdes/linear.py
index 31d579d..075dd74 100644
--- a/fbs/sdes/linear.py
+++ b/fbs/sdes/linear.py
@@ -220,8 +220,9 @@ def make_linear_sde(sde: LinearSDE):
             rnds = jax.random.normal(key, (ts.shape[0] - 1, *x0.shape))
             return jnp.concatenate([x0[jnp.newaxis], jax.lax.scan(scan_body, x0, (ts[1:], ts[:-1], rnds))[1]], axis=0)
         else:
-            Fs, Qs = discretise_linear_sde(ts, t0)
+            Fs, Qs = discretise_linear_sde(ts, jnp.ravel(ts)[0] if t0 is None else t0)
             rnds = jax.random.normal(key, (*ts.shape, *x0.shape))
+            Fs, Qs = [jnp.reshape(z, (*ts.shape, *(1,) * x0.ndim)) for z in (Fs, Qs)]
             return Fs * x0 + jnp.sqrt(Qs) * rnds
 
     return discretise_linear_sde, cond_score_t_0, simulate_cond_forward
-- 
2.43.0


From 315bfcdaa459726eec8e4be77f8b4e8ef99591ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:20 +0000
Subject: [PATCH 06/29] fix: bootstrap filter ignores log=False

---
 fbs/samplers/smc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fbs/samplers/smc.py b/fbs/samplers/smc.py
index f35464b..89ea9e6 100644
--- a/fbs/samplers/smc.py
+++ b/fbs/samplers/smc.py
@@ -63,6 +63,8 @@ def bootstrap_filter(transition_sampler: Callable[[JArray, JArray, FloatScalar,
         us = transition_sampler(us_prev, v_prev, t_prev, key_proposal, **kwargs)
 
         log_weights = measurement_cond_pdf(v, us_prev, v_prev, t_prev, **kwargs)
+        if not log:
+            log_weights = jnp.log(log_weights)
         _c = jax.scipy.special.logsumexp(log_weights)
         log_nell -= _c - math.log(nparticles)
         log_weights = log_weights - _c
-- 
2.43.0


From 524ed3228b796e931382d00064c0534b56974767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:20 +0000
Subject: [PATCH 07/29] fix: Euler-Maruyama substep times when integrating over
 decreasing times

---
 fbs/sdes/simulators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fbs/sdes/simulators.py b/fbs/sdes/simulators.py
index 4ebd121..34169e3 100644
--- a/fbs/sdes/simulators.py
+++ b/fbs/sdes/simulators.py
@@ -89,7 +89,8 @@ def euler_maruyama(key: JKey, x0: JArray, ts: JArray,
 
         ddt = jnp.abs(t_next - t) / integration_nsteps
         rnds = jax.random.normal(key_, (integration_nsteps, *x0.shape))
-        return jax.lax.scan(scan_body_, xt, (rnds, jnp.linspace(t, t_next - ddt, integration_nsteps)))[0]
+        return jax.lax.scan(scan_body_, xt, (rnds, jnp.linspace(t, t_next - (t_next - t) / integration_nsteps,
+                                                                 integration_nsteps)))[0]
 
     def scan_body(carry, elem):
         x = carry
-- 
2.43.0


From c6f7a0cd08b445fe49412c7619a89ceb26ba07a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:20 +0000
Subject: [PATCH 08/29] fix: acceptance probability returned by the forced move

---
 fbs/samplers/gibbs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbs/samplers/gibbs.py b/fbs/samplers/gibbs.py
index a8fab78..d06839d 100644
--- a/fbs/samplers/gibbs.py
+++ b/fbs/samplers/gibbs.py
@@ -208,7 +208,7 @@ def force_move(key: JKey, weights: JArray, k: FloatScalar) -> Tuple[JInt, JFloat
     u = jax.random.uniform(key_2, shape=())
     accept = u * (1 - weights[i]) < temp  # u < (1 - w_k) / (1 - w_i)
 
-    alpha = jnp.nansum(temp * rest_weights / (1 - weights))
+    alpha = jnp.nansum(rest_weights * jnp.minimum(temp / (1 - weights), 1.))
     i = jax.lax.select(accept, i, k)
 
     return i, jnp.clip(alpha, 0, 1.)
-- 
2.43.0


From b7817d1b3b76315e538f788b0637fd9cdde77385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:30 +0000
Subject: [PATCH 09/29] fix: resampling may select particles of zero weight
 (rounded weight sums, boundary uniforms)

---
 fbs/samplers/csmc/resamplings.py |  6 +++---
 fbs/samplers/resampling.py       | 16 +++++++++-------
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/fbs/samplers/csmc/resamplings.py b/fbs/samplers/csmc/resamplings.py
index 351b996..b6266e8 100644
--- a/fbs/samplers/csmc/resamplings.py
+++ b/fbs/samplers/csmc/resamplings.py
@@ -119,10 +119,10 @@ def systematic(key: JKey, weights: JArray, i: Optional[int] = 0, j: Optional[int
 
 def _standard_systematic(key: JKey, weights: JArray) -> JArray:
     N = weights.shape[0]
-    u = (jnp.arange(N) + jax.random.uniform(key)) / N
+    u = (jnp.arange(N) + 1. - jax.random.uniform(key)) / N
     cum_weights = jnp.cumsum(weights)
-    indices = jnp.searchsorted(cum_weights, u)
-    return indices
+    indices = jnp.searchsorted(cum_weights, cum_weights[-1] * u)
+    return jnp.clip(indices, 0, N - 1)
 
 
 def _conditional_systematic(key: JKey, weights: JArray, i, j) -> JArray:
diff --git a/fbs/samplers/resampling.py b/fbs/samplers/resampling.py
index 84a1478..932ceae 100644
--- a/fbs/samplers/resampling.py
+++ b/fbs/samplers/resampling.py
@@ -35,7 +35,7 @@ from fbs.typings import JArray, JKey
 
 def _sorted_uniforms(n, key: JKey) -> JArray:
     # Credit goes to Nicolas Chopin
-    us = jax.random.uniform(key, (n + 1,))
+    us = jax.random.uniform(key, (n + 1,), minval=jnp.finfo(jnp.result_type(float)).tiny)  # in (0, 1), so that logs are finite
     z = jnp.cumsum(-jnp.log(us))
     return z[:-1] / z[-1]
 
@@ -43,11 +43,12 @@ def _sorted_uniforms(n, key: JKey) -> JArray:
 def _systematic_or_stratified(weights: JArray, key: JKey, is_systematic: bool) -> JArray:
     n = weights.shape[0]
     if is_systematic:
-        u = jax.random.uniform(key, ())
+        u = 1. - jax.random.uniform(key, ())  # in (0, 1]
     else:
-        u = jax.random.uniform(key, (n,))
-    idx = jnp.searchsorted(jnp.cumsum(weights),
-                           (jnp.arange(n, dtype=weights.dtype) + u) / n)
+        u = 1. - jax.random.uniform(key, (n,))
+    cum_weights = jnp.cumsum(weights)  # cum_weights[-1] may not be exactly 1 due to rounding
+    idx = jnp.searchsorted(cum_weights,
+                           cum_weights[-1] * ((jnp.arange(n, dtype=weights.dtype) + u) / n))
     return jnp.clip(idx, 0, n - 1)
 
 
@@ -63,8 +64,9 @@ def multinomial(weights: JArray, key: JKey) -> JArray:
     """Not tested.
     """
     n = weights.shape[0]
-    idx = jnp.searchsorted(jnp.cumsum(weights),
-                           _sorted_uniforms(n, key))
+    cum_weights = jnp.cumsum(weights)
+    idx = jnp.searchsorted(cum_weights,
+                           cum_weights[-1] * _sorted_uniforms(n, key))
     return jnp.clip(idx, 0, n - 1)
 
 
-- 
2.43.0


From 3db7f1d4f2ae516f088d60400a15c0ddf4bf0dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:30 +0000
Subject: [PATCH 10/29] fix: NaN matrix square root when rounding makes the
 eigenvalues of a singular matrix negative

---
 fbs/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbs/utils.py b/fbs/utils.py
index 293184f..86430a2 100644
--- a/fbs/utils.py
+++ b/fbs/utils.py
@@ -23,7 +23,7 @@ def sqrtm(mat: JArray, method: str = 'eigh') -> JArray:
     """
     if method == 'eigh':
         eigenvals, eigenvecs = jnp.linalg.eigh(mat)
-        return eigenvecs @ jnp.diag(jnp.sqrt(eigenvals)) @ eigenvecs.T
+        return eigenvecs @ jnp.diag(jnp.sqrt(jnp.maximum(eigenvals, 0.))) @ eigenvecs.T
     else:
         return jnp.real(jax.scipy.linalg.sqrtm(mat))
 
-- 
2.43.0


From 6a1b06708209c74537bdb2a600eb7c57e152aade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:30 +0000
Subject: [PATCH 11/29] fix: pMCMC kernel proposes a uniformly chosen particle

---
 fbs/samplers/smc.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/fbs/samplers/smc.py b/fbs/samplers/smc.py
index 89ea9e6..168d6bb 100644
--- a/fbs/samplers/smc.py
+++ b/fbs/samplers/smc.py
@@ -219,7 +219,7 @@ def pmcmc_kernel(key: JKey,
     delta : float, default=None
         The PCN parameter.
     which_u : int, default=0
-        Which particle to choose.
+        Which of the (randomly permuted) particles to choose.
 
     Returns
     -------
@@ -230,7 +230,7 @@ def pmcmc_kernel(key: JKey,
     -----
     It is possible to not store the whole trajectory Y by means of Doob's transform.
     """
-    key_prop, key_u0, key_filter, key_mh = jax.random.split(key, num=4)
+    key_prop, key_u0, key_filter, key_mh, key_which_u = jax.random.split(key, num=5)
 
     if delta is None:
         prop_ys = fwd_ys_sampler(key_prop, y0)
@@ -243,7 +243,8 @@ def pmcmc_kernel(key: JKey,
     u0s = ref_sampler(key_u0, vs[0], nparticles)  # p(u0 | y0)
     prop_uTs, prop_log_ell = pmcmc_filter_step(key_filter, vs, u0s, ts, transition_sampler, likelihood_logpdf,
                                                resampling, nparticles, **kwargs)
-    prop_uT = prop_uTs[which_u]
+    # The resampling may order the particles (e.g., stratified), so that a fixed index is not a draw from the filter.
+    prop_uT = prop_uTs[jax.random.permutation(key_which_u, nparticles)[which_u]]
 
     log_acc_prob = jnp.minimum(0., prop_log_ell - log_ell)
 
-- 
2.43.0


From d20c5fb737cc3c5bf8ca5c4036b1ebd19b40350f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:30 +0000
Subject: [PATCH 12/29] fix: NaN sinusoidal embedding when out_dim=2

---
 fbs/nn/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbs/nn/base.py b/fbs/nn/base.py
index fb322af..51300ff 100644
--- a/fbs/nn/base.py
+++ b/fbs/nn/base.py
@@ -69,7 +69,7 @@ def sinusoidal_embedding(t: Union[JArray, FloatScalar], out_dim: int = 64, max_p
     """
     half = out_dim // 2
 
-    fs = jnp.exp(-math.log(max_period) * jnp.arange(half) / (half - 1))
+    fs = jnp.exp(-math.log(max_period) * jnp.arange(half) / max(half - 1, 1))
     embs = t * fs
     embs = jnp.concatenate([jnp.sin(embs), jnp.cos(embs)], axis=-1)
     if out_dim % 2 == 1:
-- 
2.43.0


From 60b07997d0ea14b101c755889b9de1f645aa165d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:56 +0000
Subject: [PATCH 13/29] fix: backward smoother of the Gibbs initialisation
 misses p(v_{k+1} | u_k, v_k)

---
 fbs/samplers/gibbs.py |  3 ++-
 fbs/samplers/smc.py   | 13 ++++++++++---
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/fbs/samplers/gibbs.py b/fbs/samplers/gibbs.py
index d06839d..3b5a2f9 100644
--- a/fbs/samplers/gibbs.py
+++ b/fbs/samplers/gibbs.py
@@ -55,7 +55,8 @@ def gibbs_init(key, y0, x0_shape, ts,
         uss = bootstrap_filter(transition_sampler, likelihood_logpdf, vs, ts, init_sampler, key_bf, nparticles,
                                stratified, log=True, return_last=False, **kwargs)[0]
         approx_x0 = uss[-1, 0]
-        approx_us_star = bootstrap_backward_smoother(key_bwd, uss, vs, ts, transition_logpdf, **kwargs)
+        approx_us_star = bootstrap_backward_smoother(key_bwd, uss, vs, ts, transition_logpdf,
+                                                     measurement_cond_logpdf=likelihood_logpdf, **kwargs)
     elif method == 'debug':
         approx_x0 = bootstrap_filter(transition_sampler, likelihood_logpdf, vs, ts, init_sampler, key_bf, nparticles,
                                      stratified, log=True, return_last=False, **kwargs)[0]
diff --git a/fbs/samplers/smc.py b/fbs/samplers/smc.py
index 168d6bb..7ac2540 100644
--- a/fbs/samplers/smc.py
+++ b/fbs/samplers/smc.py
@@ -93,15 +93,22 @@ def bootstrap_filter(transition_sampler: Callable[[JArray, JArray, FloatScalar,
 def bootstrap_backward_smoother(key: JKey,
                                 filter_us: JArray, vs: JArray, ts: JArray,
                                 transition_logpdf: Callable,
-                                *args, **kwargs) -> JArray:
+                                *args, measurement_cond_logpdf: Optional[Callable] = None, **kwargs) -> JArray:
     """Backward particle smoother by using the results from a bootstrap filter.
+
+    Notes
+    -----
+    If the measurements are such that v_{k+1} depends on u_k, then `measurement_cond_logpdf` for p(v_{k+1} | u_k, v_k)
+    (the one used in the filter) must be given for the trajectory to target the smoothing distribution.
     """
 
     def scan_body(carry, elem):
         u_kp1 = carry
-        uf_k, v_k, t_k, key_ = elem
+        uf_k, v_kp1, v_k, t_k, key_ = elem
 
         log_ws = transition_logpdf(u_kp1, uf_k, v_k, t_k, *args, **kwargs)
+        if measurement_cond_logpdf is not None:
+            log_ws = log_ws + measurement_cond_logpdf(v_kp1, uf_k, v_k, t_k, *args, **kwargs)
         log_ws = log_ws - jax.scipy.special.logsumexp(log_ws)
         u_k = jax.random.choice(key_, uf_k, axis=0, p=jnp.exp(log_ws))
         return u_k, u_k
@@ -109,7 +116,7 @@ def bootstrap_backward_smoother(key: JKey,
     nsteps = filter_us.shape[0] - 1
     key_last, key_smoother = jax.random.split(key, num=2)
     uT = jax.random.choice(key, filter_us[-1], axis=0)
-    traj = jax.lax.scan(scan_body, uT, (filter_us[-2::-1], vs[-2::-1], ts[-2::-1],
+    traj = jax.lax.scan(scan_body, uT, (filter_us[-2::-1], vs[-1:0:-1], vs[-2::-1], ts[-2::-1],
                                         jax.random.split(key_smoother, num=nsteps)))[1][::-1]
     return jnp.concatenate([traj, jnp.expand_dims(uT, axis=0)], axis=0)
 
-- 
2.43.0


From 327889596b3db59c963ae55c0cc156742c1c56cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:44 +0000
Subject: [PATCH 14/29] fix: Gibbs kernel raises when keyword arguments are
 passed with explicit_final=False

---
 fbs/samplers/gibbs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbs/samplers/gibbs.py b/fbs/samplers/gibbs.py
index 3b5a2f9..2e877fb 100644
--- a/fbs/samplers/gibbs.py
+++ b/fbs/samplers/gibbs.py
@@ -141,7 +141,7 @@ def gibbs_kernel(key: JKey, x0: JArray, y0: JArray, us_star: JArray, bs_star: JA
         def init_sampler(*_):
             return us[0] * jnp.ones((nparticles, *us.shape[1:]))
 
-        def init_likelihood_logpdf(*_):
+        def init_likelihood_logpdf(*_, **__):
             return -math.log(nparticles) * jnp.ones(nparticles)
 
     if explicit_backward:
-- 
2.43.0


From 8de251020c0f9882b3e4f11048c51bf0248d618c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:19 +0000
Subject: [PATCH 15/29] fix: marginal simulation of the OU SDE ignores the
 initial time ts[0]

---
 fbs/sdes/linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbs/sdes/linear.py b/fbs/sdes/linear.py
index 075dd74..f36aa21 100644
--- a/fbs/sdes/linear.py
+++ b/fbs/sdes/linear.py
@@ -155,7 +155,7 @@ def make_ou_sde(a, b):
             rnds = jax.random.normal(key, (dts.shape[0], x0.shape[0]))
             return jnp.concatenate([x0[None, :], jax.lax.scan(scan_body, x0, (dts, rnds))[1]], axis=0)
         else:
-            Fs, Qs = discretise_ou_sde(ts)
+            Fs, Qs = discretise_ou_sde(ts - ts[0])
             rnds = jax.random.normal(key, (ts.shape[0], x0.shape[0]))
             return Fs[:, None] * x0[None, :] + jnp.sqrt(Qs)[:, None] * rnds
 
-- 
2.43.0


From 9ddb449a756531342ad1920bd39d9a1c7f8c7b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:19 +0000
Subject: [PATCH 16/29] fix: OU score matching loss takes the score from time 0
 rather than t0

---
 fbs/sdes/linear.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fbs/sdes/linear.py b/fbs/sdes/linear.py
index f36aa21..45d9b57 100644
--- a/fbs/sdes/linear.py
+++ b/fbs/sdes/linear.py
@@ -382,14 +382,14 @@ def make_ou_score_matching_loss(a, b, nn_score, t0=0., T=2., nsteps: int = 100,
                              T])
         else:
             ts = jnp.linspace(t0, T, nsteps + 1)
-        scales = score_scale(ts[1:])
+        scales = score_scale(ts[1:] - ts[0])
 
         keys = jax.random.split(key_fwd, num=nsamples)
         fwd_paths = jax.vmap(simulate_cond_forward, in_axes=[0, 0, None])(keys, x0s, ts)
         nn_evals = jax.vmap(nn_score, in_axes=[1, 0, None], out_axes=1)(fwd_paths[:, 1:], ts[1:], param)
         cond_score_evals = jax.vmap(jax.vmap(cond_score_t_0,
                                              in_axes=[0, 0, None]),
-                                    in_axes=[0, None, 0])(fwd_paths[:, 1:], ts[1:], fwd_paths[:, 0])
+                                    in_axes=[0, None, 0])(fwd_paths[:, 1:], ts[1:] - ts[0], fwd_paths[:, 0])
         return jnp.mean(jnp.mean((nn_evals - cond_score_evals) ** 2, axis=-1) * scales[None, :])
 
     return loss_fn
-- 
2.43.0


From 6091881e04cc3d15210664cb0966e42b6aef6306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:38 +0000
Subject: [PATCH 17/29] fix: normalise gives NaN for images with a constant
 channel

---
 fbs/data/images.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbs/data/images.py b/fbs/data/images.py
index 4a38e6c..300ad6b 100644
--- a/fbs/data/images.py
+++ b/fbs/data/images.py
@@ -418,4 +418,4 @@ def normalise(img: JArray, method: str = 'clip') -> JArray:
     else:
         mins = jnp.min(img, axis=[-2, -3], keepdims=True)
         maxs = jnp.max(img, axis=[-2, -3], keepdims=True)
-        return (img - mins) / (maxs - mins)
+        return (img - mins) / jnp.where(maxs > mins, maxs - mins, 1.)
-- 
2.43.0


From f39b29628838ca620593d508e2cbe94143b80e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:38 +0000
Subject: [PATCH 18/29] fix: MNISTResConv with resize decoder refers to an
 attribute that does not exist

---
 fbs/nn/models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fbs/nn/models.py b/fbs/nn/models.py
index c246bb0..ad38ba0 100644
--- a/fbs/nn/models.py
+++ b/fbs/nn/models.py
@@ -198,12 +198,12 @@ class MNISTResConv(nn.Module):
             x = x + x1
             x = nn.Conv(features=1, kernel_size=(3, 3))(x)  # (n, 28, 28, 1)
         else:
-            x = jax.image.resize(x, (self.batch_spatial, 14, 14, 64), 'nearest')
+            x = jax.image.resize(x, (batch_size, 14, 14, 64), 'nearest')
             x = nn.Conv(features=64, kernel_size=(3, 3))(x)
             x = nn.GroupNorm(num_groups=8)(x)
             x = nn.silu(x)
             x = x + x2
-            x = jax.image.resize(x, (self.batch_spatial, 28, 28, 64), 'nearest')
+            x = jax.image.resize(x, (batch_size, 28, 28, 64), 'nearest')
             x = nn.Conv(features=32, kernel_size=(3, 3))(x)
             x = nn.GroupNorm(num_groups=8)(x)
             x = nn.silu(x)
-- 
2.43.0


From 3a4d19b75b2fd263784ab6c9b16b6b0a8c2d4758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:48 +0000
Subject: [PATCH 19/29] fix: default network of make_simple_st_nn cannot be
 initialised or evaluated on batches

---
 fbs/nn/models.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/fbs/nn/models.py b/fbs/nn/models.py
index ad38ba0..adc7030 100644
--- a/fbs/nn/models.py
+++ b/fbs/nn/models.py
@@ -227,29 +227,28 @@ def make_simple_st_nn(key,
 
     class ClassicMLP(nn.Module):
         nn_param_dtype = jnp.float64
-        nn_param_init = nn.initializers.xavier_normal()
 
         @nn.compact
         def __call__(self, x, t):
             d = x.shape[-1]
 
             # Spatial part
-            x = nn.Dense(features=16, param_dtype=self.nn_param_dtype, kernel_init=self.nn_param_init)(x)
+            x = nn.Dense(features=16, param_dtype=self.nn_param_dtype, kernel_init=nn_param_init)(x)
             x = nn.relu(x)
-            x = nn.Dense(features=8, param_dtype=self.nn_param_dtype, kernel_init=self.nn_param_init)(x)
+            x = nn.Dense(features=8, param_dtype=self.nn_param_dtype, kernel_init=nn_param_init)(x)
 
             # Temporal part
-            t = sinusoidal_embedding(t, out_dim=embed_dim)
-            t = nn.Dense(features=16, param_dtype=self.nn_param_dtype, kernel_init=self.nn_param_init)(t)
+            t = sinusoidal_embedding(jnp.expand_dims(t, -1), out_dim=embed_dim)
+            t = nn.Dense(features=16, param_dtype=self.nn_param_dtype, kernel_init=nn_param_init)(t)
             t = nn.relu(t)
-            t = nn.Dense(features=8, param_dtype=self.nn_param_dtype, kernel_init=self.nn_param_init)(t)
+            t = nn.Dense(features=8, param_dtype=self.nn_param_dtype, kernel_init=nn_param_init)(t)
 
-            z = jnp.concatenate([x, t], axis=-1)
-            z = nn.Dense(features=32, param_dtype=self.nn_param_dtype, kernel_init=self.nn_param_init)(z)
+            z = jnp.concatenate([x, jnp.broadcast_to(t, (*x.shape[:-1], t.shape[-1]))], axis=-1)
+            z = nn.Dense(features=32, param_dtype=self.nn_param_dtype, kernel_init=nn_param_init)(z)
             z = nn.relu(z)
-            z = nn.Dense(features=8, param_dtype=self.nn_param_dtype, kernel_init=self.nn_param_init)(z)
+            z = nn.Dense(features=8, param_dtype=self.nn_param_dtype, kernel_init=nn_param_init)(z)
             z = nn.relu(z)
-            z = nn.Dense(features=d, param_dtype=self.nn_param_dtype, kernel_init=self.nn_param_init)(z)
+            z = nn.Dense(features=d, param_dtype=self.nn_param_dtype, kernel_init=nn_param_init)(z)
             return jnp.squeeze(z)
 
     if nn_model is None:
-- 
2.43.0


From f8ea11fb18c926e49351ca9606bb549f25868e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:19 +0000
Subject: [PATCH 20/29] fix: backward smoother draws the last particle with a
 key that it has already split

---
 fbs/samplers/smc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbs/samplers/smc.py b/fbs/samplers/smc.py
index 7ac2540..a8335c3 100644
--- a/fbs/samplers/smc.py
+++ b/fbs/samplers/smc.py
@@ -115,7 +115,7 @@ def bootstrap_backward_smoother(key: JKey,
 
     nsteps = filter_us.shape[0] - 1
     key_last, key_smoother = jax.random.split(key, num=2)
-    uT = jax.random.choice(key, filter_us[-1], axis=0)
+    uT = jax.random.choice(key_last, filter_us[-1], axis=0)
     traj = jax.lax.scan(scan_body, uT, (filter_us[-2::-1], vs[-1:0:-1], vs[-2::-1], ts[-2::-1],
                                         jax.random.split(key_smoother, num=nsteps)))[1][::-1]
     return jnp.concatenate([traj, jnp.expand_dims(uT, axis=0)], axis=0)
-- 
2.43.0


From c9537f5f3374997596dc49a5743a424fe0cafb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:51 +0000
Subject: [PATCH 21/29] fix: Gaussian experiments sample with the transposed
 Cholesky factor

---
 experiments/sb/filter.py     | 4 ++--
 experiments/sb/gibbs.py      | 4 ++--
 experiments/toy/gp_filter.py | 2 +-
 experiments/toy/gp_gibbs.py  | 2 +-
 experiments/toy/gp_kf.py     | 2 +-
 experiments/toy/gp_pmcmc.py  | 2 +-
 6 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/experiments/sb/filter.py b/experiments/sb/filter.py
index 5e7800b..da17a13 100644
--- a/experiments/sb/filter.py
+++ b/experiments/sb/filter.py
@@ -49,7 +49,7 @@ gp_posterior_chol = jnp.linalg.cholesky(gp_posterior_cov)
 
 
 def gp_posterior_sampler(key_):
-    return gp_posterior_mean + jax.random.normal(key_, (d,)) @ gp_posterior_chol
+    return gp_posterior_mean + gp_posterior_chol @ jax.random.normal(key_, (d,))
 
 
 joint_mean = jnp.zeros((2 * d,))
@@ -128,7 +128,7 @@ def likelihood_logpdf(v, u_prev, v_prev, t_prev):
 def ref_sampler(key_, yT, nsamples_):
     posterior_ref_m = ref_m[:d] + ref_cov[:d, d:] @ jax.scipy.linalg.cho_solve(chol_ref_y, yT - ref_m[d:])
     posterior_ref_cov = ref_cov[:d, :d] - ref_cov[:d, d:] @ jax.scipy.linalg.cho_solve(chol_ref_y, ref_cov[d:, :d])
-    return posterior_ref_m + jax.random.normal(key_, (nsamples_, d)) @ jnp.linalg.cholesky(posterior_ref_cov)
+    return posterior_ref_m + jax.random.normal(key_, (nsamples_, d)) @ jnp.linalg.cholesky(posterior_ref_cov).T
 
 
 def fwd_ys_sampler_proper(key_):
diff --git a/experiments/sb/gibbs.py b/experiments/sb/gibbs.py
index 03426be..85f9ffb 100644
--- a/experiments/sb/gibbs.py
+++ b/experiments/sb/gibbs.py
@@ -51,7 +51,7 @@ gp_posterior_chol = jnp.linalg.cholesky(gp_posterior_cov)
 
 
 def gp_posterior_sampler(key_):
-    return gp_posterior_mean + jax.random.normal(key_, (d,)) @ gp_posterior_chol
+    return gp_posterior_mean + gp_posterior_chol @ jax.random.normal(key_, (d,))
 
 
 joint_mean = jnp.zeros((2 * d,))
@@ -135,7 +135,7 @@ def likelihood_logpdf(v, u_prev, v_prev, t_prev):
 def ref_sampler(key_, yT, nsamples_):
     posterior_ref_m = ref_m[:d] + ref_cov[:d, d:] @ jax.scipy.linalg.cho_solve(chol_ref_y, yT - ref_m[d:])
     posterior_ref_cov = ref_cov[:d, :d] - ref_cov[:d, d:] @ jax.scipy.linalg.cho_solve(chol_ref_y, ref_cov[d:, :d])
-    return posterior_ref_m + jax.random.normal(key_, (nsamples_, d)) @ jnp.linalg.cholesky(posterior_ref_cov)
+    return posterior_ref_m + jax.random.normal(key_, (nsamples_, d)) @ jnp.linalg.cholesky(posterior_ref_cov).T
 
 
 def fwd_sampler(key_, x0_, y0_):
diff --git a/experiments/toy/gp_filter.py b/experiments/toy/gp_filter.py
index 889e520..5150f07 100644
--- a/experiments/toy/gp_filter.py
+++ b/experiments/toy/gp_filter.py
@@ -124,7 +124,7 @@ def likelihood_logpdf(v, u_prev, v_prev, t_prev):
 def ref_sampler(key_, yT, nsamples_):
     m_ = m_ref[:d] + cov_ref[:d, d:] @ jax.scipy.linalg.cho_solve(chol_ref, yT - m_ref[d:])
     cov_ = cov_ref[:d, :d] - cov_ref[:d, d:] @ jax.scipy.linalg.cho_solve(chol_ref, cov_ref[d:, :d])
-    return m_ + jax.random.normal(key_, (nsamples_, d)) @ jnp.linalg.cholesky(cov_)
+    return m_ + jax.random.normal(key_, (nsamples_, d)) @ jnp.linalg.cholesky(cov_).T
 
 
 def fwd_ys_sampler(key_, y0_):
diff --git a/experiments/toy/gp_gibbs.py b/experiments/toy/gp_gibbs.py
index 7d344c4..6cc194f 100644
--- a/experiments/toy/gp_gibbs.py
+++ b/experiments/toy/gp_gibbs.py
@@ -138,7 +138,7 @@ def likelihood_logpdf(v, u_prev, v_prev, t_prev):
 def ref_sampler(key_, yT, nsamples_):
     m_ = m_ref[:d] + cov_ref[:d, d:] @ jax.scipy.linalg.cho_solve(chol_ref, yT - m_ref[d:])
     cov_ = cov_ref[:d, :d] - cov_ref[:d, d:] @ jax.scipy.linalg.cho_solve(chol_ref, cov_ref[d:, :d])
-    return m_ + jax.random.normal(key_, (nsamples_, d)) @ jnp.linalg.cholesky(cov_)
+    return m_ + jax.random.normal(key_, (nsamples_, d)) @ jnp.linalg.cholesky(cov_).T
 
 
 def fwd_sampler(key_, x0_, y0_):
diff --git a/experiments/toy/gp_kf.py b/experiments/toy/gp_kf.py
index e0ce923..7444123 100644
--- a/experiments/toy/gp_kf.py
+++ b/experiments/toy/gp_kf.py
@@ -153,7 +153,7 @@ def conditional_sampler(key_):
     vs = path_y[::-1]
     u0_mean, u0_cov = ref_solver(vs[0])
     x0_mean, x0_cov = adhoc_kf(u0_mean, u0_cov, vs)
-    return x0_mean + jax.random.normal(key_kf, (d,)) @ jnp.linalg.cholesky(x0_cov)
+    return x0_mean + jnp.linalg.cholesky(x0_cov) @ jax.random.normal(key_kf, (d,))
 
 
 approx_cond_samples = np.zeros((nsamples, d))
diff --git a/experiments/toy/gp_pmcmc.py b/experiments/toy/gp_pmcmc.py
index 0ede830..bc69582 100644
--- a/experiments/toy/gp_pmcmc.py
+++ b/experiments/toy/gp_pmcmc.py
@@ -130,7 +130,7 @@ def likelihood_logpdf(v, u_prev, v_prev, t_prev):
 def ref_sampler(key_, yT, nsamples_):
     m_ = m_ref[:d] + cov_ref[:d, d:] @ jax.scipy.linalg.cho_solve(chol_ref, yT - m_ref[d:])
     cov_ = cov_ref[:d, :d] - cov_ref[:d, d:] @ jax.scipy.linalg.cho_solve(chol_ref, cov_ref[d:, :d])
-    return m_ + jax.random.normal(key_, (nsamples_, d)) @ jnp.linalg.cholesky(cov_)
+    return m_ + jax.random.normal(key_, (nsamples_, d)) @ jnp.linalg.cholesky(cov_).T
 
 
 def fwd_sampler(key_, x0_, y0_):
-- 
2.43.0


From 3f8f35ff082b8d5335a3fde502fb1b184d993e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:51 +0000
Subject: [PATCH 22/29] fix: terminal sampler of gp_csgm multiplies by the
 covariance instead of its Cholesky factor

---
 experiments/toy/gp_csgm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/toy/gp_csgm.py b/experiments/toy/gp_csgm.py
index b614822..b0253bd 100644
--- a/experiments/toy/gp_csgm.py
+++ b/experiments/toy/gp_csgm.py
@@ -73,7 +73,7 @@ cond_cov_ref = F_ref ** 2 * cov_mat + Q_ref * jnp.eye(d) - F_ref * cov_mat @ jax
 
 
 def cond_ref_sampler(key_):
-    return cond_m_ref + cond_cov_ref @ jax.random.normal(key_, (d,))
+    return cond_m_ref + jnp.linalg.cholesky(cond_cov_ref) @ jax.random.normal(key_, (d,))
 
 
 # The reverse process
-- 
2.43.0


From 04775bc76f2798c54ce7e3a1cf7dc3c622deeb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:13 +0000
Subject: [PATCH 23/29] fix: gp_pmcmc starts from the negative log-likelihood
 of another path

---
 experiments/toy/gp_pmcmc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/experiments/toy/gp_pmcmc.py b/experiments/toy/gp_pmcmc.py
index bc69582..2578d9e 100644
--- a/experiments/toy/gp_pmcmc.py
+++ b/experiments/toy/gp_pmcmc.py
@@ -143,12 +143,12 @@ def fwd_ys_sampler(key_, y0_):
 
 # pMCMC initial
 def pmcmc_init(key_):
-    key_fwd, key_bwd, key_bf, key_ys = jax.random.split(key_, num=4)
+    key_fwd, key_bf = jax.random.split(key_, num=2)
     path_y = fwd_ys_sampler(key_fwd, y0)
     vs = path_y[::-1]
-    x0s, log_ell = bootstrap_filter(transition_sampler, likelihood_logpdf, vs, ts, ref_sampler, key_bf, nparticles,
-                                    stratified, log=True, return_last=True)
-    return x0s[0], log_ell, fwd_ys_sampler(key_ys, y0)
+    x0s, log_nell = bootstrap_filter(transition_sampler, likelihood_logpdf, vs, ts, ref_sampler, key_bf, nparticles,
+                                     stratified, log=True, return_last=True)
+    return x0s[0], -log_nell, path_y
 
 
 # pMCMC kernel
-- 
2.43.0


From 084673f29a7d3e89bd4e6a4e794fdcd1514a2870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:18 +0000
Subject: [PATCH 24/29] fix: CelebA-HQ test images of a seed other than that of
 training were training images

---
 experiments/imgs/inpainting.py         | 4 +++-
 experiments/imgs/inpainting_csgm.py    | 4 +++-
 experiments/imgs/inpainting_twisted.py | 4 +++-
 experiments/imgs/supr.py               | 4 +++-
 experiments/imgs/supr_csgm.py          | 4 +++-
 experiments/imgs/supr_twisted.py       | 4 +++-
 6 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/experiments/imgs/inpainting.py b/experiments/imgs/inpainting.py
index 8304798..2348df5 100644
--- a/experiments/imgs/inpainting.py
+++ b/experiments/imgs/inpainting.py
@@ -66,7 +66,9 @@ if dataset_name == 'mnist':
     dataset = MNISTRestore(subkey, '../datasets/mnist.npz', task=f'inpaint-{rect_size}', test=True)
 elif 'celeba' in dataset_name:
     d = (resolution, resolution, 3)
-    dataset = CelebAHQRestore(subkey, f'datasets/celeba_hq{resolution}.npy',
+    # The key splits the training and test images, so this must be the key of `train.py` whatever the test seed is.
+    split_key = jax.random.split(jax.random.split(jax.random.PRNGKey(666))[0])[1]
+    dataset = CelebAHQRestore(split_key, f'datasets/celeba_hq{resolution}.npy',
                               task=f'inpaint-{rect_size}', resolution=resolution, test=True)
 else:
     raise NotImplementedError(f'{dataset_name} not implemented.')
diff --git a/experiments/imgs/inpainting_csgm.py b/experiments/imgs/inpainting_csgm.py
index 9b89532..ec7dd09 100644
--- a/experiments/imgs/inpainting_csgm.py
+++ b/experiments/imgs/inpainting_csgm.py
@@ -56,7 +56,9 @@ if dataset_name == 'mnist':
     dataset = MNISTRestore(subkey, '../datasets/mnist.npz', task=f'inpaint-{rect_size}', test=True)
 elif 'celeba' in dataset_name:
     d = (resolution, resolution, 3)
-    dataset = CelebAHQRestore(subkey, f'datasets/celeba_hq{resolution}.npy',
+    # The key splits the training and test images, so this must be the key of `train.py` whatever the test seed is.
+    split_key = jax.random.split(jax.random.split(jax.random.PRNGKey(666))[0])[1]
+    dataset = CelebAHQRestore(split_key, f'datasets/celeba_hq{resolution}.npy',
                               task=f'inpaint-{rect_size}', resolution=resolution, test=True)
 else:
     raise NotImplementedError(f'{dataset_name} not implemented.')
diff --git a/experiments/imgs/inpainting_twisted.py b/experiments/imgs/inpainting_twisted.py
index cc64287..8e60d3e 100644
--- a/experiments/imgs/inpainting_twisted.py
+++ b/experiments/imgs/inpainting_twisted.py
@@ -59,7 +59,9 @@ if dataset_name == 'mnist':
     dataset = MNISTRestore(subkey, '../datasets/mnist.npz', task=f'inpaint-{rect_size}', test=True)
 elif 'celeba' in dataset_name:
     d = (resolution, resolution, 3)
-    dataset = CelebAHQRestore(subkey, f'datasets/celeba_hq{resolution}.npy',
+    # The key splits the training and test images, so this must be the key of `train.py` whatever the test seed is.
+    split_key = jax.random.split(jax.random.split(jax.random.PRNGKey(666))[0])[1]
+    dataset = CelebAHQRestore(split_key, f'datasets/celeba_hq{resolution}.npy',
                               task=f'inpaint-{rect_size}', resolution=resolution, test=True)
 else:
     raise NotImplementedError(f'{dataset_name} not implemented.')
diff --git a/experiments/imgs/supr.py b/experiments/imgs/supr.py
index 04e0c59..aae3e06 100644
--- a/experiments/imgs/supr.py
+++ b/experiments/imgs/supr.py
@@ -66,7 +66,9 @@ if dataset_name == 'mnist':
     dataset = MNISTRestore(subkey, '../datasets/mnist.npz', task=f'supr-{sr_rate}', test=True)
 elif 'celeba' in dataset_name:
     d = (resolution, resolution, 3)
-    dataset = CelebAHQRestore(subkey, f'datasets/celeba_hq{resolution}.npy',
+    # The key splits the training and test images, so this must be the key of `train.py` whatever the test seed is.
+    split_key = jax.random.split(jax.random.split(jax.random.PRNGKey(666))[0])[1]
+    dataset = CelebAHQRestore(split_key, f'datasets/celeba_hq{resolution}.npy',
                               task=f'supr-{sr_rate}', resolution=resolution, test=True)
 else:
     raise NotImplementedError(f'{dataset_name} not implemented.')
diff --git a/experiments/imgs/supr_csgm.py b/experiments/imgs/supr_csgm.py
index 5b51150..b4f9958 100644
--- a/experiments/imgs/supr_csgm.py
+++ b/experiments/imgs/supr_csgm.py
@@ -56,7 +56,9 @@ if dataset_name == 'mnist':
     dataset = MNISTRestore(subkey, '../datasets/mnist.npz', task=f'supr-{sr_rate}', test=True)
 elif 'celeba' in dataset_name:
     d = (resolution, resolution, 3)
-    dataset = CelebAHQRestore(subkey, f'datasets/celeba_hq{resolution}.npy',
+    # The key splits the training and test images, so this must be the key of `train.py` whatever the test seed is.
+    split_key = jax.random.split(jax.random.split(jax.random.PRNGKey(666))[0])[1]
+    dataset = CelebAHQRestore(split_key, f'datasets/celeba_hq{resolution}.npy',
                               task=f'supr-{sr_rate}', resolution=resolution, test=True)
 else:
     raise NotImplementedError(f'{dataset_name} not implemented.')
diff --git a/experiments/imgs/supr_twisted.py b/experiments/imgs/supr_twisted.py
index 5cdefe4..c6e70c0 100644
--- a/experiments/imgs/supr_twisted.py
+++ b/experiments/imgs/supr_twisted.py
@@ -59,7 +59,9 @@ if dataset_name == 'mnist':
     dataset = MNISTRestore(subkey, '../datasets/mnist.npz', task=f'supr-{sr_rate}', test=True)
 elif 'celeba' in dataset_name:
     d = (resolution, resolution, 3)
-    dataset = CelebAHQRestore(subkey, f'datasets/celeba_hq{resolution}.npy',
+    # The key splits the training and test images, so this must be the key of `train.py` whatever the test seed is.
+    split_key = jax.random.split(jax.random.split(jax.random.PRNGKey(666))[0])[1]
+    dataset = CelebAHQRestore(split_key, f'datasets/celeba_hq{resolution}.npy',
                               task=f'supr-{sr_rate}', resolution=resolution, test=True)
 else:
     raise NotImplementedError(f'{dataset_name} not implemented.')
-- 
2.43.0


From f2244820b0b594d00a433861b136ab87c3a25bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:18 +0000
Subject: [PATCH 25/29] fix: moving average of the trained parameters restarted
 at every epoch

---
 experiments/imgs/train.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/imgs/train.py b/experiments/imgs/train.py
index d2f5d6f..bd6f163 100644
--- a/experiments/imgs/train.py
+++ b/experiments/imgs/train.py
@@ -116,7 +116,7 @@ for i in range(nepochs):
         subkey, subkey2 = jax.random.split(subkey)
         x0s = dataset.enumerate_subset(j, perm_inds, subkey)
         param, opt_state, loss = optax_kernel(param, opt_state, subkey2, x0s)
-        ema_param = ema_kernel(ema_param, param, j, 300, 2, 0.99)
+        ema_param = ema_kernel(ema_param, param, i * nsteps_per_epoch + j, 300, 2, 0.99)
         print(f'{dataset_name} | {args.upsampling} | {args.sde} | {loss_type} | {args.schedule} | '
               f'Epoch: {i} / {nepochs}, iter: {j} / {data_size // train_nsamples}, loss: {loss:.4f}')
     if (i + 1) % 100 == 0:
-- 
2.43.0


From 59b9b0464c6b160390ada5959823bf980bc67b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:18 +0000
Subject: [PATCH 26/29] fix: image pMCMC chains start from a made-up likelihood
 that no proposal may beat

---
 experiments/imgs/inpainting.py | 2 +-
 experiments/imgs/supr.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/experiments/imgs/inpainting.py b/experiments/imgs/inpainting.py
index 2348df5..e4d582b 100644
--- a/experiments/imgs/inpainting.py
+++ b/experiments/imgs/inpainting.py
@@ -253,7 +253,7 @@ for k in range(args.ny0s):
             restored_imgs)
     elif 'pmcmc' in args.method:
         key, subkey = jax.random.split(key)
-        x0, log_ell, ys = jnp.zeros(x_shape), 0., fwd_ys_sampler(subkey, test_y0)
+        x0, log_ell, ys = jnp.zeros(x_shape), -jnp.inf, fwd_ys_sampler(subkey, test_y0)
         for i in range(nsamples):
             key, subkey = jax.random.split(key)
             x0, log_ell, ys, mcmc_state = pmcmc_kernel(subkey, x0, log_ell, ys, test_y0, mask_=mask)
diff --git a/experiments/imgs/supr.py b/experiments/imgs/supr.py
index aae3e06..8a5383e 100644
--- a/experiments/imgs/supr.py
+++ b/experiments/imgs/supr.py
@@ -258,7 +258,7 @@ for k in range(args.ny0s):
             restored_imgs)
     elif 'pmcmc' in args.method:
         key, subkey = jax.random.split(key)
-        x0, log_ell, ys = jnp.zeros(x_shape), 0., fwd_ys_sampler(subkey, test_y0)
+        x0, log_ell, ys = jnp.zeros(x_shape), -jnp.inf, fwd_ys_sampler(subkey, test_y0)
         for i in range(nsamples):
             key, subkey = jax.random.split(key)
             x0, log_ell, ys, mcmc_state = pmcmc_kernel(subkey, x0, log_ell, ys, test_y0, mask_=mask)
-- 
2.43.0


From 4c0645b5c686c726afc10b5d2564de20ed4ace80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:20 +0000
Subject: [PATCH 27/29] fix: LPIPS of the image tables is computed on
 transposed images

---
 experiments/tabulators/tabulate_imgs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/tabulators/tabulate_imgs.py b/experiments/tabulators/tabulate_imgs.py
index 0365b46..f4393d6 100644
--- a/experiments/tabulators/tabulate_imgs.py
+++ b/experiments/tabulators/tabulate_imgs.py
@@ -22,7 +22,7 @@ def to_torch_tensor(img):
     """
     if dataset == 'mnist':
         raise AssertionError('MNIST is not compatable with LPIPS')
-    img = np.expand_dims(np.swapaxes(img, -1, 0), 0) * 2 - 1
+    img = np.expand_dims(np.moveaxis(img, -1, 0), 0) * 2 - 1
     return torch.Tensor(img)
 
 
-- 
2.43.0


From dd53c6b04d2b6b5644bf5d6bf1f13945506b1118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:04 +0000
Subject: [PATCH 28/29] fix: the synthetic experiments replace an unknown --sde
 by 'const' and file the results under its name

---
 experiments/toy/gp_csgm.py    | 4 +++-
 experiments/toy/gp_filter.py  | 4 +++-
 experiments/toy/gp_gibbs.py   | 4 +++-
 experiments/toy/gp_kf.py      | 4 +++-
 experiments/toy/gp_pmcmc.py   | 4 +++-
 experiments/toy/gp_twisted.py | 4 +++-
 6 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/experiments/toy/gp_csgm.py b/experiments/toy/gp_csgm.py
index b0253bd..0bcb25f 100644
--- a/experiments/toy/gp_csgm.py
+++ b/experiments/toy/gp_csgm.py
@@ -55,8 +55,10 @@ ts = jnp.linspace(0, T, nsteps + 1)
 
 if args.sde == 'lin':
     sde = StationaryLinLinearSDE(beta_min=0.02, beta_max=4., t0=0., T=T)
-else:
+elif args.sde == 'const':
     sde = StationaryConstLinearSDE(a=-0.5, b=1.)
+else:
+    raise NotImplementedError(f'{args.sde} not implemented.')
 discretise_linear_sde, cond_score_t_0, simulate_cond_forward = make_linear_sde(sde)
 
 
diff --git a/experiments/toy/gp_filter.py b/experiments/toy/gp_filter.py
index 5150f07..4678948 100644
--- a/experiments/toy/gp_filter.py
+++ b/experiments/toy/gp_filter.py
@@ -58,8 +58,10 @@ ts = jnp.linspace(0, T, nsteps + 1)
 
 if args.sde == 'lin':
     sde = StationaryLinLinearSDE(beta_min=0.02, beta_max=4., t0=0., T=T)
-else:
+elif args.sde == 'const':
     sde = StationaryConstLinearSDE(a=-0.5, b=1.)
+else:
+    raise NotImplementedError(f'{args.sde} not implemented.')
 discretise_linear_sde, cond_score_t_0, simulate_cond_forward = make_linear_sde(sde)
 
 
diff --git a/experiments/toy/gp_gibbs.py b/experiments/toy/gp_gibbs.py
index 6cc194f..d857560 100644
--- a/experiments/toy/gp_gibbs.py
+++ b/experiments/toy/gp_gibbs.py
@@ -65,8 +65,10 @@ ts = jnp.linspace(0, T, nsteps + 1)
 
 if args.sde == 'lin':
     sde = StationaryLinLinearSDE(beta_min=0.02, beta_max=4., t0=0., T=T)
-else:
+elif args.sde == 'const':
     sde = StationaryConstLinearSDE(a=-0.5, b=1.)
+else:
+    raise NotImplementedError(f'{args.sde} not implemented.')
 discretise_linear_sde, cond_score_t_0, simulate_cond_forward = make_linear_sde(sde)
 
 
diff --git a/experiments/toy/gp_kf.py b/experiments/toy/gp_kf.py
index 7444123..8be9630 100644
--- a/experiments/toy/gp_kf.py
+++ b/experiments/toy/gp_kf.py
@@ -56,8 +56,10 @@ ts = jnp.linspace(0, T, nsteps + 1)
 
 if args.sde == 'lin':
     sde = StationaryLinLinearSDE(beta_min=0.02, beta_max=4., t0=0., T=T)
-else:
+elif args.sde == 'const':
     sde = StationaryConstLinearSDE(a=-0.5, b=1.)
+else:
+    raise NotImplementedError(f'{args.sde} not implemented.')
 discretise_linear_sde, cond_score_t_0, simulate_cond_forward = make_linear_sde(sde)
 
 
diff --git a/experiments/toy/gp_pmcmc.py b/experiments/toy/gp_pmcmc.py
index 2578d9e..8e52c4c 100644
--- a/experiments/toy/gp_pmcmc.py
+++ b/experiments/toy/gp_pmcmc.py
@@ -61,8 +61,10 @@ ts = jnp.linspace(0, T, nsteps + 1)
 
 if args.sde == 'lin':
     sde = StationaryLinLinearSDE(beta_min=0.02, beta_max=4., t0=0., T=T)
-else:
+elif args.sde == 'const':
     sde = StationaryConstLinearSDE(a=-0.5, b=1.)
+else:
+    raise NotImplementedError(f'{args.sde} not implemented.')
 discretise_linear_sde, cond_score_t_0, simulate_cond_forward = make_linear_sde(sde)
 
 
diff --git a/experiments/toy/gp_twisted.py b/experiments/toy/gp_twisted.py
index ec54d8b..7c136b6 100644
--- a/experiments/toy/gp_twisted.py
+++ b/experiments/toy/gp_twisted.py
@@ -58,8 +58,10 @@ ts = jnp.linspace(0, T, nsteps + 1)
 
 if args.sde == 'lin':
     sde = StationaryLinLinearSDE(beta_min=0.02, beta_max=4., t0=0., T=T)
-else:
+elif args.sde == 'const':
     sde = StationaryConstLinearSDE(a=-0.5, b=1.)
+else:
+    raise NotImplementedError(f'{args.sde} not implemented.')
 discretise_linear_sde, cond_score_t_0, simulate_cond_forward = make_linear_sde(sde)
 
 
-- 
2.43.0


From 80844b7dcafd97fea6a02fd8c68fe7f41016be8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:46 +0000
Subject: [PATCH 29/29] fix: sb_imgs/supr.py saves the initial Gibbs state of
 each start under its own name

---
 experiments/sb_imgs/supr.py                  | 4 ++--
 experiments/tabulators/plot_sb_imgs_anime.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/experiments/sb_imgs/supr.py b/experiments/sb_imgs/supr.py
index 504685b..1ee3441 100644
--- a/experiments/sb_imgs/supr.py
+++ b/experiments/sb_imgs/supr.py
@@ -233,8 +233,8 @@ for x0_sampler, x0_sampler_name in zip([random_x0_sampler, blank_x0_sampler, int
         x0, us_star = gibbs_init(subkey, x0, test_y0, mask)
         bs_star = jnp.zeros((nsteps + 1), dtype=int)
         restored = dataset.concat(x0, test_y0, mask)
-        plt.imsave(path_head_img + '-gibbs-init.png', to_imsave(restored), cmap=cmap)
-        np.save(path_head_arr + '-gibbs-init', restored)
+        plt.imsave(path_head_img + f'-gibbs-init-{x0_sampler_name}.png', to_imsave(restored), cmap=cmap)
+        np.save(path_head_arr + f'-gibbs-init-{x0_sampler_name}', restored)
 
         for i in range(nsamples):
             key, subkey = jax.random.split(key)
diff --git a/experiments/tabulators/plot_sb_imgs_anime.py b/experiments/tabulators/plot_sb_imgs_anime.py
index c6ea186..500f8ee 100644
--- a/experiments/tabulators/plot_sb_imgs_anime.py
+++ b/experiments/tabulators/plot_sb_imgs_anime.py
@@ -45,7 +45,7 @@ corrupt_img = np.asarray(Image.open(path_head_arr + '-corrupt-lr.png').resize((2
 x0_type = 'blank'
 filter_random_imgs = to_img(np.load(path_head_arr + f'-filter-{x0_type}.npy'))
 gibbs_random_imgs = to_img(np.load(path_head_arr + f'-gibbs-eb-ef-{x0_type}.npy'))
-gibbs_random_imgs = jnp.concatenate([to_img(np.load(path_head_arr + '-gibbs-init.npy'))[None, :, :],
+gibbs_random_imgs = jnp.concatenate([to_img(np.load(path_head_arr + f'-gibbs-init-{x0_type}.npy'))[None, :, :],
                                      gibbs_random_imgs], axis=0)
 
 data_key, subkey = jax.random.split(data_key)
-- 
2.43.0

