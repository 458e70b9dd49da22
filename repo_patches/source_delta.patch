From a5eef92c880d61f331d8afa9b0bb81d0e805ce35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:08 +0000
Subject: [PATCH 01/28] fix: iterated_ewma yields nothing instead of IndexError
 when the history is shorter than min_periods

---
 cvx/covariance/ewma.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cvx/covariance/ewma.py b/cvx/covariance/ewma.py
index a61a7c9..1622ce7 100644
--- a/cvx/covariance/ewma.py
+++ b/cvx/covariance/ewma.py
@@ -244,6 +244,10 @@ def _general(
 
     beta = 1 - alpha
 
+    # nothing to estimate from
+    if len(y) == 0:
+        return
+
     # first row, important to initialize the _ewma variable
     _ewma = fct(y[0])
     yield f(k=0)
-- 
2.43.0


From ba1a9d031c90d35845331f5133b60b442388f9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:08 +0000
Subject: [PATCH 02/28] fix: from_ewmas treats missing returns as zero in the
 combination as its experts do

---
 cvx/covariance/combination.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cvx/covariance/combination.py b/cvx/covariance/combination.py
index 783aed6..fff119c 100644
--- a/cvx/covariance/combination.py
+++ b/cvx/covariance/combination.py
@@ -136,7 +136,8 @@ def from_ewmas(returns, pairs, min_periods_vola=20, min_periods_cov=20, clip_at=
     means = _map_nested_dicts(results, lambda result: result.mean)
 
     # combination of covariance matrix valued time series
-    return _CovarianceCombination(sigmas=sigmas, returns=returns, means=means)
+    # iterated_ewma reads missing returns as zero, so the combination has to do the same
+    return _CovarianceCombination(sigmas=sigmas, returns=returns.fillna(0.0), means=means)
 
 
 def from_sigmas(sigmas, returns, means=None):
-- 
2.43.0


From a691a325c84c5c68e4c60bf5f48f86980a3250b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:08 +0000
Subject: [PATCH 03/28] fix: combine experts with different start times over
 the times they share

---
 cvx/covariance/combination.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cvx/covariance/combination.py b/cvx/covariance/combination.py
index fff119c..089635a 100644
--- a/cvx/covariance/combination.py
+++ b/cvx/covariance/combination.py
@@ -170,7 +170,7 @@ class _CovarianceCombination:
         self.__returns = returns
 
         # all those quantities don't depend on the window size
-        self.__Ls = pd.DataFrame({k: _cholesky_precision(sigma) for k, sigma in self.sigmas.items()})
+        self.__Ls = pd.DataFrame({k: _cholesky_precision(sigma) for k, sigma in self.sigmas.items()}).dropna()
         self.__Ls_shifted = self.__Ls.shift(1).dropna()
         self.__nus = pd.DataFrame({key: _nu(Ls, self.means[key]) for key, Ls in self.__Ls.items()})
         self.__nus_shifted = self.__nus.shift(1).dropna()
-- 
2.43.0


From 313f6ce5ae090a3bf76201b3fef8cfbe3cf88753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:08 +0000
Subject: [PATCH 04/28] fix: solve() no longer drops computable results when
 times starts before the window is filled

---
 cvx/covariance/combination.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cvx/covariance/combination.py b/cvx/covariance/combination.py
index 089635a..f02e1f5 100644
--- a/cvx/covariance/combination.py
+++ b/cvx/covariance/combination.py
@@ -235,7 +235,7 @@ class _CovarianceCombination:
             "times must be consecutive"
 
             # add window - 1 previous time steps to times
-            times = list(all_available_times[zero_index - window + 1 : zero_index]) + times
+            times = list(all_available_times[max(zero_index - window + 1, 0) : zero_index]) + times
 
         Bs = {time: np.column_stack(Lts_at_r.loc[time]) for time in times}
         prod_Bs = pd.Series({time: B.T @ B for time, B in Bs.items()})
-- 
2.43.0


From 0122fe01b381503fa0dd831f5ebc735448b00510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:08 +0000
Subject: [PATCH 05/28] fix: no NaN loadings in the low rank format for a
 rank-deficient covariance

---
 cvx/covariance/regularization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cvx/covariance/regularization.py b/cvx/covariance/regularization.py
index f2749de..5639fde 100644
--- a/cvx/covariance/regularization.py
+++ b/cvx/covariance/regularization.py
@@ -63,7 +63,7 @@ def regularize_covariance(sigmas, r, low_rank_format=False):
             cov = vola.reshape(-1, 1) * R.Approximation * vola.reshape(1, -1)
             yield time, pd.DataFrame(cov, index=sigma.columns, columns=sigma.columns)
         else:
-            F = vola.reshape(-1, 1) * R.Loading * np.sqrt(R.Lambda)
+            F = vola.reshape(-1, 1) * R.Loading * np.sqrt(np.maximum(R.Lambda, 0))
             d = np.diag(vola.reshape(-1, 1) * R.D * vola.reshape(1, -1))
             yield (
                 time,
-- 
2.43.0


From e830ff6bf94fc78e3e13f77c7bd530fc3378ff0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:36 +0000
Subject: [PATCH 06/28] fix: rolling_window averages the last memory outer
 products (the first one was counted twice and never left)

---
 experiments/utils/experiment_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/experiments/utils/experiment_utils.py b/experiments/utils/experiment_utils.py
index 30c0af7..ad79da9 100644
--- a/experiments/utils/experiment_utils.py
+++ b/experiments/utils/experiment_utils.py
@@ -256,8 +256,8 @@ def rolling_window(returns, memory, min_periods=20):
     Sigmas[0] = np.outer(returns[0], returns[0])
 
     for t in range(1, returns.shape[0]):
-        alpha_old = 1 / min(t + 1, memory)
-        alpha_new = 1 / min(t + 2, memory)
+        alpha_old = 1 / min(t, memory)
+        alpha_new = 1 / min(t + 1, memory)
 
         if t >= memory:
             Sigmas[t] = alpha_new / alpha_old * Sigmas[t - 1] + alpha_new * (
-- 
2.43.0


From 51d4b3cbed6843ac7a4c27c2087d164d96827228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:36 +0000
Subject: [PATCH 07/28] fix: log_likelihood_sequential returns the likelihoods
 it computes

---
 experiments/utils/experiment_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/experiments/utils/experiment_utils.py b/experiments/utils/experiment_utils.py
index ad79da9..b1fd424 100644
--- a/experiments/utils/experiment_utils.py
+++ b/experiments/utils/experiment_utils.py
@@ -241,7 +241,9 @@ def log_likelihood_sequential(returns, Sigmas, means=None, scale=1):
             -n / 2 * np.log(2 * np.pi)
             - 1 / 2 * np.log(det)
             - 1 / 2 * (r - m).T @ Sigma_inv @ (r - m)
-        )
+        ).item()
+
+    return ll
 
 
 def rolling_window(returns, memory, min_periods=20):
-- 
2.43.0


From 66f4d818dabf7bd22c3973f484778662f052f19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:36 +0000
Subject: [PATCH 08/28] fix: log likelihoods look at the first asset by
 position, not by the label 0

---
 experiments/utils/experiment_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/experiments/utils/experiment_utils.py b/experiments/utils/experiment_utils.py
index b1fd424..648927b 100644
--- a/experiments/utils/experiment_utils.py
+++ b/experiments/utils/experiment_utils.py
@@ -120,7 +120,7 @@ def log_likelihood_low_rank(returns, Sigmas, means=None):
         # TODO: forming the covariance matrix is bad...
         cov = low_rank.F @ (low_rank.F).T + np.diag(low_rank.d)
 
-        if not returns.loc[time].isna()[0]:
+        if not returns.loc[time].isna().iloc[0]:
             if means is not None:
                 m = means.loc[time].values.reshape(-1, 1)
             ll.append(
@@ -153,7 +153,7 @@ def log_likelihood_regularized(returns, Sigmas, means=None, r=None):
 
     if r is not None:
         for time, cov in regularize_covariance(Sigmas, r=r):
-            if not returns.loc[time].isna()[0]:
+            if not returns.loc[time].isna().iloc[0]:
                 if means is not None:
                     m = means.loc[time].values.reshape(-1, 1)
                 ll.append(
@@ -164,7 +164,7 @@ def log_likelihood_regularized(returns, Sigmas, means=None, r=None):
                 times.append(time)
     else:
         for time, cov in Sigmas.items():
-            if not returns.loc[time].isna()[0]:
+            if not returns.loc[time].isna().iloc[0]:
                 if means is not None:
                     m = means.loc[time].values.reshape(-1, 1)
                 ll.append(
-- 
2.43.0


From 94ec04b20d773536b6ec7b4e8d9ff8e57c36ab64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:57 +0000
Subject: [PATCH 09/28] fix: log likelihoods of large universes are not lost to
 underflow of the determinant

---
 experiments/utils/experiment_utils.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/experiments/utils/experiment_utils.py b/experiments/utils/experiment_utils.py
index 648927b..1c5e0a2 100644
--- a/experiments/utils/experiment_utils.py
+++ b/experiments/utils/experiment_utils.py
@@ -89,10 +89,10 @@ def turnover(weights):
 def _single_log_likelihood(r, Sigma, m):
     n = len(r)
     Sigma_inv = np.linalg.inv(Sigma)
-    det = np.linalg.det(Sigma)
+    logdet = np.linalg.slogdet(Sigma)[1]
     return (
         -n / 2 * np.log(2 * np.pi)
-        - 1 / 2 * np.log(det)
+        - 1 / 2 * logdet
         - 1 / 2 * (r - m).T @ Sigma_inv @ (r - m)
     )
 
@@ -198,12 +198,12 @@ def log_likelihood(returns, Sigmas, means=None, scale=1):
     means = means * scale
     Sigmas = Sigmas * scale**2
 
-    dets = np.linalg.det(Sigmas).reshape(len(Sigmas), 1, 1)
+    logdets = np.linalg.slogdet(Sigmas)[1].reshape(len(Sigmas), 1, 1)
     Sigma_invs = np.linalg.inv(Sigmas)
 
     return (
         -n / 2 * np.log(2 * np.pi)
-        - 1 / 2 * np.log(dets)
+        - 1 / 2 * logdets
         - 1
         / 2
         * np.transpose(returns - means, axes=(0, 2, 1))
@@ -234,12 +234,12 @@ def log_likelihood_sequential(returns, Sigmas, means=None, scale=1):
         r = returns[t].reshape(n, 1)
         m = means[t].reshape(n, 1)
         Sigma = Sigmas[t]
-        det = np.linalg.det(Sigma)
+        logdet = np.linalg.slogdet(Sigma)[1]
         Sigma_inv = np.linalg.inv(Sigma)
 
         ll[t] = (
             -n / 2 * np.log(2 * np.pi)
-            - 1 / 2 * np.log(det)
+            - 1 / 2 * logdet
             - 1 / 2 * (r - m).T @ Sigma_inv @ (r - m)
         ).item()
 
-- 
2.43.0


From 76d1e627937f07f8183809b72fa05808f939c2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:57 +0000
Subject: [PATCH 10/28] fix: a backtest no longer adds its constraints to those
 of every later backtest

---
 experiments/utils/trading_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/experiments/utils/trading_model.py b/experiments/utils/trading_model.py
index 9267bbf..e4f1359 100644
--- a/experiments/utils/trading_model.py
+++ b/experiments/utils/trading_model.py
@@ -264,6 +264,7 @@ class Trader:
         self.adjust_factor = adjust_factor
         self.additonal_cons = additonal_cons
         self.C_speedup = C_speedup
+        cons = list(cons)  # extended below; never the caller's (or the default) list
 
         # TODO: ugly to have this here
         if rhos is not None:
-- 
2.43.0


From c15e130249555b3b1209c76ec9fee2bf7a378df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:57 +0000
Subject: [PATCH 11/28] fix: metrics with cash after a new backtest use its
 weights, not the previous backtest's

---
 experiments/utils/trading_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/experiments/utils/trading_model.py b/experiments/utils/trading_model.py
index e4f1359..a743555 100644
--- a/experiments/utils/trading_model.py
+++ b/experiments/utils/trading_model.py
@@ -264,6 +264,7 @@ class Trader:
         self.adjust_factor = adjust_factor
         self.additonal_cons = additonal_cons
         self.C_speedup = C_speedup
+        self.diluted = False
         cons = list(cons)  # extended below; never the caller's (or the default) list
 
         # TODO: ugly to have this here
-- 
2.43.0


From 2ba028ec03ee7a510443397286ed6cfc7bc3ef99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:57 +0000
Subject: [PATCH 12/28] fix: robust minimum risk uses each day's volatilities,
 not the first day's

---
 experiments/utils/trading_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/experiments/utils/trading_model.py b/experiments/utils/trading_model.py
index a743555..2419cbc 100644
--- a/experiments/utils/trading_model.py
+++ b/experiments/utils/trading_model.py
@@ -366,7 +366,9 @@ class Trader:
                     all_prob,
                     all_w,
                     all_L_inv_param,
-                    [*self.L_inv_hats.values(), all_sigma_hat_param, all_sigma_hats],
+                    [*self.L_inv_hats.values()],
+                    all_sigma_hat_param,
+                    all_sigma_hats,
                 ),
             )
             pool.close()
-- 
2.43.0


From ab979f48923483000d9c0cd14313c0c2d59119bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:57 +0000
Subject: [PATCH 13/28] fix: volatility control scales each day's weights
 (shape mismatch)

---
 experiments/utils/trading_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/utils/trading_model.py b/experiments/utils/trading_model.py
index 2419cbc..9d45be9 100644
--- a/experiments/utils/trading_model.py
+++ b/experiments/utils/trading_model.py
@@ -158,7 +158,7 @@ class Trader:
 
         sigma_r = obj
         w_cash = (1 - sigma_des / sigma_r).reshape(-1, 1)
-        ws = (1 - w_cash) * ws
+        ws = (1 - w_cash) * ws.reshape(len(ws), -1)
 
         return np.hstack([ws, w_cash])
 
-- 
2.43.0


From 156392bae8418a6de0dbcae42c56f31bdc9a9834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:57 +0000
Subject: [PATCH 14/28] fix: maximum Sharpe uses the whiteners the trader has

---
 experiments/utils/trading_model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/experiments/utils/trading_model.py b/experiments/utils/trading_model.py
index 9d45be9..20372bf 100644
--- a/experiments/utils/trading_model.py
+++ b/experiments/utils/trading_model.py
@@ -193,7 +193,7 @@ class Trader:
         param r_hat: return
 
         """
-        L_inv_param.value = L_inv.T
+        L_inv_param.value = L_inv
         r_hat_param.value = r_hat
         prob.solve(solver="ECOS")
 
@@ -545,7 +545,7 @@ class Trader:
             prob = cp.Problem(cp.Minimize(obj), cons)
 
             # Solve problem once to speed up later solves
-            L_inv_param.value = [*self.Lt_inv_hats.values()][0].T
+            L_inv_param.value = [*self.L_inv_hats.values()][0]
             r_hat_param.value = np.ones((self.n, 1))
             prob.solve(solver="ECOS")
 
@@ -564,7 +564,7 @@ class Trader:
                     all_z,
                     all_L_inv_param,
                     all_r_hat_param,
-                    [*self.Lt_inv_hats.values()],
+                    [*self.L_inv_hats.values()],
                     all_r_hats,
                 ),
             )
-- 
2.43.0


From d559a713161bf305beef82a342f733b18077158a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:33 +0000
Subject: [PATCH 15/28] fix: vectorised iterated_ewma works on arrays again
 (ewma had become a generator over dictionaries)

---
 experiments/utils/iterated_ewma_vec.py | 54 +++++++++++---------------
 1 file changed, 22 insertions(+), 32 deletions(-)

diff --git a/experiments/utils/iterated_ewma_vec.py b/experiments/utils/iterated_ewma_vec.py
index 95f9da3..1f0d89d 100644
--- a/experiments/utils/iterated_ewma_vec.py
+++ b/experiments/utils/iterated_ewma_vec.py
@@ -35,34 +35,6 @@ def get_next_ewma(EWMA, y_last, t, beta, clip_at=None, min_periods=None):
     return old_weight * EWMA + new_weight * y_last
 
 
-# def ewma(y, halflife, clip_at=None, min_periods=None):
-#     """
-#     param y: array with measurements for times t=1,2,...,T=len(y)
-#     halflife: EWMA half life
-#     param clip_at: clip y_last at  +- clip_at*EWMA (optional)
-
-#     returns: list of EWMAs for times t=2,3,...,T+1 = len(y)
-
-
-#     Note: We define EWMA_t as a function of the
-#     observations up to time t-1. This means that
-#     y = [y_1,y_2,...,y_T] (for some T), while
-#     EWMA = [EWMA_2, EWMA_3, ..., EWMA_{T+1}]
-#     This way we don't get a "look-ahead bias" in the EWMA
-#     """
-
-#     beta = np.exp(-np.log(2) / halflife)
-#     EWMAs = np.zeros_like(y)
-#     EWMAs[0] = y[0]
-#     for t in range(1, y.shape[0]):  # First EWMA is for t=2
-#         # y_last = y[t-1] # Note zero-indexing
-#         # EWMA_t = get_next_ewma(EWMA_t, y_last, t, beta, clip_at, min_periods)
-#         EWMAs[t] = get_next_ewma(EWMAs[t - 1], y[t], t + 1, beta, clip_at, min_periods)
-
-#         # EWMAs.append(EWMA_t)
-#     return np.array(EWMAs)
-
-
 def ewma(y, halflife, clip_at=None, min_periods=None):
     """
     param y: array with measurements for times t=1,2,...,T=len(y)
@@ -99,6 +71,24 @@ def ewma(y, halflife, clip_at=None, min_periods=None):
         # EWMAs.append(EWMA_t)
 
 
+def _ewma_array(y, halflife, clip_at=None, min_periods=None):
+    """
+    param y: array with measurements for times t=1,2,...,T=len(y)
+    halflife: EWMA half life
+    param clip_at: clip y_last at  +- clip_at*EWMA (optional)
+
+    returns: array of EWMAs, one for each measurement
+    """
+
+    beta = np.exp(-np.log(2) / halflife)
+    EWMAs = np.zeros_like(y, dtype=float)
+    EWMAs[0] = y[0]
+    for t in range(1, y.shape[0]):
+        EWMAs[t] = get_next_ewma(EWMAs[t - 1], y[t], t + 1, beta, clip_at, min_periods)
+
+    return EWMAs
+
+
 def _get_realized_covs(returns):
     """
     param returns: numpy array where rows are vector of asset returns for t=0,1,...
@@ -218,7 +208,7 @@ def iterated_ewma(
     if mean:  # Need to remove one entry for each estimate
         min_periods_vola = max(min_periods_vola, 2)
         min_periods_cov = max(min_periods_cov, 2)
-        returns_mean = ewma(returns.values, halflife=vola_halflife)
+        returns_mean = _ewma_array(returns.values, halflife=vola_halflife)
     else:
         returns_mean = np.zeros_like(returns)
 
@@ -229,7 +219,7 @@ def iterated_ewma(
         clip_at_var = None
     realized_vars = _get_realized_vars(returns.values - returns_mean)
     D = np.sqrt(
-        ewma(
+        _ewma_array(
             realized_vars,
             halflife=vola_halflife,
             clip_at=clip_at_var,
@@ -257,13 +247,13 @@ def iterated_ewma(
 
     ### Correlation estimation
     if mean:
-        returns_adj_mean = ewma(returns_adj, halflife=cov_halflife)
+        returns_adj_mean = _ewma_array(returns_adj, halflife=cov_halflife)
     else:
         returns_adj_mean = np.zeros_like(returns_adj)
     realized_covs = _get_realized_covs(returns_adj - returns_adj_mean)
 
     # Create correlation matrix
-    R_tilde = ewma(realized_covs, halflife=cov_halflife)
+    R_tilde = _ewma_array(realized_covs, halflife=cov_halflife)
 
     # Apply min_periods_cov
     R_tilde = R_tilde[min_periods_cov - 1 :]
-- 
2.43.0


From 50c39737ee64900d6c89223418a3bf9b340047e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:36 +0000
Subject: [PATCH 16/28] fix: the scales of the return combination use the given
 half life (it was taken as the centre of mass)

---
 experiments/utils/return_combination.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/utils/return_combination.py b/experiments/utils/return_combination.py
index 96cf3b3..f8a63a4 100644
--- a/experiments/utils/return_combination.py
+++ b/experiments/utils/return_combination.py
@@ -170,7 +170,7 @@ class ReturnCombinator:
         ]
 
         variances = [
-            squared_prediction.ewm(halflife).mean().shift(1)
+            squared_prediction.ewm(halflife=halflife).mean().shift(1)
             for squared_prediction in squared_returns_predictions
         ]
 
-- 
2.43.0


From f1ce1231b9b10474aea3f4b7cf7a971d737a47b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:36 +0000
Subject: [PATCH 17/28] fix: low-rank iterated EWMA survives an asset without
 returns on its first days

---
 experiments/utils/low_rank_ewma.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/experiments/utils/low_rank_ewma.py b/experiments/utils/low_rank_ewma.py
index 83e694c..5a7f5eb 100644
--- a/experiments/utils/low_rank_ewma.py
+++ b/experiments/utils/low_rank_ewma.py
@@ -155,18 +155,21 @@ def _low_rank_sum(F, d, r):
         """
 
         return (
-            np.ones((n, 1))
+            variance * (scale**2)
             + d * (scale**2)
             - np.sum(F_hat**2, axis=1).reshape(-1, 1)
         )
 
     # Get scaling toward correlation matrix
-    scale = 1 / np.sqrt(np.sum(F**2, axis=1).reshape(-1, 1) + r**2)
+    variance = np.sum(F**2, axis=1).reshape(-1, 1) + r**2
+    # an asset that has not moved yet has no scale (and nothing to scale)
+    scale = 1 / np.sqrt(np.where(variance > 0, variance, 1))
 
     A = LinearOperator((n, n), matvec=_mv)
 
     # Compute top eigenvalues
     lamda, Q = eigsh(A, k=rank, which="LM")
+    Q[variance.flatten() == 0] = 0
 
     # Replace negative lamda with 0
     lamda[lamda < 0] = 0
-- 
2.43.0


From 666d11ae1a7ad0745167c982fb12f78f195aeb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:36 +0000
Subject: [PATCH 18/28] fix: the prescient row of the table carries its own
 name

---
 experiments/utils/portfolio_backtests.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/utils/portfolio_backtests.py b/experiments/utils/portfolio_backtests.py
index bea7078..ce9a14f 100644
--- a/experiments/utils/portfolio_backtests.py
+++ b/experiments/utils/portfolio_backtests.py
@@ -48,7 +48,7 @@ def _create_table_helper(metrics, prescient=True):
         metric = metrics["PRESCIENT"]
         print(
             "   {} & {:.1f}\\% & {:.1f}\\% & {:.1f} & {:.0f}\\% \\\\".format(
-                name,
+                "PRESCIENT",
                 metric.mean_return * 100,
                 metric.risk * 100,
                 metric.sharpe,
-- 
2.43.0


From f892ad7d253684d943a2b03fb53a30117cf7d849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:47 +0000
Subject: [PATCH 19/28] fix: no preliminary solve before the worker pool
 pickles the problem

A problem that CLARABEL (cvxpy's default conic solver) has solved holds
its solution object and cannot be pickled, so min_risk, vol_cont,
robust_min_risk and risk_parity backtests raised TypeError before trading
the first day. The workers compile the problem themselves.
---
 experiments/utils/trading_model.py | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/experiments/utils/trading_model.py b/experiments/utils/trading_model.py
index 20372bf..6b34520 100644
--- a/experiments/utils/trading_model.py
+++ b/experiments/utils/trading_model.py
@@ -344,12 +344,6 @@ class Trader:
                     self.sigma_hats.values[t].reshape(-1, 1) for t in range(self.T)
                 ]
 
-                # Solve problem with random inputs once to speed up later solves
-                L_inv_param.value = [*self.L_inv_hats.values()][0]
-                if portfolio_type == "robust_min_risk":
-                    sigma_hat_param.value = all_sigma_hats[0]
-                prob.solve()
-
             # solve the problem for each date
             all_w = [w for _ in range(self.T)]
             all_L_inv_param = [L_inv_param for _ in range(self.T)]
@@ -511,11 +505,6 @@ class Trader:
             risk = cp.norm2(cp.sum(cp.multiply(L_inv_param, w.T), axis=1))
             prob = cp.Problem(cp.Minimize(1 / 2 * risk - cp.log(cp.geo_mean(w))))
 
-            # Solve once for speedup later
-            # Solve problem with random inputs once to speed up later solves
-            L_inv_param.value = [*self.L_inv_hats.values()][0]
-            prob.solve()
-
             all_w = [w for _ in range(self.T)]
             all_L_inv_param = [L_inv_param for _ in range(self.T)]
             all_prob = [prob for _ in range(self.T)]
-- 
2.43.0


From b3781896a9397992cf731f0ed7592e3e3b2f7d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:07 +0000
Subject: [PATCH 20/28] fix: annual risk of excess metrics is divided by the
 adjust factor like the mean

---
 experiments/utils/trading_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/utils/trading_model.py b/experiments/utils/trading_model.py
index 6b34520..a0a0505 100644
--- a/experiments/utils/trading_model.py
+++ b/experiments/utils/trading_model.py
@@ -637,7 +637,7 @@ class Trader:
             assert rf is not None
             excess_returns = self.rets / self.adjust_factor - rf
             mean_return = np.mean(excess_returns) * 252
-            stdev = np.std(self.rets) * np.sqrt(252)
+            stdev = np.std(self.rets / self.adjust_factor) * np.sqrt(252)
             # mean_return = (np.mean(self.rets/self.adjust_factor) - np.mean(rf))* 252
             # stdev = np.std(self.rets / self.adjust_factor-rf) * np.sqrt(252)
         else:
-- 
2.43.0


From ed2bd104afb488675b494912b3bf274564e98002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:40 +0000
Subject: [PATCH 21/28] fix: metrics for another target volatility dilute the
 portfolio anew

---
 experiments/utils/trading_model.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/experiments/utils/trading_model.py b/experiments/utils/trading_model.py
index a0a0505..8b39696 100644
--- a/experiments/utils/trading_model.py
+++ b/experiments/utils/trading_model.py
@@ -223,6 +223,7 @@ class Trader:
             ws_new.append(w_t_new.flatten())
 
         self.ws_diluted = np.array(ws_new)
+        self.sigma_diluted = sigma_des
         self.diluted = True
 
     def get_risk_adj_returns(self, sigma_des=0.1):
@@ -579,8 +580,12 @@ class Trader:
                 or diluted_with_cash
             ):
                 if diluted_with_cash:
-                    if not self.diluted == True:
+                    if not self.diluted == True or sigma_des not in (
+                        None,
+                        self.sigma_diluted,
+                    ):
                         assert sigma_des is not None
+                        self.diluted = False
                         self.dilute_with_cash(sigma_des)
                     w_t = self.ws_diluted[t]
                 if rf is None:
-- 
2.43.0


From b9b300b30f19461f7c11ad73345e5a72545295e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:40 +0000
Subject: [PATCH 22/28] fix: uncertainties given to Trader() are used instead
 of raising AttributeError

---
 experiments/utils/trading_model.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/experiments/utils/trading_model.py b/experiments/utils/trading_model.py
index 8b39696..d0d0414 100644
--- a/experiments/utils/trading_model.py
+++ b/experiments/utils/trading_model.py
@@ -54,9 +54,10 @@ class Trader:
             assert list(self.returns.index) == list(self.r_hats.index)
             assert list(self.returns.columns) == list(self.r_hats.columns)
 
+        self.default_rhos = rhos
         if rhos is not None:
-            assert list(self.returns.index) == list(self.rhos.index)
-            assert list(self.returns.columns) == list(self.rhos.columns)
+            assert list(self.returns.index) == list(rhos.index)
+            assert list(self.returns.columns) == list(rhos.columns)
 
         # Generate dataframe of standard deviations
         sigma_hats = np.array(sigma_hats)
@@ -269,6 +270,8 @@ class Trader:
         cons = list(cons)  # extended below; never the caller's (or the default) list
 
         # TODO: ugly to have this here
+        if rhos is None:
+            rhos = self.default_rhos
         if rhos is not None:
             self.rhos = rhos.loc[self.returns.index]
         else:
-- 
2.43.0


From 81ea1c5559bb8fb47d89add39e48748d1c079271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:31 +0000
Subject: [PATCH 23/28] fix: weights of a solver that stopped before converging
 are not reported as a result

---
 cvx/covariance/combination.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cvx/covariance/combination.py b/cvx/covariance/combination.py
index f02e1f5..6caa6db 100644
--- a/cvx/covariance/combination.py
+++ b/cvx/covariance/combination.py
@@ -272,6 +272,10 @@ class _CovarianceCombination:
         """
         problem.solve(**kwargs)
 
+        # the last iterate of a solver that stopped early is no solution
+        if problem.status not in (cvx.OPTIMAL, cvx.OPTIMAL_INACCURATE):
+            raise cvx.SolverError(f"Solver stopped with status {problem.status}")
+
         weights = problem.weights
 
         # Get non-shifted L
-- 
2.43.0


From 0b382c81dca1ca4b888f010427c8fc9cd0f4d946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:06 +0000
Subject: [PATCH 24/28] fix: realized covariance and volatility of a day with a
 single observation

---
 experiments/utils/experiment_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/experiments/utils/experiment_utils.py b/experiments/utils/experiment_utils.py
index 1c5e0a2..ac20537 100644
--- a/experiments/utils/experiment_utils.py
+++ b/experiments/utils/experiment_utils.py
@@ -10,7 +10,7 @@ from experiments.utils.iterated_ewma_vec import ewma
 
 def _realized_covariance(returns):
     for time in returns.index.unique():
-        returns_temp = returns.loc[time]
+        returns_temp = returns.loc[[time]]
         T_temp = len(returns_temp)
 
         yield time, returns_temp.cov(ddof=0) * T_temp
@@ -29,7 +29,7 @@ def realized_ewma(returns, halflife, clip_at=None, min_periods=None):
 
 def realized_volas(returns):
     for time in returns.index.unique():
-        yield time, np.sqrt((returns.loc[time] ** 2).sum(axis=0))
+        yield time, np.sqrt((returns.loc[[time]] ** 2).sum(axis=0))
 
 
 def MSE(returns, covariances):
-- 
2.43.0


From e063d1d5c2c65771c1415fc6d55e476597d9f744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:36 +0000
Subject: [PATCH 25/28] fix: iterated EWMA follows the order of the rows when
 their labels do not sort that way

---
 cvx/covariance/ewma.py             | 4 ++--
 experiments/utils/low_rank_ewma.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cvx/covariance/ewma.py b/cvx/covariance/ewma.py
index 1622ce7..887e7d3 100644
--- a/cvx/covariance/ewma.py
+++ b/cvx/covariance/ewma.py
@@ -67,7 +67,7 @@ def center(returns, halflife, min_periods=0, mean_adj=False):
                 min_periods=min_periods,
             )
         )
-        return (returns - mean).dropna(how="all", axis=0), mean
+        return (returns - mean.reindex(returns.index)).dropna(how="all", axis=0), mean
     else:
         return returns, 0.0 * returns
 
@@ -160,7 +160,7 @@ def iterated_ewma(
     # make sure adj is NaN where vola is zero or returns are
     # NaN. This handles NaNs (which in some sense is the same as a constant
     # return series, i.e., vola = 0)
-    adj = clip((returns / vola), clip_at=clip_at)  # if vola is zero, adj is NaN
+    adj = clip((returns / vola.reindex(returns.index)), clip_at=clip_at)  # if vola is zero, adj is NaN
     adj = adj.fillna(0.0)
 
     # center the adj returns again
diff --git a/experiments/utils/low_rank_ewma.py b/experiments/utils/low_rank_ewma.py
index 5a7f5eb..157d425 100644
--- a/experiments/utils/low_rank_ewma.py
+++ b/experiments/utils/low_rank_ewma.py
@@ -72,7 +72,7 @@ def low_rank_iterated_ewma(
     )
 
     # adj the returns
-    adj = clip((returns / vola), clip_at=clip_at)
+    adj = clip((returns / vola.reindex(returns.index)), clip_at=clip_at)
 
     # center the adj returns again? Yes, I think so
     # TODO: Check if this is correct half life
-- 
2.43.0


From 9ad39e723f4fcd4eb84f8c67fa13697e6de304b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:36 +0000
Subject: [PATCH 26/28] fix: combination of predictions whose time labels do
 not sort in time order

---
 cvx/covariance/combination.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cvx/covariance/combination.py b/cvx/covariance/combination.py
index 6caa6db..08daa27 100644
--- a/cvx/covariance/combination.py
+++ b/cvx/covariance/combination.py
@@ -248,7 +248,7 @@ class _CovarianceCombination:
         Ls_diag = pd.DataFrame({k: _diag_part(L) for k, L in self.__Ls_shifted.items()})
 
         A = {
-            times[i]: _A(Ls_diag.truncate(before=times[i - window + 1], after=times[i]), self.K)
+            times[i]: _A(Ls_diag.loc[times[i - window + 1] : times[i]], self.K)
             for i in range(window - 1, len(times))
         }
 
-- 
2.43.0


From 757e5313f51041a8c8ee1dd6fbb1f1fbef5fffe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:36 +0000
Subject: [PATCH 27/28] fix: sparse return forecasts keep the order of the rows

---
 experiments/utils/return_combination.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/utils/return_combination.py b/experiments/utils/return_combination.py
index f8a63a4..fed07ee 100644
--- a/experiments/utils/return_combination.py
+++ b/experiments/utils/return_combination.py
@@ -366,7 +366,7 @@ def ewma_return_combination(returns, return_predictions, alpha, memory):
         t_next = times[t]
         all_weights.loc[t_next] = weights.value.T
 
-    returns_hat = ((all_weights * return_predictions).dropna()).sum(axis=1)
+    returns_hat = ((all_weights * return_predictions.reindex(all_weights.index)).dropna()).sum(axis=1)
 
     return returns_hat, all_weights
 
-- 
2.43.0


From d89e2d52dd9dc741833e33cb7fd8b03db595e178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:37 +0000
Subject: [PATCH 28/28] fix: factor model takes its windows by position, not by
 comparing time labels

---
 experiments/utils/factor_model.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/experiments/utils/factor_model.py b/experiments/utils/factor_model.py
index b71e8b0..8b09850 100644
--- a/experiments/utils/factor_model.py
+++ b/experiments/utils/factor_model.py
@@ -33,8 +33,9 @@ def construct_factor_covariance(factors, cm_iewma_pairs, start_date):
     }
 
     # Only keep Sigmas after start_date
+    recent = set(factors.loc[start_date:].index)
     Sigmas = {
-        key: {time: Sigma for time, Sigma in Sigma_dict.items() if time >= start_date}
+        key: {time: Sigma for time, Sigma in Sigma_dict.items() if time in recent}
         for key, Sigma_dict in Sigmas.items()
     }
 
@@ -71,16 +72,11 @@ def construct_cmiewma_factor_model(
     T = len(times)
 
     for t in trange(memory, T, update_frequency):
-        train_end = times[t - 1]
-        train_start = times[t - memory]
 
         test_start = times[t - 10]  # -10 for CM-IEWMA
-        test_end = times[min(t + update_frequency - 1, T - 1)]
 
-        returns_train = returns.loc[
-            (returns.index <= train_end) & (returns.index >= train_start)
-        ]
-        returns_test = returns.loc[returns.index <= test_end]
+        returns_train = returns.iloc[t - memory : t]
+        returns_test = returns.iloc[: t + update_frequency]
 
         factor_model_temp = pca(returns_train, n_components=k)
         exposure_temp = factor_model_temp.exposure
-- 
2.43.0

