From e5d6d2856827c18e5381ba170d18e29381bd6847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:04 +0000
Subject: [PATCH 01/19] fix: do not deliver unsolved combination problems as
 results

---
 cvx/covariance/combination.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cvx/covariance/combination.py b/cvx/covariance/combination.py
index 783aed6..f0160e4 100644
--- a/cvx/covariance/combination.py
+++ b/cvx/covariance/combination.py
@@ -271,6 +271,10 @@ class _CovarianceCombination:
         """
         problem.solve(**kwargs)
 
+        # a solver that stops at a limit or claims infeasibility leaves no usable solution
+        if problem.status not in (cvx.OPTIMAL, cvx.OPTIMAL_INACCURATE):
+            raise cvx.SolverError(f"Solver stopped with status {problem.status}")
+
         weights = problem.weights
 
         # Get non-shifted L
-- 
2.43.0


From 1ecb100057d0dee542fae5c17fc0801cf71031ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:04 +0000
Subject: [PATCH 02/19] fix: keep the lookback when requested times start
 within the first window

---
 cvx/covariance/combination.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cvx/covariance/combination.py b/cvx/covariance/combination.py
index f0160e4..6573155 100644
--- a/cvx/covariance/combination.py
+++ b/cvx/covariance/combination.py
@@ -234,7 +234,7 @@ class _CovarianceCombination:
             "times must be consecutive"
 
             # add window - 1 previous time steps to times
-            times = list(all_available_times[zero_index - window + 1 : zero_index]) + times
+            times = list(all_available_times[max(zero_index - window + 1, 0) : zero_index]) + times
 
         Bs = {time: np.column_stack(Lts_at_r.loc[time]) for time in times}
         prod_Bs = pd.Series({time: B.T @ B for time, B in Bs.items()})
-- 
2.43.0


From ea2a42da98597f65316af5ab7e24f9a4e6576736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:04 +0000
Subject: [PATCH 03/19] fix: treat missing returns as zeros in the combination
 of EWMA predictors

---
 cvx/covariance/combination.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cvx/covariance/combination.py b/cvx/covariance/combination.py
index 6573155..d6880ad 100644
--- a/cvx/covariance/combination.py
+++ b/cvx/covariance/combination.py
@@ -115,6 +115,10 @@ def from_ewmas(returns, pairs, min_periods_vola=20, min_periods_cov=20, clip_at=
 
     return: Yields tuples with time, mean, covariance matrix, weights
     """
+    # missing returns are zero returns, exactly as in iterated_ewma
+    if returns.isna().any().any():
+        returns = returns.fillna(0.0)
+
     # compute the covariance matrices, one time series for each pair
     results = {
         f"{pair[0]}-{pair[1]}": {
-- 
2.43.0


From d4cca658ad52078caab8ad6d2b8ba676d89a23bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:30 +0000
Subject: [PATCH 04/19] fix: hand out results of the lazy research estimators
 that share no state

---
 experiments/utils/iterated_ewma_vec.py | 3 ++-
 experiments/utils/low_rank_ewma.py     | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/experiments/utils/iterated_ewma_vec.py b/experiments/utils/iterated_ewma_vec.py
index 95f9da3..2ba15bf 100644
--- a/experiments/utils/iterated_ewma_vec.py
+++ b/experiments/utils/iterated_ewma_vec.py
@@ -92,7 +92,8 @@ def ewma(y, halflife, clip_at=None, min_periods=None):
         # EWMA_t = get_next_ewma(EWMA_t, y_last, t, beta, clip_at, min_periods)
         EWMA_old = get_next_ewma(EWMA_old, y[time], t + 1, beta, clip_at, min_periods)
 
-        yield time, EWMA_old
+        # a copy: the caller owns what it gets, the recursion keeps its own state
+        yield time, EWMA_old.copy()
 
         # EWMAs[t] = get_next_ewma(EWMAs[t - 1], y[t], t + 1, beta, clip_at, min_periods)
 
diff --git a/experiments/utils/low_rank_ewma.py b/experiments/utils/low_rank_ewma.py
index 83e694c..a50c539 100644
--- a/experiments/utils/low_rank_ewma.py
+++ b/experiments/utils/low_rank_ewma.py
@@ -83,8 +83,6 @@ def low_rank_iterated_ewma(
     #     print(adj_mean)
     #     assert False
 
-    m = pd.Series(np.zeros_like(returns.shape[1]), index=returns.columns)
-
     for t, low_rank in _ewma_low_rank(
         data=adj, halflife=cov_halflife, min_periods=min_periods_cov, rank=rank
     ):
@@ -92,6 +90,8 @@ def low_rank_iterated_ewma(
             m = scale_mean(
                 vola=vola.loc[t].values, vec1=returns_mean.loc[t], vec2=adj_mean.loc[t]
             )
+        else:
+            m = pd.Series(np.zeros_like(returns.shape[1]), index=returns.columns)
 
         yield IEWMA(
             time=t,
-- 
2.43.0


From 85a548f500e8658bae3e1cfce9b430480387bc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:30 +0000
Subject: [PATCH 05/19] fix: average exactly the last memory observations in
 rolling_window

---
 experiments/utils/experiment_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/experiments/utils/experiment_utils.py b/experiments/utils/experiment_utils.py
index 30c0af7..ad79da9 100644
--- a/experiments/utils/experiment_utils.py
+++ b/experiments/utils/experiment_utils.py
@@ -256,8 +256,8 @@ def rolling_window(returns, memory, min_periods=20):
     Sigmas[0] = np.outer(returns[0], returns[0])
 
     for t in range(1, returns.shape[0]):
-        alpha_old = 1 / min(t + 1, memory)
-        alpha_new = 1 / min(t + 2, memory)
+        alpha_old = 1 / min(t, memory)
+        alpha_new = 1 / min(t + 1, memory)
 
         if t >= memory:
             Sigmas[t] = alpha_new / alpha_old * Sigmas[t - 1] + alpha_new * (
-- 
2.43.0


From 1107b24fdf5002b49bb3c41c77cc00387e7dcdb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:45 +0000
Subject: [PATCH 06/19] fix: keep the constraints of a backtest out of the
 caller's list and of later backtests

---
 experiments/utils/trading_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/experiments/utils/trading_model.py b/experiments/utils/trading_model.py
index 9267bbf..f466f3c 100644
--- a/experiments/utils/trading_model.py
+++ b/experiments/utils/trading_model.py
@@ -260,6 +260,7 @@ class Trader:
         param rhos: pandas DataFrame of uncertainty in expected returns
             if None, then uncertainty is set to zero. Causal estimates
         """
+        cons = list(cons)  # extended below
         self.portfolio_type = portfolio_type
         self.adjust_factor = adjust_factor
         self.additonal_cons = additonal_cons
-- 
2.43.0


From d60914cbc595bb24f0a12232336395663d35bae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:45 +0000
Subject: [PATCH 07/19] fix: pair every date with its own volatilities in the
 robust minimum risk backtest

---
 experiments/utils/trading_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/experiments/utils/trading_model.py b/experiments/utils/trading_model.py
index f466f3c..04c1f17 100644
--- a/experiments/utils/trading_model.py
+++ b/experiments/utils/trading_model.py
@@ -365,7 +365,9 @@ class Trader:
                     all_prob,
                     all_w,
                     all_L_inv_param,
-                    [*self.L_inv_hats.values(), all_sigma_hat_param, all_sigma_hats],
+                    [*self.L_inv_hats.values()],
+                    all_sigma_hat_param,
+                    all_sigma_hats,
                 ),
             )
             pool.close()
-- 
2.43.0


From c623d86d7a0c3f2023ec149d9814a4b2fbe792e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:45 +0000
Subject: [PATCH 08/19] fix: a backtest replaces everything of the previous
 one, also when it fails

---
 experiments/utils/trading_model.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/experiments/utils/trading_model.py b/experiments/utils/trading_model.py
index 04c1f17..146931d 100644
--- a/experiments/utils/trading_model.py
+++ b/experiments/utils/trading_model.py
@@ -41,7 +41,7 @@ class Trader:
         self.returns = returns
         self.Sigma_hats = Sigma_hats
         self.r_hats = r_hats
-        self.diluted = False
+        self._forget_backtest()
 
         assert list(self.returns.index) == list(self.Sigma_hats.keys())
         sigma_hats = []
@@ -243,6 +243,15 @@ class Trader:
             Vs.append(Vs[t] * (1 + r_t / self.adjust_factor))
         self.Vs_adjusted = np.array(Vs[1:])
 
+    def _forget_backtest(self):
+        """
+        Drops the portfolios of the last backtest and everything derived from them.
+        """
+        self.diluted = False
+        self.sigma_diluted = None
+        for name in ["ws", "obj", "ws_diluted", "rets", "Vs", "rets_adjusted", "Vs_adjusted"]:
+            self.__dict__.pop(name, None)
+
     def backtest(
         self,
         portfolio_type="min_risk",
@@ -260,6 +269,7 @@ class Trader:
         param rhos: pandas DataFrame of uncertainty in expected returns
             if None, then uncertainty is set to zero. Causal estimates
         """
+        self._forget_backtest()
         cons = list(cons)  # extended below
         self.portfolio_type = portfolio_type
         self.adjust_factor = adjust_factor
-- 
2.43.0


From 925299b2a07203bf0dd47d5ec744af94d0ca0ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:46 +0000
Subject: [PATCH 09/19] fix: dilute with cash to the volatility that is asked
 for

---
 experiments/utils/trading_model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/experiments/utils/trading_model.py b/experiments/utils/trading_model.py
index 146931d..6206f38 100644
--- a/experiments/utils/trading_model.py
+++ b/experiments/utils/trading_model.py
@@ -209,7 +209,7 @@ class Trader:
         """
         Dilutes the portfolio with cash to achieve a desired volatility.
         """
-        if self.diluted:
+        if self.diluted and self.sigma_diluted in [None, sigma_des]:
             print("Already trades cash...")
             return None
         ws_new = []
@@ -224,6 +224,7 @@ class Trader:
 
         self.ws_diluted = np.array(ws_new)
         self.diluted = True
+        self.sigma_diluted = sigma_des
 
     def get_risk_adj_returns(self, sigma_des=0.1):
         """
@@ -599,7 +600,7 @@ class Trader:
                 or diluted_with_cash
             ):
                 if diluted_with_cash:
-                    if not self.diluted == True:
+                    if not self.diluted or sigma_des not in [None, self.sigma_diluted]:
                         assert sigma_des is not None
                         self.dilute_with_cash(sigma_des)
                     w_t = self.ws_diluted[t]
-- 
2.43.0


From f3df5c9b17e0c802ea68f93c47c12c63f98b16fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:46 +0000
Subject: [PATCH 10/19] fix: shape of the volatility controlled portfolios

---
 experiments/utils/trading_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/utils/trading_model.py b/experiments/utils/trading_model.py
index 6206f38..8c45a42 100644
--- a/experiments/utils/trading_model.py
+++ b/experiments/utils/trading_model.py
@@ -158,7 +158,7 @@ class Trader:
 
         sigma_r = obj
         w_cash = (1 - sigma_des / sigma_r).reshape(-1, 1)
-        ws = (1 - w_cash) * ws
+        ws = (1 - w_cash) * ws.reshape(len(ws), -1)
 
         return np.hstack([ws, w_cash])
 
-- 
2.43.0


From 8ffdaf9941e9dea5c68c27d44345833fab05c788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:46 +0000
Subject: [PATCH 11/19] fix: use the existing Cholesky factors in the maximum
 Sharpe ratio backtest

---
 experiments/utils/trading_model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/experiments/utils/trading_model.py b/experiments/utils/trading_model.py
index 8c45a42..97446d2 100644
--- a/experiments/utils/trading_model.py
+++ b/experiments/utils/trading_model.py
@@ -193,7 +193,7 @@ class Trader:
         param r_hat: return
 
         """
-        L_inv_param.value = L_inv.T
+        L_inv_param.value = L_inv
         r_hat_param.value = r_hat
         prob.solve(solver="ECOS")
 
@@ -555,7 +555,7 @@ class Trader:
             prob = cp.Problem(cp.Minimize(obj), cons)
 
             # Solve problem once to speed up later solves
-            L_inv_param.value = [*self.Lt_inv_hats.values()][0].T
+            L_inv_param.value = [*self.L_inv_hats.values()][0]
             r_hat_param.value = np.ones((self.n, 1))
             prob.solve(solver="ECOS")
 
@@ -574,7 +574,7 @@ class Trader:
                     all_z,
                     all_L_inv_param,
                     all_r_hat_param,
-                    [*self.Lt_inv_hats.values()],
+                    [*self.L_inv_hats.values()],
                     all_r_hats,
                 ),
             )
-- 
2.43.0


From 047c6fb6d11c1ec4122c048ebd8df8a3483cd931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:46 +0000
Subject: [PATCH 12/19] fix: send problems to the workers without the state of
 the solver

---
 experiments/utils/trading_model.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/experiments/utils/trading_model.py b/experiments/utils/trading_model.py
index 97446d2..38c5b64 100644
--- a/experiments/utils/trading_model.py
+++ b/experiments/utils/trading_model.py
@@ -13,6 +13,15 @@ def _get_L_inv(covariance):
     return np.linalg.inv(np.linalg.cholesky(Theta))
 
 
+def _solve_once(prob, **kwargs):
+    """
+    Solves the problem once to speed up later solves. The solver's own state
+    is dropped as it cannot be sent to worker processes.
+    """
+    prob.solve(**kwargs)
+    prob._solver_cache.clear()
+
+
 metrics = namedtuple("metrics", ["mean_return", "risk", "sharpe", "drawdown"])
 
 
@@ -358,7 +367,7 @@ class Trader:
                 L_inv_param.value = [*self.L_inv_hats.values()][0]
                 if portfolio_type == "robust_min_risk":
                     sigma_hat_param.value = all_sigma_hats[0]
-                prob.solve()
+                _solve_once(prob)
 
             # solve the problem for each date
             all_w = [w for _ in range(self.T)]
@@ -486,7 +495,7 @@ class Trader:
             # Solve problem once to speed up later solves
             L_inv_param.value = [*self.L_inv_hats.values()][0]
             sigma_param.value = np.ones((self.n, 1))
-            prob.solve(solver="ECOS")
+            _solve_once(prob, solver="ECOS")
 
             all_z = [z for _ in range(self.T)]
             all_L_inv_param = [L_inv_param for _ in range(self.T)]
@@ -524,7 +533,7 @@ class Trader:
             # Solve once for speedup later
             # Solve problem with random inputs once to speed up later solves
             L_inv_param.value = [*self.L_inv_hats.values()][0]
-            prob.solve()
+            _solve_once(prob)
 
             all_w = [w for _ in range(self.T)]
             all_L_inv_param = [L_inv_param for _ in range(self.T)]
@@ -557,7 +566,7 @@ class Trader:
             # Solve problem once to speed up later solves
             L_inv_param.value = [*self.L_inv_hats.values()][0]
             r_hat_param.value = np.ones((self.n, 1))
-            prob.solve(solver="ECOS")
+            _solve_once(prob, solver="ECOS")
 
             all_z = [z for _ in range(self.T)]
             all_L_inv_param = [L_inv_param for _ in range(self.T)]
-- 
2.43.0


From ee2f8e5bc5b90ce4087e74ece9230c0626a49e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:36 +0000
Subject: [PATCH 13/19] fix: factorise singular windows instead of ending the
 stream

---
 cvx/covariance/combination.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/cvx/covariance/combination.py b/cvx/covariance/combination.py
index d6880ad..1e4cf8d 100644
--- a/cvx/covariance/combination.py
+++ b/cvx/covariance/combination.py
@@ -34,6 +34,18 @@ def _cholesky_precision(cov):
     return {time: np.linalg.cholesky(np.linalg.inv(item.values)) for time, item in cov.items()}
 
 
+def _psd_factor(matrix):
+    """
+    Computes a factor F of a positive semidefinite matrix, i.e., F @ F.T = matrix. This is
+    the Cholesky factor unless the matrix is singular, e.g. for a window without any returns
+    """
+    try:
+        return np.linalg.cholesky(matrix)
+    except np.linalg.LinAlgError:
+        lamda, Q = np.linalg.eigh(matrix)
+        return Q * np.sqrt(np.maximum(lamda, 0.0))
+
+
 def _B_t_col(Ls, nus, returns):
     """
     Computes L.T @ return for each L factor in Ls and corresponding
@@ -245,7 +257,7 @@ class _CovarianceCombination:
         # times = prod_Bs.index
         P = {times[i]: sum(prod_Bs.loc[times[i - window + 1] : times[i]]) for i in range(window - 1, len(times))}
 
-        P_chol = {time: np.linalg.cholesky(matrix) for time, matrix in P.items()}
+        P_chol = {time: _psd_factor(matrix) for time, matrix in P.items()}
 
         # Compute A matrix
         Ls_diag = pd.DataFrame({k: _diag_part(L) for k, L in self.__Ls_shifted.items()})
-- 
2.43.0


From fbc0614069b88bb31130955b7c42ce9737c0e535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:14 +0000
Subject: [PATCH 14/19] fix: refuse portfolios the solver did not finish

---
 experiments/utils/trading_model.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/experiments/utils/trading_model.py b/experiments/utils/trading_model.py
index 38c5b64..ca1f9dc 100644
--- a/experiments/utils/trading_model.py
+++ b/experiments/utils/trading_model.py
@@ -22,6 +22,14 @@ def _solve_once(prob, **kwargs):
     prob._solver_cache.clear()
 
 
+def _assert_solved(prob):
+    """
+    Raises an error if the solver gave up, cvxpy only warns in some of the cases.
+    """
+    if prob.status not in [cp.OPTIMAL, cp.OPTIMAL_INACCURATE]:
+        raise cp.SolverError(f"Portfolio problem not solved, status: {prob.status}")
+
+
 metrics = namedtuple("metrics", ["mean_return", "risk", "sharpe", "drawdown"])
 
 
@@ -113,6 +121,7 @@ class Trader:
             prob.solve(method="cpg", updated_params=["L_inv_param"])
         else:
             prob.solve(verbose=False)
+            _assert_solved(prob)
 
         return w.value, prob.objective.value
 
@@ -127,6 +136,7 @@ class Trader:
         """
         L_inv_param.value = L_inv
         prob.solve()
+        _assert_solved(prob)
         w_normalized = w.value / np.sum(w.value)
 
         return w_normalized
@@ -150,6 +160,7 @@ class Trader:
         r_hat_param.value = np.vstack([r_hat.reshape(-1, 1), 0])
         r_hat_param = np.zeros(r_hat_param.shape)
         prob.solve(ignore_dpp=True, solver="ECOS")
+        _assert_solved(prob)
 
         return w.value, prob.objective.value
 
@@ -186,6 +197,7 @@ class Trader:
         L_inv_param.value = L_inv
         sigma_param.value = sigma
         prob.solve(solver="ECOS")
+        _assert_solved(prob)
 
         w = z.value / np.sum(z.value)
         return w
-- 
2.43.0


From 6586c098156c7a071a6395318b1e7d88c205cba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:38 +0000
Subject: [PATCH 15/19] fix: keep portfolios and dilution consistent when
 interrupted

---
 experiments/utils/trading_model.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/experiments/utils/trading_model.py b/experiments/utils/trading_model.py
index ca1f9dc..cc09cfa 100644
--- a/experiments/utils/trading_model.py
+++ b/experiments/utils/trading_model.py
@@ -243,9 +243,10 @@ class Trader:
             w_t_new = np.vstack([theta * w_t, 1 - theta])
             ws_new.append(w_t_new.flatten())
 
+        self.diluted = False  # until everything below is updated
         self.ws_diluted = np.array(ws_new)
-        self.diluted = True
         self.sigma_diluted = sigma_des
+        self.diluted = True
 
     def get_risk_adj_returns(self, sigma_des=0.1):
         """
@@ -269,10 +270,10 @@ class Trader:
         """
         Drops the portfolios of the last backtest and everything derived from them.
         """
-        self.diluted = False
-        self.sigma_diluted = None
         for name in ["ws", "obj", "ws_diluted", "rets", "Vs", "rets_adjusted", "Vs_adjusted"]:
             self.__dict__.pop(name, None)
+        self.diluted = False
+        self.sigma_diluted = None
 
     def backtest(
         self,
-- 
2.43.0


From 4ca030206cefa689299760951669eef4fcae11b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:52 +0000
Subject: [PATCH 16/19] fix: a clipped EWMA volatility no longer stays at zero
 for an asset that starts late

With clip_at, the update of an asset that had nothing but zero (or missing) returns
was clipped at a multiple of zero, so that its volatility never left zero.
---
 cvx/covariance/ewma.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cvx/covariance/ewma.py b/cvx/covariance/ewma.py
index a61a7c9..cd614d0 100644
--- a/cvx/covariance/ewma.py
+++ b/cvx/covariance/ewma.py
@@ -256,7 +256,9 @@ def _general(
 
         # update the moving average
         if clip_at and n >= min_periods + 1:
-            _ewma = _ewma + (1 - beta) * (np.clip(next_val, -clip_at * _ewma, clip_at * _ewma) - _ewma) / (
+            # there is no level to clip at as long as nothing but zeros has been seen, e.g. before an asset starts
+            level = np.where(_ewma == 0, np.inf, _ewma)
+            _ewma = _ewma + (1 - beta) * (np.clip(next_val, -clip_at * level, clip_at * level) - _ewma) / (
                 1 - np.power(beta, n + 1)
             )
         else:
-- 
2.43.0


From f22921fc072645330a8321d5822105b3219ffaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:51 +0000
Subject: [PATCH 17/19] fix: low-rank streams survive assets without variance
 and a breakdown of the Arnoldi iteration

---
 experiments/utils/low_rank_ewma.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/experiments/utils/low_rank_ewma.py b/experiments/utils/low_rank_ewma.py
index a50c539..22be22b 100644
--- a/experiments/utils/low_rank_ewma.py
+++ b/experiments/utils/low_rank_ewma.py
@@ -5,7 +5,7 @@ from collections import namedtuple
 import numpy as np
 import pandas as pd
 from pandas._typing import TimedeltaConvertibleTypes
-from scipy.sparse.linalg import LinearOperator, eigsh
+from scipy.sparse.linalg import ArpackError, LinearOperator, eigsh
 
 from cvx.covariance.ewma import center, clip, volatility
 
@@ -42,7 +42,8 @@ def low_rank_iterated_ewma(
         d_temp = d_temp.values
 
         # Convert (covariance) matrix to correlation matrix
-        v = 1 / np.sqrt(_get_diagonal(F_temp, d_temp).reshape(-1, 1))
+        diag = _get_diagonal(F_temp, d_temp).reshape(-1, 1)
+        v = 1 / np.sqrt(np.where(diag > 0, diag, np.nan))
         F = v * F_temp
         d = (v.flatten() ** 2) * d_temp
 
@@ -155,18 +156,24 @@ def _low_rank_sum(F, d, r):
         """
 
         return (
-            np.ones((n, 1))
+            (variances > 0)
             + d * (scale**2)
             - np.sum(F_hat**2, axis=1).reshape(-1, 1)
         )
 
-    # Get scaling toward correlation matrix
-    scale = 1 / np.sqrt(np.sum(F**2, axis=1).reshape(-1, 1) + r**2)
+    # Get scaling toward correlation matrix, assets without any variance so far are not scaled
+    variances = np.sum(F**2, axis=1).reshape(-1, 1) + r**2
+    scale = 1 / np.sqrt(np.where(variances > 0, variances, 1.0))
 
     A = LinearOperator((n, n), matvec=_mv)
 
     # Compute top eigenvalues
-    lamda, Q = eigsh(A, k=rank, which="LM")
+    try:
+        lamda, Q = eigsh(A, k=rank, which="LM")
+    except ArpackError:
+        # The Arnoldi iteration can break down if the matrix has fewer nonzero eigenvalues than needed
+        lamda, Q = np.linalg.eigh(A @ np.eye(n))
+        lamda, Q = lamda[-rank:], Q[:, -rank:]
 
     # Replace negative lamda with 0
     lamda[lamda < 0] = 0
-- 
2.43.0


From 37c0ae77f3124d71f3735d1050c4370f87ed1e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:52 +0000
Subject: [PATCH 18/19] fix: the performance table shows the prescient figures
 under their own name

---
 experiments/utils/portfolio_backtests.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/utils/portfolio_backtests.py b/experiments/utils/portfolio_backtests.py
index bea7078..ce9a14f 100644
--- a/experiments/utils/portfolio_backtests.py
+++ b/experiments/utils/portfolio_backtests.py
@@ -48,7 +48,7 @@ def _create_table_helper(metrics, prescient=True):
         metric = metrics["PRESCIENT"]
         print(
             "   {} & {:.1f}\\% & {:.1f}\\% & {:.1f} & {:.0f}\\% \\\\".format(
-                name,
+                "PRESCIENT",
                 metric.mean_return * 100,
                 metric.risk * 100,
                 metric.sharpe,
-- 
2.43.0


From 266894600233cbf5118e07a3a1b882f39b02e74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:05 +0000
Subject: [PATCH 19/19] fix: low-rank streams no longer depend on earlier
 eigenvalue computations in the process

---
 experiments/utils/low_rank_ewma.py | 26 ++++----------------------
 1 file changed, 4 insertions(+), 22 deletions(-)

diff --git a/experiments/utils/low_rank_ewma.py b/experiments/utils/low_rank_ewma.py
index 22be22b..e720dba 100644
--- a/experiments/utils/low_rank_ewma.py
+++ b/experiments/utils/low_rank_ewma.py
@@ -5,7 +5,6 @@ from collections import namedtuple
 import numpy as np
 import pandas as pd
 from pandas._typing import TimedeltaConvertibleTypes
-from scipy.sparse.linalg import ArpackError, LinearOperator, eigsh
 
 from cvx.covariance.ewma import center, clip, volatility
 
@@ -134,22 +133,10 @@ def _low_rank_sum(F, d, r):
 
     returns \hat{F}, diag(\hat{D})
     """
-    n = F.shape[0]
     rank = F.shape[1]
     r = r.reshape(-1, 1)
     d = d.reshape(-1, 1)
 
-    def _mv(x):
-        """ "
-        returns (FF^T + D + rr^T)x
-        """
-        shape = x.shape
-        x = x.reshape(-1, 1)
-
-        return (
-            ((scale * F) @ ((F.T * scale.T) @ x)) + (scale * r) * (r.T * scale.T) @ x
-        ).reshape(shape)
-
     def _get_new_diag(F_hat):
         r"""
         returns diag(\hat{D})
@@ -165,15 +152,10 @@ def _low_rank_sum(F, d, r):
     variances = np.sum(F**2, axis=1).reshape(-1, 1) + r**2
     scale = 1 / np.sqrt(np.where(variances > 0, variances, 1.0))
 
-    A = LinearOperator((n, n), matvec=_mv)
-
-    # Compute top eigenvalues
-    try:
-        lamda, Q = eigsh(A, k=rank, which="LM")
-    except ArpackError:
-        # The Arnoldi iteration can break down if the matrix has fewer nonzero eigenvalues than needed
-        lamda, Q = np.linalg.eigh(A @ np.eye(n))
-        lamda, Q = lamda[-rank:], Q[:, -rank:]
+    # Compute top eigenvalues. FF^T + rr^T is the square of its n x (rank + 1) factor, an iterative
+    # method would start from a vector that depends on everything computed before in this process
+    Q, sigma, _ = np.linalg.svd(scale * np.hstack([F, r]), full_matrices=False)
+    lamda, Q = sigma[:rank] ** 2, Q[:, :rank]
 
     # Replace negative lamda with 0
     lamda[lamda < 0] = 0
-- 
2.43.0

