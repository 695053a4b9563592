From dbcdeaff66a49912fabbbb7ea90586d02de92210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:15 +0000
Subject: [PATCH 01/45] fix: GARCHModel.fit returns the estimated parameters
 when called again

---
 src/frds/algorithms/_garch.py | 1046 ++++++++++++++++-----------------
 1 file changed, 523 insertions(+), 523 deletions(-)

diff --git a/src/frds/algorithms/_garch.py b/src/frds/algorithms/_garch.py
index 9857305..eafbb33 100644
--- a/src/frds/algorithms/_garch.py
+++ b/src/frds/algorithms/_garch.py
@@ -1,523 +1,523 @@
-import warnings
-import itertools
-from typing import List
-from dataclasses import dataclass
-import numpy as np
-from scipy.optimize import minimize, OptimizeResult
-
-USE_CPP_EXTENSION = True
-try:
-    import frds.algorithms.utils.utils_ext as ext
-except ImportError:
-    USE_CPP_EXTENSION = False
-
-
-class GARCHModel:
-    """:doc:`/algorithms/garch` model with constant mean and Normal noise
-
-    It estimates the model parameters only. No standard errors calculated.
-
-    This code is heavily based on the `arch <https://arch.readthedocs.io/>`_.
-    Modifications are made for easier understaing of the code flow.
-    """
-
-    @dataclass
-    class Parameters:
-        mu: float = np.nan
-        omega: float = np.nan
-        alpha: float = np.nan
-        beta: float = np.nan
-        loglikelihood: float = np.nan
-
-    def __init__(self, returns: np.ndarray, zero_mean=False) -> None:
-        """__init__
-
-        Args:
-            returns (np.ndarray): ``(T,)`` array of ``T`` returns
-            zero_mean (bool): whether to use a zero mean returns model. Default to False.
-
-        .. note:: ``returns`` is best to be percentage returns for optimization
-        """
-        self.returns = np.asarray(returns, dtype=np.float64)
-        self.estimation_success = False
-        self.loglikelihood_final = np.nan
-        self.parameters = type(self).Parameters()
-        self.resids = np.empty_like(self.returns)
-        self.sigma2 = np.empty_like(self.returns)
-        self.backcast_value = np.nan
-        self.var_bounds: np.ndarray = None
-        self.zero_mean = zero_mean
-
-    def fit(self) -> Parameters:
-        """Estimates the GARCH(1,1) parameters via MLE
-
-        Returns:
-            params: :class:`frds.algorithms.GARCHModel.Parameters`
-        """
-        # No repeated estimation?
-        if self.estimation_success:
-            return
-
-        starting_vals = self.preparation()
-
-        # Set bounds for parameters
-        bounds = [
-            (-np.inf, np.inf),  # No bounds for mu
-            (1e-6, np.inf),  # Lower bound for omega
-            (0.0, 1.0),  # Bounds for alpha
-            (0.0, 1.0),  # Boudns for beta
-        ]
-        if self.zero_mean:
-            bounds = bounds[1:]
-
-        # Set constraint for stationarity
-        def persistence_smaller_than_one(params: List[float]):
-            alpha, beta = params[-2:]
-            return 1.0 - (alpha + beta)
-
-        # MLE via minimizing the negative log-likelihood
-        # fmt: off
-        with warnings.catch_warnings():
-            warnings.filterwarnings(
-                "ignore",
-                "Values in x were outside bounds during a minimize step",
-                RuntimeWarning,
-            )
-            opt: OptimizeResult = minimize(
-                self.loglikelihood_model,
-                starting_vals,
-                args=(self.backcast_value, self.var_bounds, self.zero_mean),
-                method="SLSQP",
-                bounds=bounds,
-                constraints={"type": "ineq", "fun": persistence_smaller_than_one},
-            )
-            if opt.success:
-                self.estimation_success = True
-                if self.zero_mean:
-                    self.parameters = type(self).Parameters(0.0, *list(opt.x), loglikelihood=-opt.fun)
-                else:
-                    self.parameters = type(self).Parameters(*list(opt.x), loglikelihood=-opt.fun)
-                self.resids = self.returns - self.parameters.mu
-
-        return self.parameters
-
-    def preparation(self) -> List[float]:
-        """Prepare starting values.
-
-        Returns:
-            List[float]: list of starting values
-        """
-        # Compute a starting value for volatility process by backcasting
-        if self.zero_mean:
-            resids = self.returns
-        else:
-            resids = self.returns - np.mean(self.returns)
-        self.backcast_value = self.backcast(resids)
-        # Compute a loose bound for the volatility process
-        # This is to avoid NaN in MLE by avoiding zero/negative variance,
-        # as well as unreasonably large variance.
-        self.var_bounds = self.variance_bounds(resids)
-        # Compute the starting values for MLE
-        # Starting values for the volatility process
-        var_params = self.starting_values(resids)
-        # Starting value for mu is the sample mean return
-        initial_mu = self.returns.mean()
-        # Starting values are [mu, omega, alpha, beta]
-        starting_vals = [initial_mu, *var_params]
-
-        return starting_vals if not self.zero_mean else var_params
-
-    def loglikelihood_model(
-        self,
-        params: np.ndarray,
-        backcast: float,
-        var_bounds: np.ndarray,
-        zero_mean=False,
-    ) -> float:
-        """Calculates the negative log-likelihood based on the current ``params``.
-        This function is used in optimization.
-
-        Args:
-            params (np.ndarray): [mu, omega, alpha, (gamma), beta]
-            backcast (float): backcast value
-            var_bounds (np.ndarray): variance bounds
-
-        Returns:
-            float: negative log-likelihood
-        """
-        if zero_mean:
-            resids = self.returns
-            self.sigma2 = self.compute_variance(params, resids, backcast, var_bounds)
-        else:
-            resids = self.returns - params[0]  # params[0] is mu
-            self.sigma2 = self.compute_variance(
-                params[1:], resids, backcast, var_bounds
-            )
-        return -self.loglikelihood(resids, self.sigma2)
-
-    @staticmethod
-    def loglikelihood(resids: np.ndarray, sigma2: np.ndarray) -> float:
-        """Computes the log-likelihood assuming residuals are
-        normally distributed conditional on the variance.
-
-        Args:
-            resids (np.ndarray): residuals to use in computing log-likelihood.
-            sigma2 (np.ndarray): conditional variance of residuals.
-
-        Returns:
-            float: log-likelihood
-        """
-        l = -0.5 * (np.log(2 * np.pi) + np.log(sigma2) + resids**2.0 / sigma2)
-        return np.sum(l)
-
-    @staticmethod
-    def compute_variance(
-        params: List[float],
-        resids: np.ndarray,
-        backcast: float,
-        var_bounds: np.ndarray,
-    ) -> np.ndarray:
-        """Computes the variances conditional on given parameters
-
-        Args:
-            params (List[float]): [omega, alpha, beta]
-            resids (np.ndarray): residuals from mean equation
-            backcast (float): backcast value
-            var_bounds (np.ndarray): variance bounds
-
-        Returns:
-            np.ndarray: conditional variance
-        """
-        if USE_CPP_EXTENSION:
-            return ext.compute_garch_variance(params, resids, backcast, var_bounds)
-        omega, alpha, beta = params
-        sigma2 = np.zeros_like(resids)
-        sigma2[0] = omega + (alpha + beta) * backcast
-        for t in range(1, len(resids)):
-            sigma2[t] = omega + alpha * (resids[t - 1] ** 2) + beta * sigma2[t - 1]
-            sigma2[t] = GARCHModel.bounds_check(sigma2[t], var_bounds[t])
-        return sigma2
-
-    def starting_values(self, resids: np.ndarray) -> List[float]:
-        """Finds the optimal initial values for the volatility model via a grid
-        search. For varying target persistence and alpha values, return the
-        combination of alpha and beta that gives the highest loglikelihood.
-
-        Args:
-            resids (np.ndarray): residuals from the mean model
-
-        Returns:
-            List[float]: [omega, alpha, beta]
-        """
-        # Candidate target persistence - we don't have a prior knowledge here
-        persistence_grid = [0.5, 0.7, 0.9, 0.98]
-        # Candidate alpha values
-        alpha_grid = [0.01, 0.05, 0.1, 0.2]
-        # Sample variance
-        var = self.returns.var()
-        # Backcast initial value for the volaility process
-        initial_params = []
-        max_likelihood = -np.inf
-        for alpha, p in itertools.product(*[alpha_grid, persistence_grid]):
-            # Note that (alpha+beta) is the "persistence"
-            beta = p - alpha
-            # Note that the unconditional variance is omega/(1-persistence).
-            # As we are guessing the initial value, we use the sample variance
-            # as the unconditional variance to guess the omega value.
-            omega = var * (1 - p)
-            params = [omega, alpha, beta]
-            sigma2 = self.compute_variance(
-                params, resids, self.backcast_value, self.var_bounds
-            )
-            if -self.loglikelihood(resids, sigma2) > max_likelihood:
-                initial_params = params
-        return initial_params
-
-    @staticmethod
-    def variance_bounds(resids: np.ndarray) -> np.ndarray:
-        """Compute bounds for conditional variances using EWMA.
-
-        This function calculates the lower and upper bounds for conditional variances
-        based on the residuals provided. The bounds are computed to ensure numerical
-        stability during the parameter estimation process of GARCH models. The function
-        uses Exponentially Weighted Moving Average (EWMA) to estimate the initial variance
-        and then adjusts these estimates to lie within global bounds.
-
-        Args:
-            resids (np.ndarray): residuals from the mean model.
-
-        Returns:
-            np.ndarray: an array where each row contains the lower and upper bounds for the conditional variance at each time point.
-        """
-
-        T = len(resids)
-        tau = min(75, T)
-        # Compute initial variance using EWMA
-        decay_factor = 0.94
-        weights = decay_factor ** np.arange(tau)
-        weights /= weights.sum()
-        initial_variance = np.dot(weights, resids[:tau] ** 2)
-        # Compute var_bound using EWMA (assuming ewma_recursion is defined)
-        var_bound = GARCHModel.ewma(resids, initial_variance)
-        # Compute global bounds
-        global_lower_bound = resids.var() / 1e8
-        global_upper_bound = 1e7 * (1 + (resids**2).max())
-        # Adjust var_bound to ensure it lies within global bounds
-        var_bound = np.clip(var_bound, global_lower_bound, global_upper_bound)
-        # Create bounds matrix
-        var_bounds = np.vstack((var_bound / 1e6, var_bound * 1e6)).T
-
-        return np.ascontiguousarray(var_bounds)
-
-    @staticmethod
-    def bounds_check(sigma2: float, var_bounds: np.ndarray) -> float:
-        """Adjust the conditional variance at time t based on its bounds
-
-        Args:
-            sigma2 (float): conditional variance
-            var_bounds (np.ndarray): lower and upper bounds
-
-        Returns:
-            float: adjusted conditional variance
-        """
-        if USE_CPP_EXTENSION:
-            return ext.bounds_check(sigma2, var_bounds)
-        lower, upper = var_bounds[0], var_bounds[1]
-        sigma2 = max(lower, sigma2)
-        if sigma2 > upper:
-            if not np.isinf(sigma2):
-                sigma2 = upper + np.log(sigma2 / upper)
-            else:
-                sigma2 = upper + 1000
-        return sigma2
-
-    @staticmethod
-    def backcast(resids: np.ndarray) -> float:
-        """Computes the starting value for estimating conditional variance.
-
-        Args:
-            resids (np.ndarray): residuals
-
-        Returns:
-            float: initial value from backcasting
-        """
-        # Limit to first tau observations to reduce computation
-        tau = min(75, resids.shape[0])
-        # Weights for Exponential Weighted Moving Average (EWMA)
-        w = 0.94 ** np.arange(tau)
-        w = w / sum(w)  # Ensure weights add up to 1
-        # Let the initial value to be the EWMA of first tau observations
-        return float(np.sum((resids[:tau] ** 2) * w))
-
-    @staticmethod
-    def ewma(resids: np.ndarray, initial_value: float, lam=0.94) -> np.ndarray:
-        """Compute the conditional variance estimates using
-        Exponentially Weighted Moving Average (EWMA).
-
-        Args:
-            resids (np.ndarray): Residuals from the model.
-            initial_value (float): Initial value for the conditional variance.
-            lam (float): Decay factor for the EWMA.
-
-        Returns:
-            np.ndarray: Array containing the conditional variance estimates.
-        """
-        if USE_CPP_EXTENSION:
-            return ext.ewma(resids, initial_value, lam)
-        T = len(resids)
-        variance = np.empty(T)
-        variance[0] = initial_value  # Set the initial value
-        # Compute the squared residuals
-        squared_resids = resids**2
-        # Compute the EWMA using the decay factors and squared residuals
-        for t in range(1, T):
-            variance[t] = lam * variance[t - 1] + (1 - lam) * squared_resids[t - 1]
-        return variance
-
-
-class GJRGARCHModel(GARCHModel):
-    """:doc:`/algorithms/gjr-garch` model with constant mean and Normal noise
-
-    It estimates the model parameters only. No standard errors calculated.
-
-    This code is heavily based on the `arch <https://arch.readthedocs.io/>`_.
-    Modifications are made for easier understaing of the code flow.
-    """
-
-    @dataclass
-    class Parameters:
-        mu: float = np.nan
-        omega: float = np.nan
-        alpha: float = np.nan
-        gamma: float = np.nan
-        beta: float = np.nan
-        loglikelihood: float = np.nan
-
-    def fit(self) -> Parameters:
-        """Estimates the GJR-GARCH(1,1) parameters via MLE
-
-        Returns:
-            List[float]: [mu, omega, alpha, gamma, beta, loglikelihood]
-        """
-        starting_vals = self.preparation()
-
-        bounds = [
-            (-np.inf, np.inf),  # No bounds for mu
-            (1e-6, np.inf),  # Lower bound for omega
-            (1e-6, 1.0),  # Bounds for alpha
-            (1e-6, 1.0),  # Bounds for gamma
-            (1e-6, 1.0),  # Boudns for beta
-        ]
-        if self.zero_mean:
-            bounds = bounds[1:]
-
-        # Set constraint for stationarity
-        def persistence_smaller_than_one(params: List[float]):
-            alpha, gamma, beta = params[-3:]
-            return 1.0 - (alpha + beta + gamma / 2)
-
-        # MLE via minimizing the negative log-likelihood
-        with warnings.catch_warnings():
-            warnings.filterwarnings(
-                "ignore",
-                "Values in x were outside bounds during a minimize step",
-                RuntimeWarning,
-            )
-            opt: OptimizeResult = minimize(
-                self.loglikelihood_model,
-                starting_vals,
-                args=(self.backcast_value, self.var_bounds, self.zero_mean),
-                method="SLSQP",
-                bounds=bounds,
-                constraints={"type": "ineq", "fun": persistence_smaller_than_one},
-            )
-            if opt.success:
-                self.estimation_success = True
-                if self.zero_mean:
-                    self.parameters = type(self).Parameters(
-                        0.0, *list(opt.x), loglikelihood=-opt.fun
-                    )
-                else:
-                    self.parameters = type(self).Parameters(
-                        *list(opt.x), loglikelihood=-opt.fun
-                    )
-                self.resids = self.returns - self.parameters.mu
-
-        return self.parameters
-
-    @staticmethod
-    def compute_variance(
-        params: List[float],
-        resids: np.ndarray,
-        backcast: float,
-        var_bounds: np.ndarray,
-    ) -> np.ndarray:
-        """Computes the variances conditional on given parameters
-
-        Args:
-            params (List[float]): [omega, alpha, gamma, beta]
-            resids (np.ndarray): residuals from mean equation
-            backcast (float): backcast value
-            var_bounds (np.ndarray): variance bounds
-
-        Returns:
-            np.ndarray: conditional variance
-        """
-        if USE_CPP_EXTENSION:
-            return ext.compute_gjrgarch_variance(params, resids, backcast, var_bounds)
-        # fmt: off
-        omega, alpha, gamma, beta = params
-        sigma2 = np.zeros_like(resids)
-        sigma2[0] = omega + (alpha + gamma/2 + beta) * backcast
-        for t in range(1, len(resids)):
-            sigma2[t] = omega + alpha * (resids[t - 1] ** 2) + beta * sigma2[t - 1]
-            sigma2[t] += gamma * resids[t - 1] ** 2 if resids[t - 1] < 0 else 0
-            sigma2[t] = GJRGARCHModel.bounds_check(sigma2[t], var_bounds[t])
-        return sigma2
-
-    @staticmethod
-    def forecast_variance(
-        params: Parameters,
-        resids: np.ndarray,
-        initial_variance: float,
-    ) -> np.ndarray:
-        """Forecast the variances conditional on given parameters and residuals.
-
-        Args:
-            params (Parameters): :class:`frds.algorithms.GJRGARCHModel.Parameters`
-            resids (np.ndarray): residuals to use
-            initial_variance (float): starting value of variance forecasts
-
-        Returns:
-            np.ndarray: conditional variance
-        """
-        # fmt: off
-        omega, alpha, gamma, beta = params.omega, params.alpha, params.gamma, params.beta
-        sigma2 = np.zeros_like(resids)
-        sigma2[0] = initial_variance
-        for t in range(1, len(resids)):
-            sigma2[t] = omega + alpha * (resids[t - 1] ** 2) + beta * sigma2[t - 1]
-            sigma2[t] += gamma * resids[t - 1] ** 2 if resids[t - 1] < 0 else 0
-        return sigma2[1:]
-
-    def starting_values(self, resids: np.ndarray) -> List[float]:
-        """Finds the optimal initial values for the volatility model via a grid
-        search. For varying target persistence and alpha values, return the
-        combination of alpha and beta that gives the highest loglikelihood.
-
-        Args:
-            resids (np.ndarray): residuals from the mean model
-
-        Returns:
-            List[float]: [omega, alpha, gamma, beta]
-        """
-        # Candidate target persistence - we don't have a prior knowledge here
-        persistence_grid = [0.5, 0.7, 0.9, 0.98]
-        # Candidate alpha values
-        alpha_grid = [0.01, 0.05, 0.1, 0.2]
-        gamma_grid = alpha_grid
-        # Sample variance
-        var = self.returns.var()
-        # Backcast initial value for the volaility process
-        var_bounds = self.variance_bounds(resids)
-        backcast = self.backcast(resids)
-        initial_params = []
-        max_likelihood = -np.inf
-        # fmt: off
-        for alpha, gamma, p in itertools.product(*[alpha_grid, gamma_grid, persistence_grid]):
-            # Note that (alpha+beta) is the "persistence"
-            beta = p - alpha - gamma/2
-            # Note that the unconditional variance is omega/(1-persistence).
-            # As we are guessing the initial value, we use the sample variance
-            # as the unconditional variance to guess the omega value.
-            omega = var * (1 - p)
-            params = [omega, alpha, gamma, beta]
-            sigma2 = self.compute_variance(params, resids, backcast, var_bounds)
-            if -self.loglikelihood(resids, sigma2) > max_likelihood:
-                initial_params = params
-        return initial_params
-
-
-if __name__ == "__main__":
-    import pandas as pd
-    from pprint import pprint
-
-    df = pd.read_stata(
-        "https://www.stata-press.com/data/r18/stocks.dta", convert_dates=["date"]
-    )
-    df.set_index("date", inplace=True)
-    # Scale returns to percentage returns for better optimization results
-    returns = df["nissan"].to_numpy() * 100
-
-    g = GARCHModel(returns)
-    res = g.fit()
-    pprint(res)
-
-    gjr = GJRGARCHModel(returns)
-    res = gjr.fit()
-    pprint(res)
-
-    from arch import arch_model
-
-    m = arch_model(returns, p=1, o=1, q=1)
-    print(m.fit(disp=False))
+import warnings
+import itertools
+from typing import List
+from dataclasses import dataclass
+import numpy as np
+from scipy.optimize import minimize, OptimizeResult
+
+USE_CPP_EXTENSION = True
+try:
+    import frds.algorithms.utils.utils_ext as ext
+except ImportError:
+    USE_CPP_EXTENSION = False
+
+
+class GARCHModel:
+    """:doc:`/algorithms/garch` model with constant mean and Normal noise
+
+    It estimates the model parameters only. No standard errors calculated.
+
+    This code is heavily based on the `arch <https://arch.readthedocs.io/>`_.
+    Modifications are made for easier understaing of the code flow.
+    """
+
+    @dataclass
+    class Parameters:
+        mu: float = np.nan
+        omega: float = np.nan
+        alpha: float = np.nan
+        beta: float = np.nan
+        loglikelihood: float = np.nan
+
+    def __init__(self, returns: np.ndarray, zero_mean=False) -> None:
+        """__init__
+
+        Args:
+            returns (np.ndarray): ``(T,)`` array of ``T`` returns
+            zero_mean (bool): whether to use a zero mean returns model. Default to False.
+
+        .. note:: ``returns`` is best to be percentage returns for optimization
+        """
+        self.returns = np.asarray(returns, dtype=np.float64)
+        self.estimation_success = False
+        self.loglikelihood_final = np.nan
+        self.parameters = type(self).Parameters()
+        self.resids = np.empty_like(self.returns)
+        self.sigma2 = np.empty_like(self.returns)
+        self.backcast_value = np.nan
+        self.var_bounds: np.ndarray = None
+        self.zero_mean = zero_mean
+
+    def fit(self) -> Parameters:
+        """Estimates the GARCH(1,1) parameters via MLE
+
+        Returns:
+            params: :class:`frds.algorithms.GARCHModel.Parameters`
+        """
+        # No repeated estimation?
+        if self.estimation_success:
+            return self.parameters
+
+        starting_vals = self.preparation()
+
+        # Set bounds for parameters
+        bounds = [
+            (-np.inf, np.inf),  # No bounds for mu
+            (1e-6, np.inf),  # Lower bound for omega
+            (0.0, 1.0),  # Bounds for alpha
+            (0.0, 1.0),  # Boudns for beta
+        ]
+        if self.zero_mean:
+            bounds = bounds[1:]
+
+        # Set constraint for stationarity
+        def persistence_smaller_than_one(params: List[float]):
+            alpha, beta = params[-2:]
+            return 1.0 - (alpha + beta)
+
+        # MLE via minimizing the negative log-likelihood
+        # fmt: off
+        with warnings.catch_warnings():
+            warnings.filterwarnings(
+                "ignore",
+                "Values in x were outside bounds during a minimize step",
+                RuntimeWarning,
+            )
+            opt: OptimizeResult = minimize(
+                self.loglikelihood_model,
+                starting_vals,
+                args=(self.backcast_value, self.var_bounds, self.zero_mean),
+                method="SLSQP",
+                bounds=bounds,
+                constraints={"type": "ineq", "fun": persistence_smaller_than_one},
+            )
+            if opt.success:
+                self.estimation_success = True
+                if self.zero_mean:
+                    self.parameters = type(self).Parameters(0.0, *list(opt.x), loglikelihood=-opt.fun)
+                else:
+                    self.parameters = type(self).Parameters(*list(opt.x), loglikelihood=-opt.fun)
+                self.resids = self.returns - self.parameters.mu
+
+        return self.parameters
+
+    def preparation(self) -> List[float]:
+        """Prepare starting values.
+
+        Returns:
+            List[float]: list of starting values
+        """
+        # Compute a starting value for volatility process by backcasting
+        if self.zero_mean:
+            resids = self.returns
+        else:
+            resids = self.returns - np.mean(self.returns)
+        self.backcast_value = self.backcast(resids)
+        # Compute a loose bound for the volatility process
+        # This is to avoid NaN in MLE by avoiding zero/negative variance,
+        # as well as unreasonably large variance.
+        self.var_bounds = self.variance_bounds(resids)
+        # Compute the starting values for MLE
+        # Starting values for the volatility process
+        var_params = self.starting_values(resids)
+        # Starting value for mu is the sample mean return
+        initial_mu = self.returns.mean()
+        # Starting values are [mu, omega, alpha, beta]
+        starting_vals = [initial_mu, *var_params]
+
+        return starting_vals if not self.zero_mean else var_params
+
+    def loglikelihood_model(
+        self,
+        params: np.ndarray,
+        backcast: float,
+        var_bounds: np.ndarray,
+        zero_mean=False,
+    ) -> float:
+        """Calculates the negative log-likelihood based on the current ``params``.
+        This function is used in optimization.
+
+        Args:
+            params (np.ndarray): [mu, omega, alpha, (gamma), beta]
+            backcast (float): backcast value
+            var_bounds (np.ndarray): variance bounds
+
+        Returns:
+            float: negative log-likelihood
+        """
+        if zero_mean:
+            resids = self.returns
+            self.sigma2 = self.compute_variance(params, resids, backcast, var_bounds)
+        else:
+            resids = self.returns - params[0]  # params[0] is mu
+            self.sigma2 = self.compute_variance(
+                params[1:], resids, backcast, var_bounds
+            )
+        return -self.loglikelihood(resids, self.sigma2)
+
+    @staticmethod
+    def loglikelihood(resids: np.ndarray, sigma2: np.ndarray) -> float:
+        """Computes the log-likelihood assuming residuals are
+        normally distributed conditional on the variance.
+
+        Args:
+            resids (np.ndarray): residuals to use in computing log-likelihood.
+            sigma2 (np.ndarray): conditional variance of residuals.
+
+        Returns:
+            float: log-likelihood
+        """
+        l = -0.5 * (np.log(2 * np.pi) + np.log(sigma2) + resids**2.0 / sigma2)
+        return np.sum(l)
+
+    @staticmethod
+    def compute_variance(
+        params: List[float],
+        resids: np.ndarray,
+        backcast: float,
+        var_bounds: np.ndarray,
+    ) -> np.ndarray:
+        """Computes the variances conditional on given parameters
+
+        Args:
+            params (List[float]): [omega, alpha, beta]
+            resids (np.ndarray): residuals from mean equation
+            backcast (float): backcast value
+            var_bounds (np.ndarray): variance bounds
+
+        Returns:
+            np.ndarray: conditional variance
+        """
+        if USE_CPP_EXTENSION:
+            return ext.compute_garch_variance(params, resids, backcast, var_bounds)
+        omega, alpha, beta = params
+        sigma2 = np.zeros_like(resids)
+        sigma2[0] = omega + (alpha + beta) * backcast
+        for t in range(1, len(resids)):
+            sigma2[t] = omega + alpha * (resids[t - 1] ** 2) + beta * sigma2[t - 1]
+            sigma2[t] = GARCHModel.bounds_check(sigma2[t], var_bounds[t])
+        return sigma2
+
+    def starting_values(self, resids: np.ndarray) -> List[float]:
+        """Finds the optimal initial values for the volatility model via a grid
+        search. For varying target persistence and alpha values, return the
+        combination of alpha and beta that gives the highest loglikelihood.
+
+        Args:
+            resids (np.ndarray): residuals from the mean model
+
+        Returns:
+            List[float]: [omega, alpha, beta]
+        """
+        # Candidate target persistence - we don't have a prior knowledge here
+        persistence_grid = [0.5, 0.7, 0.9, 0.98]
+        # Candidate alpha values
+        alpha_grid = [0.01, 0.05, 0.1, 0.2]
+        # Sample variance
+        var = self.returns.var()
+        # Backcast initial value for the volaility process
+        initial_params = []
+        max_likelihood = -np.inf
+        for alpha, p in itertools.product(*[alpha_grid, persistence_grid]):
+            # Note that (alpha+beta) is the "persistence"
+            beta = p - alpha
+            # Note that the unconditional variance is omega/(1-persistence).
+            # As we are guessing the initial value, we use the sample variance
+            # as the unconditional variance to guess the omega value.
+            omega = var * (1 - p)
+            params = [omega, alpha, beta]
+            sigma2 = self.compute_variance(
+                params, resids, self.backcast_value, self.var_bounds
+            )
+            if -self.loglikelihood(resids, sigma2) > max_likelihood:
+                initial_params = params
+        return initial_params
+
+    @staticmethod
+    def variance_bounds(resids: np.ndarray) -> np.ndarray:
+        """Compute bounds for conditional variances using EWMA.
+
+        This function calculates the lower and upper bounds for conditional variances
+        based on the residuals provided. The bounds are computed to ensure numerical
+        stability during the parameter estimation process of GARCH models. The function
+        uses Exponentially Weighted Moving Average (EWMA) to estimate the initial variance
+        and then adjusts these estimates to lie within global bounds.
+
+        Args:
+            resids (np.ndarray): residuals from the mean model.
+
+        Returns:
+            np.ndarray: an array where each row contains the lower and upper bounds for the conditional variance at each time point.
+        """
+
+        T = len(resids)
+        tau = min(75, T)
+        # Compute initial variance using EWMA
+        decay_factor = 0.94
+        weights = decay_factor ** np.arange(tau)
+        weights /= weights.sum()
+        initial_variance = np.dot(weights, resids[:tau] ** 2)
+        # Compute var_bound using EWMA (assuming ewma_recursion is defined)
+        var_bound = GARCHModel.ewma(resids, initial_variance)
+        # Compute global bounds
+        global_lower_bound = resids.var() / 1e8
+        global_upper_bound = 1e7 * (1 + (resids**2).max())
+        # Adjust var_bound to ensure it lies within global bounds
+        var_bound = np.clip(var_bound, global_lower_bound, global_upper_bound)
+        # Create bounds matrix
+        var_bounds = np.vstack((var_bound / 1e6, var_bound * 1e6)).T
+
+        return np.ascontiguousarray(var_bounds)
+
+    @staticmethod
+    def bounds_check(sigma2: float, var_bounds: np.ndarray) -> float:
+        """Adjust the conditional variance at time t based on its bounds
+
+        Args:
+            sigma2 (float): conditional variance
+            var_bounds (np.ndarray): lower and upper bounds
+
+        Returns:
+            float: adjusted conditional variance
+        """
+        if USE_CPP_EXTENSION:
+            return ext.bounds_check(sigma2, var_bounds)
+        lower, upper = var_bounds[0], var_bounds[1]
+        sigma2 = max(lower, sigma2)
+        if sigma2 > upper:
+            if not np.isinf(sigma2):
+                sigma2 = upper + np.log(sigma2 / upper)
+            else:
+                sigma2 = upper + 1000
+        return sigma2
+
+    @staticmethod
+    def backcast(resids: np.ndarray) -> float:
+        """Computes the starting value for estimating conditional variance.
+
+        Args:
+            resids (np.ndarray): residuals
+
+        Returns:
+            float: initial value from backcasting
+        """
+        # Limit to first tau observations to reduce computation
+        tau = min(75, resids.shape[0])
+        # Weights for Exponential Weighted Moving Average (EWMA)
+        w = 0.94 ** np.arange(tau)
+        w = w / sum(w)  # Ensure weights add up to 1
+        # Let the initial value to be the EWMA of first tau observations
+        return float(np.sum((resids[:tau] ** 2) * w))
+
+    @staticmethod
+    def ewma(resids: np.ndarray, initial_value: float, lam=0.94) -> np.ndarray:
+        """Compute the conditional variance estimates using
+        Exponentially Weighted Moving Average (EWMA).
+
+        Args:
+            resids (np.ndarray): Residuals from the model.
+            initial_value (float): Initial value for the conditional variance.
+            lam (float): Decay factor for the EWMA.
+
+        Returns:
+            np.ndarray: Array containing the conditional variance estimates.
+        """
+        if USE_CPP_EXTENSION:
+            return ext.ewma(resids, initial_value, lam)
+        T = len(resids)
+        variance = np.empty(T)
+        variance[0] = initial_value  # Set the initial value
+        # Compute the squared residuals
+        squared_resids = resids**2
+        # Compute the EWMA using the decay factors and squared residuals
+        for t in range(1, T):
+            variance[t] = lam * variance[t - 1] + (1 - lam) * squared_resids[t - 1]
+        return variance
+
+
+class GJRGARCHModel(GARCHModel):
+    """:doc:`/algorithms/gjr-garch` model with constant mean and Normal noise
+
+    It estimates the model parameters only. No standard errors calculated.
+
+    This code is heavily based on the `arch <https://arch.readthedocs.io/>`_.
+    Modifications are made for easier understaing of the code flow.
+    """
+
+    @dataclass
+    class Parameters:
+        mu: float = np.nan
+        omega: float = np.nan
+        alpha: float = np.nan
+        gamma: float = np.nan
+        beta: float = np.nan
+        loglikelihood: float = np.nan
+
+    def fit(self) -> Parameters:
+        """Estimates the GJR-GARCH(1,1) parameters via MLE
+
+        Returns:
+            List[float]: [mu, omega, alpha, gamma, beta, loglikelihood]
+        """
+        starting_vals = self.preparation()
+
+        bounds = [
+            (-np.inf, np.inf),  # No bounds for mu
+            (1e-6, np.inf),  # Lower bound for omega
+            (1e-6, 1.0),  # Bounds for alpha
+            (1e-6, 1.0),  # Bounds for gamma
+            (1e-6, 1.0),  # Boudns for beta
+        ]
+        if self.zero_mean:
+            bounds = bounds[1:]
+
+        # Set constraint for stationarity
+        def persistence_smaller_than_one(params: List[float]):
+            alpha, gamma, beta = params[-3:]
+            return 1.0 - (alpha + beta + gamma / 2)
+
+        # MLE via minimizing the negative log-likelihood
+        with warnings.catch_warnings():
+            warnings.filterwarnings(
+                "ignore",
+                "Values in x were outside bounds during a minimize step",
+                RuntimeWarning,
+            )
+            opt: OptimizeResult = minimize(
+                self.loglikelihood_model,
+                starting_vals,
+                args=(self.backcast_value, self.var_bounds, self.zero_mean),
+                method="SLSQP",
+                bounds=bounds,
+                constraints={"type": "ineq", "fun": persistence_smaller_than_one},
+            )
+            if opt.success:
+                self.estimation_success = True
+                if self.zero_mean:
+                    self.parameters = type(self).Parameters(
+                        0.0, *list(opt.x), loglikelihood=-opt.fun
+                    )
+                else:
+                    self.parameters = type(self).Parameters(
+                        *list(opt.x), loglikelihood=-opt.fun
+                    )
+                self.resids = self.returns - self.parameters.mu
+
+        return self.parameters
+
+    @staticmethod
+    def compute_variance(
+        params: List[float],
+        resids: np.ndarray,
+        backcast: float,
+        var_bounds: np.ndarray,
+    ) -> np.ndarray:
+        """Computes the variances conditional on given parameters
+
+        Args:
+            params (List[float]): [omega, alpha, gamma, beta]
+            resids (np.ndarray): residuals from mean equation
+            backcast (float): backcast value
+            var_bounds (np.ndarray): variance bounds
+
+        Returns:
+            np.ndarray: conditional variance
+        """
+        if USE_CPP_EXTENSION:
+            return ext.compute_gjrgarch_variance(params, resids, backcast, var_bounds)
+        # fmt: off
+        omega, alpha, gamma, beta = params
+        sigma2 = np.zeros_like(resids)
+        sigma2[0] = omega + (alpha + gamma/2 + beta) * backcast
+        for t in range(1, len(resids)):
+            sigma2[t] = omega + alpha * (resids[t - 1] ** 2) + beta * sigma2[t - 1]
+            sigma2[t] += gamma * resids[t - 1] ** 2 if resids[t - 1] < 0 else 0
+            sigma2[t] = GJRGARCHModel.bounds_check(sigma2[t], var_bounds[t])
+        return sigma2
+
+    @staticmethod
+    def forecast_variance(
+        params: Parameters,
+        resids: np.ndarray,
+        initial_variance: float,
+    ) -> np.ndarray:
+        """Forecast the variances conditional on given parameters and residuals.
+
+        Args:
+            params (Parameters): :class:`frds.algorithms.GJRGARCHModel.Parameters`
+            resids (np.ndarray): residuals to use
+            initial_variance (float): starting value of variance forecasts
+
+        Returns:
+            np.ndarray: conditional variance
+        """
+        # fmt: off
+        omega, alpha, gamma, beta = params.omega, params.alpha, params.gamma, params.beta
+        sigma2 = np.zeros_like(resids)
+        sigma2[0] = initial_variance
+        for t in range(1, len(resids)):
+            sigma2[t] = omega + alpha * (resids[t - 1] ** 2) + beta * sigma2[t - 1]
+            sigma2[t] += gamma * resids[t - 1] ** 2 if resids[t - 1] < 0 else 0
+        return sigma2[1:]
+
+    def starting_values(self, resids: np.ndarray) -> List[float]:
+        """Finds the optimal initial values for the volatility model via a grid
+        search. For varying target persistence and alpha values, return the
+        combination of alpha and beta that gives the highest loglikelihood.
+
+        Args:
+            resids (np.ndarray): residuals from the mean model
+
+        Returns:
+            List[float]: [omega, alpha, gamma, beta]
+        """
+        # Candidate target persistence - we don't have a prior knowledge here
+        persistence_grid = [0.5, 0.7, 0.9, 0.98]
+        # Candidate alpha values
+        alpha_grid = [0.01, 0.05, 0.1, 0.2]
+        gamma_grid = alpha_grid
+        # Sample variance
+        var = self.returns.var()
+        # Backcast initial value for the volaility process
+        var_bounds = self.variance_bounds(resids)
+        backcast = self.backcast(resids)
+        initial_params = []
+        max_likelihood = -np.inf
+        # fmt: off
+        for alpha, gamma, p in itertools.product(*[alpha_grid, gamma_grid, persistence_grid]):
+            # Note that (alpha+beta) is the "persistence"
+            beta = p - alpha - gamma/2
+            # Note that the unconditional variance is omega/(1-persistence).
+            # As we are guessing the initial value, we use the sample variance
+            # as the unconditional variance to guess the omega value.
+            omega = var * (1 - p)
+            params = [omega, alpha, gamma, beta]
+            sigma2 = self.compute_variance(params, resids, backcast, var_bounds)
+            if -self.loglikelihood(resids, sigma2) > max_likelihood:
+                initial_params = params
+        return initial_params
+
+
+if __name__ == "__main__":
+    import pandas as pd
+    from pprint import pprint
+
+    df = pd.read_stata(
+        "https://www.stata-press.com/data/r18/stocks.dta", convert_dates=["date"]
+    )
+    df.set_index("date", inplace=True)
+    # Scale returns to percentage returns for better optimization results
+    returns = df["nissan"].to_numpy() * 100
+
+    g = GARCHModel(returns)
+    res = g.fit()
+    pprint(res)
+
+    gjr = GJRGARCHModel(returns)
+    res = gjr.fit()
+    pprint(res)
+
+    from arch import arch_model
+
+    m = arch_model(returns, p=1, o=1, q=1)
+    print(m.fit(disp=False))
-- 
2.43.0


From 7e7393fc51eac8c3bae58755a0b58d258f2be3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:15 +0000
Subject: [PATCH 02/45] fix: GJRGARCHModel.fit does not estimate an estimated
 model again

---
 src/frds/algorithms/_garch.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/frds/algorithms/_garch.py b/src/frds/algorithms/_garch.py
index eafbb33..77ac245 100644
--- a/src/frds/algorithms/_garch.py
+++ b/src/frds/algorithms/_garch.py
@@ -359,6 +359,10 @@ class GJRGARCHModel(GARCHModel):
         Returns:
             List[float]: [mu, omega, alpha, gamma, beta, loglikelihood]
         """
+        # No repeated estimation
+        if self.estimation_success:
+            return self.parameters
+
         starting_vals = self.preparation()
 
         bounds = [
-- 
2.43.0


From c84108a7ceacb04f446fdaa8f2589478c9a8d952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:15 +0000
Subject: [PATCH 03/45] fix: GARCH and GJR-GARCH grid search keeps the starting
 values with the highest loglikelihood

---
 src/frds/algorithms/_garch.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/frds/algorithms/_garch.py b/src/frds/algorithms/_garch.py
index 77ac245..17f50b0 100644
--- a/src/frds/algorithms/_garch.py
+++ b/src/frds/algorithms/_garch.py
@@ -229,7 +229,9 @@ class GARCHModel:
             sigma2 = self.compute_variance(
                 params, resids, self.backcast_value, self.var_bounds
             )
-            if -self.loglikelihood(resids, sigma2) > max_likelihood:
+            likelihood = self.loglikelihood(resids, sigma2)
+            if likelihood > max_likelihood:
+                max_likelihood = likelihood
                 initial_params = params
         return initial_params
 
@@ -497,7 +499,9 @@ class GJRGARCHModel(GARCHModel):
             omega = var * (1 - p)
             params = [omega, alpha, gamma, beta]
             sigma2 = self.compute_variance(params, resids, backcast, var_bounds)
-            if -self.loglikelihood(resids, sigma2) > max_likelihood:
+            likelihood = self.loglikelihood(resids, sigma2)
+            if likelihood > max_likelihood:
+                max_likelihood = likelihood
                 initial_params = params
         return initial_params
 
-- 
2.43.0


From e699f5dc4d83c7677a1919145c7e871859a15049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:15 +0000
Subject: [PATCH 04/45] fix: DCC grid search keeps the starting values with the
 highest loglikelihood

---
 src/frds/algorithms/_mgarch.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/frds/algorithms/_mgarch.py b/src/frds/algorithms/_mgarch.py
index c2c8a14..f38fdf3 100644
--- a/src/frds/algorithms/_mgarch.py
+++ b/src/frds/algorithms/_mgarch.py
@@ -313,6 +313,7 @@ class GARCHModel_DCC(GARCHModel_CCC):
                 continue
             ll = -self.loglikelihood_model([a, b])
             if ll > max_ll:
+                max_ll = ll
                 initial_values = [a, b]
         return initial_values
 
-- 
2.43.0


From e20f13770903fbaec37cfc14fddc271e791615e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:31 +0000
Subject: [PATCH 05/45] fix: conditional variances after GARCH and GJR-GARCH
 fits are those at the estimates

---
 src/frds/algorithms/_garch.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/frds/algorithms/_garch.py b/src/frds/algorithms/_garch.py
index 17f50b0..9384ebe 100644
--- a/src/frds/algorithms/_garch.py
+++ b/src/frds/algorithms/_garch.py
@@ -98,6 +98,13 @@ class GARCHModel:
                 else:
                     self.parameters = type(self).Parameters(*list(opt.x), loglikelihood=-opt.fun)
                 self.resids = self.returns - self.parameters.mu
+                # The optimizer's last evaluation need not be at the estimates
+                self.sigma2 = self.compute_variance(
+                    opt.x if self.zero_mean else opt.x[1:],
+                    self.resids,
+                    self.backcast_value,
+                    self.var_bounds,
+                )
 
         return self.parameters
 
@@ -408,6 +415,13 @@ class GJRGARCHModel(GARCHModel):
                         *list(opt.x), loglikelihood=-opt.fun
                     )
                 self.resids = self.returns - self.parameters.mu
+                # The optimizer's last evaluation need not be at the estimates
+                self.sigma2 = self.compute_variance(
+                    opt.x if self.zero_mean else opt.x[1:],
+                    self.resids,
+                    self.backcast_value,
+                    self.var_bounds,
+                )
 
         return self.parameters
 
-- 
2.43.0


From d467ee66f65ca874ff31202c06ccb6cf7f387d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:23 +0000
Subject: [PATCH 06/45] fix: an isolation tree is grown on its own sample only

The sample vector of a worker was never emptied, so every further tree of the
worker was also grown on the samples of its earlier trees.
---
 src/frds/algorithms/isolation_forest/IsolationForest.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/frds/algorithms/isolation_forest/IsolationForest.cpp b/src/frds/algorithms/isolation_forest/IsolationForest.cpp
index 576d94b..8b7bd26 100644
--- a/src/frds/algorithms/isolation_forest/IsolationForest.cpp
+++ b/src/frds/algorithms/isolation_forest/IsolationForest.cpp
@@ -162,6 +162,7 @@ std::thread IsolationForest::grow(const unsigned int thread_id,
       // The samples chosen and tree grown is thus determined by the number of
       // trees and random seed only, unaffected by the worker threads used
       static thread_local auto randomGen = std::mt19937_64(i + random_offset);
+      sample.clear();
       std::sample(obs.begin(), obs.end(), std::back_inserter(sample),
                   this->treeSize, randomGen);
       auto tree = std::make_unique<IsolationTree>();
-- 
2.43.0


From dccc34517f3b0e2ada4ea9de25fc0ab0a683243f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 07/45] fix: isolation forest does not depend on the number of
 workers or their schedule

The i-th tree was seeded by the first index its worker happened to start at,
worker indices overlapped when the forest size was not a multiple of the number
of workers, and trees were kept in completion order.
---
 .../isolation_forest/IsolationForest.cpp      | 22 +++++++++----------
 .../isolation_forest/IsolationForest.hpp      |  4 +---
 2 files changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/frds/algorithms/isolation_forest/IsolationForest.cpp b/src/frds/algorithms/isolation_forest/IsolationForest.cpp
index 8b7bd26..d12fabe 100644
--- a/src/frds/algorithms/isolation_forest/IsolationForest.cpp
+++ b/src/frds/algorithms/isolation_forest/IsolationForest.cpp
@@ -94,7 +94,7 @@ IsolationForest::IsolationForest(PyArrayObject *num_data,
       nObs(PyArray_DIM(num_data, 1)) {
   this->num_data = num_data;
   this->char_data = char_data;
-  this->trees.reserve(forestSize);
+  this->trees.resize(forestSize);
   this->anomalyScores.resize(this->nObs);
   // this->randomGen = std::mt19937_64(randomSeed);
   this->uniformDist =
@@ -145,9 +145,8 @@ double IsolationForest::pathLength(size_t const &ob,
   }
 }
 
-std::thread IsolationForest::grow(const unsigned int thread_id,
-                                  const unsigned int jobs) {
-  return std::thread([this, thread_id, jobs] {
+std::thread IsolationForest::grow(const size_t first, const size_t jobs) {
+  return std::thread([this, first, jobs] {
     // Make a vector from 0 to (nObs-1) representing the indices of observations
     std::vector<size_t> obs(this->nObs);
     std::iota(obs.begin(), obs.end(), 0);
@@ -156,20 +155,19 @@ std::thread IsolationForest::grow(const unsigned int thread_id,
     auto random_offset =
         this->nObs %
         (this->randomSeed > 0 ? this->randomSeed : 1 - this->randomSeed);
-    for (size_t i = thread_id * jobs; i < thread_id * jobs + jobs; i++) {
+    for (size_t i = first; i < first + jobs; i++) {
       // Sample `treeSize` observations without replacement
       // Random engine for the i-th sampling and tree construction
       // The samples chosen and tree grown is thus determined by the number of
       // trees and random seed only, unaffected by the worker threads used
-      static thread_local auto randomGen = std::mt19937_64(i + random_offset);
+      auto randomGen = std::mt19937_64(i + random_offset);
       sample.clear();
       std::sample(obs.begin(), obs.end(), std::back_inserter(sample),
                   this->treeSize, randomGen);
       auto tree = std::make_unique<IsolationTree>();
       growTree(sample, tree->root, 0, randomGen);
-      this->mylock.lock();
-      this->trees.push_back(std::move(tree));
-      this->mylock.unlock();
+      // no need to lock because the i-th tree is grown in one thread
+      this->trees[i] = std::move(tree);
     }
   });
 };
@@ -181,12 +179,14 @@ void IsolationForest::grow() {
 
   Py_BEGIN_ALLOW_THREADS
 
-      for (size_t i = 0; i < this->workers; i++) {
+      size_t first = 0;
+  for (size_t i = 0; i < this->workers; i++) {
     auto jobs =
         i == 0 ? this->forestSize - jobs_per_processor * (this->workers - 1)
                : jobs_per_processor;
-    auto t = this->grow(i, jobs);
+    auto t = this->grow(first, jobs);
     ts.push_back(std::move(t));
+    first += jobs;
   }
 
   for (auto &t : ts) {
diff --git a/src/frds/algorithms/isolation_forest/IsolationForest.hpp b/src/frds/algorithms/isolation_forest/IsolationForest.hpp
index e7c2ffd..93a6371 100644
--- a/src/frds/algorithms/isolation_forest/IsolationForest.hpp
+++ b/src/frds/algorithms/isolation_forest/IsolationForest.hpp
@@ -3,7 +3,6 @@
 
 #define NPY_NO_DEPRECATED_API NPY_1_7_API_VERSION
 #include <memory>
-#include <mutex>
 #include <random>
 #include <thread>
 #include <vector>
@@ -52,7 +51,6 @@ class IsolationForest {
   const size_t n_num_attrs, n_char_attrs, nObs;
   const unsigned int workers = std::thread::hardware_concurrency();
   std::vector<std::unique_ptr<IsolationTree>> trees;
-  std::mutex mylock;
 
   /* methods */
   inline double averagePathLength(size_t const &nObs);
@@ -61,7 +59,7 @@ class IsolationForest {
   void growTree(std::vector<size_t> &sample,
                 std::unique_ptr<IsolationTree::Node> &node, int const height,
                 std::mt19937_64 randomGen);
-  std::thread grow(const unsigned int thread_id, const unsigned int jobs);
+  std::thread grow(const size_t first, const size_t jobs);
   std::thread calAnomalyScores(const size_t &start_ob, const size_t &n);
   double anomalyScore(size_t const &ob);
 
-- 
2.43.0


From 729bd76934d249391cc2aad351d0197108e44adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:54 +0000
Subject: [PATCH 08/45] fix: isolation forest scores a missing value along the
 branch it was grown on

---
 src/frds/algorithms/isolation_forest/IsolationForest.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/frds/algorithms/isolation_forest/IsolationForest.cpp b/src/frds/algorithms/isolation_forest/IsolationForest.cpp
index d12fabe..d293e21 100644
--- a/src/frds/algorithms/isolation_forest/IsolationForest.cpp
+++ b/src/frds/algorithms/isolation_forest/IsolationForest.cpp
@@ -123,7 +123,8 @@ double IsolationForest::pathLength(size_t const &ob,
   if (node->splitAttribute < this->n_num_attrs) {
     DataType val =
         *(DataType *)PyArray_GETPTR2(this->num_data, node->splitAttribute, ob);
-    if (val < node->splitValue) {
+    // An observation takes the branch it took when the tree was grown
+    if (isnan(val) || val < node->splitValue) {
       return this->pathLength(ob, node->lnode, length + 1);
     } else {
       return this->pathLength(ob, node->rnode, length + 1);
-- 
2.43.0


From 903d5218527a4505a1ec52b498cba2d6fc753c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 09/45] fix: isolation forest compares strings within their own
 element only

Fixed-width elements are not null-terminated when they fill the item size, so
strlen/strcmp ran on into the strings of the following observations.
---
 .../isolation_forest/IsolationForest.cpp         | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/frds/algorithms/isolation_forest/IsolationForest.cpp b/src/frds/algorithms/isolation_forest/IsolationForest.cpp
index d293e21..3351a40 100644
--- a/src/frds/algorithms/isolation_forest/IsolationForest.cpp
+++ b/src/frds/algorithms/isolation_forest/IsolationForest.cpp
@@ -2,6 +2,7 @@
 
 #include <algorithm>
 #include <cmath>
+#include <cstring>
 #include <iterator>
 #include <numeric>
 
@@ -57,16 +58,18 @@ void IsolationForest::growTree(std::vector<size_t> &sample,
     // The datatype of the attribute is string
     CharDataType val = (CharDataType)PyArray_GETPTR2(
         this->char_data, attr - this->n_num_attrs, sample[dist(randomGen)]);
-    const auto val_len = strlen(val);
+    // An element as long as the item size is not null-terminated
+    const size_t max_len = PyArray_ITEMSIZE(this->char_data);
+    const auto val_len = strnlen(val, max_len);
     for (auto &i : sample) {
       auto obsVal = (CharDataType)PyArray_GETPTR2(this->char_data,
                                                   attr - this->n_num_attrs, i);
-      const auto obsVal_len = strlen(obsVal);
+      const auto obsVal_len = strnlen(obsVal, max_len);
       if (obsVal_len < val_len) {
         lobs.push_back(i);
       } else if (obsVal_len > val_len) {
         robs.push_back(i);
-      } else if (strcmp(obsVal, val) < 0) {
+      } else if (strncmp(obsVal, val, val_len) < 0) {
         lobs.push_back(i);
       } else {
         robs.push_back(i);
@@ -132,13 +135,14 @@ double IsolationForest::pathLength(size_t const &ob,
   } else {
     CharDataType val = (CharDataType)PyArray_GETPTR2(
         this->char_data, node->splitAttribute - this->n_num_attrs, ob);
-    const auto val_len = strlen(val);
-    const auto splitVal_len = strlen(node->splitChar);
+    const size_t max_len = PyArray_ITEMSIZE(this->char_data);
+    const auto val_len = strnlen(val, max_len);
+    const auto splitVal_len = strnlen(node->splitChar, max_len);
     if (val_len < splitVal_len) {
       return this->pathLength(ob, node->lnode, length + 1);
     } else if (val_len > splitVal_len) {
       return this->pathLength(ob, node->rnode, length + 1);
-    } else if (strcmp(val, node->splitChar) < 0) {
+    } else if (strncmp(val, node->splitChar, val_len) < 0) {
       return this->pathLength(ob, node->lnode, length + 1);
     } else {
       return this->pathLength(ob, node->rnode, length + 1);
-- 
2.43.0


From 7d9dec0e21491fe10099c46fe5c1881543be1fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:45 +0000
Subject: [PATCH 10/45] fix: DCC extension uses the unconditional correlation
 matrix of standardized residuals

As documented and as the Python implementation does: uncentred second moments
differ from the correlation matrix whenever the residuals are not exactly
standardized, so results depended on whether the extension was available.
---
 src/frds/algorithms/utils/mgarch.hpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/frds/algorithms/utils/mgarch.hpp b/src/frds/algorithms/utils/mgarch.hpp
index 7db5f1f..65ac078 100644
--- a/src/frds/algorithms/utils/mgarch.hpp
+++ b/src/frds/algorithms/utils/mgarch.hpp
@@ -26,16 +26,21 @@ std::vector<double> conditional_correlations(double a, double b,
   }
 
   // Compute Q_bar (correlation matrix)
-  // Since z1 z2 have zero mean, covariance matrix is same as correlation matrix
-  double q_11_bar = 0.0, q_12_bar = 0.0, q_22_bar = 0.0;
+  double z1_mean = 0.0, z2_mean = 0.0;
   for (int t = 0; t < T; ++t) {
-    q_11_bar += z1[t] * z1[t];
-    q_12_bar += z1[t] * z2[t];
-    q_22_bar += z2[t] * z2[t];
+    z1_mean += z1[t];
+    z2_mean += z2[t];
   }
-  q_11_bar /= T;
-  q_12_bar /= T;
-  q_22_bar /= T;
+  z1_mean /= T;
+  z2_mean /= T;
+  double var1 = 0.0, cov = 0.0, var2 = 0.0;
+  for (int t = 0; t < T; ++t) {
+    var1 += (z1[t] - z1_mean) * (z1[t] - z1_mean);
+    cov += (z1[t] - z1_mean) * (z2[t] - z2_mean);
+    var2 += (z2[t] - z2_mean) * (z2[t] - z2_mean);
+  }
+  double q_11_bar = 1.0, q_12_bar = cov / std::sqrt(var1 * var2),
+         q_22_bar = 1.0;
 
   // Initialize q11, q12, q22
   std::vector<double> q11(T);
-- 
2.43.0


From 288fe31926708e2d0e9deaaeac4688c6b52ed721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:21 +0000
Subject: [PATCH 11/45] fix: GARCH extension reads arrays of any layout and
 numeric type

Strided, Fortran-ordered or non-float64 arrays were read as if they were
contiguous doubles.
---
 src/frds/algorithms/utils/utils_module.cpp | 61 ++++++++++++++++++++++
 1 file changed, 61 insertions(+)

diff --git a/src/frds/algorithms/utils/utils_module.cpp b/src/frds/algorithms/utils/utils_module.cpp
index dba85ae..8e90773 100644
--- a/src/frds/algorithms/utils/utils_module.cpp
+++ b/src/frds/algorithms/utils/utils_module.cpp
@@ -13,6 +13,13 @@
 
 #include "numpy/arrayobject.h"
 
+// A contiguous array of doubles with the values of the given array, as the core
+// functions below expect. Returns a new reference.
+static PyArrayObject *as_doubles(PyArrayObject *array) {
+  return (PyArrayObject *)PyArray_FROM_OTF((PyObject *)array, NPY_DOUBLE,
+                                           NPY_ARRAY_IN_ARRAY);
+}
+
 // The wrapper function to be called from Python
 static PyObject *ewma_wrapper(PyObject *self, PyObject *args) {
   PyArrayObject *resids_in;
@@ -24,11 +31,17 @@ static PyObject *ewma_wrapper(PyObject *self, PyObject *args) {
     return NULL;
   }
 
+  resids_in = as_doubles(resids_in);
+  if (resids_in == NULL) {
+    return NULL;
+  }
+
   // Construct the output array
   int T = PyArray_DIM(resids_in, 0);
   npy_intp dims[1] = {T};
   PyObject *variance_out = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
   if (variance_out == NULL) {
+    Py_DECREF(resids_in);
     return NULL;
   }
 
@@ -36,6 +49,7 @@ static PyObject *ewma_wrapper(PyObject *self, PyObject *args) {
   ewma((double *)PyArray_DATA(resids_in),
        (double *)PyArray_DATA((PyArrayObject *)variance_out), T, initial_value,
        lam);
+  Py_DECREF(resids_in);
 
   return variance_out;
 }
@@ -50,10 +64,16 @@ static PyObject *bounds_check_wrapper(PyObject *self, PyObject *args) {
     return NULL;
   }
 
+  var_bounds_in = as_doubles(var_bounds_in);
+  if (var_bounds_in == NULL) {
+    return NULL;
+  }
+
   // Extract lower and upper bounds
   double *bounds_ptr = (double *)PyArray_DATA(var_bounds_in);
   double lower = bounds_ptr[0];
   double upper = bounds_ptr[1];
+  Py_DECREF(var_bounds_in);
 
   // Call the core bounds_check function
   double result = bounds_check(sigma2, lower, upper);
@@ -91,11 +111,21 @@ static PyObject *compute_garch_variance_wrapper(PyObject *self,
   }
   Py_DECREF(iter);
 
+  resids_in = as_doubles(resids_in);
+  var_bounds_in = as_doubles(var_bounds_in);
+  if (resids_in == NULL || var_bounds_in == NULL) {
+    Py_XDECREF(resids_in);
+    Py_XDECREF(var_bounds_in);
+    return NULL;
+  }
+
   // Construct the output array
   int T = PyArray_DIM(resids_in, 0);
   npy_intp dims[1] = {T};
   PyObject *sigma2_out = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
   if (sigma2_out == NULL) {
+    Py_DECREF(resids_in);
+    Py_DECREF(var_bounds_in);
     return NULL;
   }
 
@@ -104,6 +134,8 @@ static PyObject *compute_garch_variance_wrapper(PyObject *self,
                          (double *)PyArray_DATA(resids_in),
                          (double *)PyArray_DATA(var_bounds_in), T, params,
                          backcast);
+  Py_DECREF(resids_in);
+  Py_DECREF(var_bounds_in);
 
   return sigma2_out;
 }
@@ -138,11 +170,21 @@ static PyObject *compute_gjrgarch_variance_wrapper(PyObject *self,
   }
   Py_DECREF(iter);
 
+  resids_in = as_doubles(resids_in);
+  var_bounds_in = as_doubles(var_bounds_in);
+  if (resids_in == NULL || var_bounds_in == NULL) {
+    Py_XDECREF(resids_in);
+    Py_XDECREF(var_bounds_in);
+    return NULL;
+  }
+
   // Construct the output array
   int T = PyArray_DIM(resids_in, 0);
   npy_intp dims[1] = {T};
   PyObject *sigma2_out = PyArray_SimpleNew(1, dims, NPY_DOUBLE);
   if (sigma2_out == NULL) {
+    Py_DECREF(resids_in);
+    Py_DECREF(var_bounds_in);
     return NULL;
   }
 
@@ -151,6 +193,8 @@ static PyObject *compute_gjrgarch_variance_wrapper(PyObject *self,
                             (double *)PyArray_DATA(resids_in),
                             (double *)PyArray_DATA(var_bounds_in), T, params,
                             backcast);
+  Py_DECREF(resids_in);
+  Py_DECREF(var_bounds_in);
 
   return sigma2_out;
 }
@@ -169,8 +213,25 @@ static PyObject *dcc_conditional_correlations_wrapper(PyObject *self,
     return NULL;
   }
 
+  resids1 = as_doubles(resids1);
+  resids2 = as_doubles(resids2);
+  sigma2_1 = as_doubles(sigma2_1);
+  sigma2_2 = as_doubles(sigma2_2);
+  if (resids1 == NULL || resids2 == NULL || sigma2_1 == NULL ||
+      sigma2_2 == NULL) {
+    Py_XDECREF(resids1);
+    Py_XDECREF(resids2);
+    Py_XDECREF(sigma2_1);
+    Py_XDECREF(sigma2_2);
+    return NULL;
+  }
+
   std::vector<double> rho =
       DCC::conditional_correlations(a, b, resids1, resids2, sigma2_1, sigma2_2);
+  Py_DECREF(resids1);
+  Py_DECREF(resids2);
+  Py_DECREF(sigma2_1);
+  Py_DECREF(sigma2_2);
 
   npy_intp dims[1] = {static_cast<npy_intp>(rho.size())};
   PyArrayObject *py_rho =
-- 
2.43.0


From 6f700fb20c4b1c44c6d0570628bc658ed9198268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 12/45] fix: aggregate SRISK of a single firm

The SRISK of a single firm is a float, which has no clip method.
---
 src/frds/measures/_srisk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frds/measures/_srisk.py b/src/frds/measures/_srisk.py
index b709b6c..2819e02 100644
--- a/src/frds/measures/_srisk.py
+++ b/src/frds/measures/_srisk.py
@@ -94,4 +94,4 @@ class SRISK:
         if not aggregate_srisk:
             return srisk
         else:
-            return np.sum(srisk.clip(min=0.0))
+            return np.sum(np.maximum(srisk, 0.0))
-- 
2.43.0


From 87ad16f76097cf03ad4777ac47687f71b2af7424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 13/45] fix: absorption ratio uses the real eigenvalues of the
 symmetric covariance matrix

eigvals returned complex numbers for some (nearly) singular covariance matrices,
so the estimate was complex.
---
 src/frds/measures/_absorption_ratio.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/frds/measures/_absorption_ratio.py b/src/frds/measures/_absorption_ratio.py
index 14f88e4..d7c25af 100644
--- a/src/frds/measures/_absorption_ratio.py
+++ b/src/frds/measures/_absorption_ratio.py
@@ -48,4 +48,5 @@ class AbsorptionRatio:
         Returns:
             np.ndarray: eigenvalues
         """
-        return np.linalg.eigvals(self.asset_covariance)
+        # The covariance matrix is symmetric: its eigenvalues are real
+        return np.linalg.eigvalsh(self.asset_covariance)
-- 
2.43.0


From 1837dac3bb6961c3a478f9bc4a3dc7a442cd2f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 14/45] fix: distress insurance premium has a slot for the
 maximum losses

Losses above N-0.01 raised IndexError.
---
 src/frds/measures/_distress_insurance_premium.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/frds/measures/_distress_insurance_premium.py b/src/frds/measures/_distress_insurance_premium.py
index 37dea74..ee49fd6 100644
--- a/src/frds/measures/_distress_insurance_premium.py
+++ b/src/frds/measures/_distress_insurance_premium.py
@@ -67,7 +67,8 @@ class DistressInsurancePremium:
         intervals = 100
         loss_given_default *= intervals
 
-        prob_losses = np.zeros(n_banks * intervals)
+        # The slots are 0 to N*100, the last one is for the maximum losses
+        prob_losses = np.zeros(n_banks * intervals + 1)
         for i in range(n_banks):
             for j in range(n_simulations):
                 # Multiply losses_given_default(i,j) by intervals to find the right slot
@@ -83,7 +84,7 @@ class DistressInsurancePremium:
         prob_great_losses = np.sum(prob_losses[pct_threshold * n_banks :])
 
         exp_losses = np.dot(
-            np.array(range(pct_threshold * n_banks, intervals * n_banks)),
+            np.array(range(pct_threshold * n_banks, intervals * n_banks + 1)),
             prob_losses[pct_threshold * n_banks :],
         ) / (100 * prob_great_losses)
 
-- 
2.43.0


From fd055f7b1e9c98b61080e43ad858496ebb4c814f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 15/45] fix: distress insurance premium does not lower the
 threshold by a rounding error

int(0.29 * 100) is 28.
---
 src/frds/measures/_distress_insurance_premium.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frds/measures/_distress_insurance_premium.py b/src/frds/measures/_distress_insurance_premium.py
index ee49fd6..bf98b0b 100644
--- a/src/frds/measures/_distress_insurance_premium.py
+++ b/src/frds/measures/_distress_insurance_premium.py
@@ -78,7 +78,7 @@ class DistressInsurancePremium:
 
         # Convert to probabilities
         prob_losses = prob_losses / n_simulations
-        pct_threshold = int(default_threshold * 100)
+        pct_threshold = int(round(default_threshold * 100, 8))
 
         # Find the probability that the losses are great than 0.15 the total liabilities i.e. > 0.15*N
         prob_great_losses = np.sum(prob_losses[pct_threshold * n_banks :])
-- 
2.43.0


From e3a55726c590bcdea52619db497d7518a2a73199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 16/45] fix: distress insurance premium is zero when no losses
 reach the threshold

It was NaN (0/0).
---
 src/frds/measures/_distress_insurance_premium.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/frds/measures/_distress_insurance_premium.py b/src/frds/measures/_distress_insurance_premium.py
index bf98b0b..7ed869f 100644
--- a/src/frds/measures/_distress_insurance_premium.py
+++ b/src/frds/measures/_distress_insurance_premium.py
@@ -83,6 +83,10 @@ class DistressInsurancePremium:
         # Find the probability that the losses are great than 0.15 the total liabilities i.e. > 0.15*N
         prob_great_losses = np.sum(prob_losses[pct_threshold * n_banks :])
 
+        # No losses reach the threshold, nothing to insure against
+        if prob_great_losses == 0:
+            return 0.0
+
         exp_losses = np.dot(
             np.array(range(pct_threshold * n_banks, intervals * n_banks + 1)),
             prob_losses[pct_threshold * n_banks :],
-- 
2.43.0


From 43c53705e653c9bf6ea7cbceeee7da5c75492754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:29 +0000
Subject: [PATCH 17/45] fix: modified Merton modules import blsprice from where
 it is

frds.measures.option_price does not exist, so they could not be imported.
---
 src/frds/measures/modified_merton/find_face_value_indiv.py | 2 +-
 src/frds/measures/modified_merton/merton_solution.py       | 2 +-
 src/frds/measures/modified_merton/mod_merton_simulation.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/frds/measures/modified_merton/find_face_value_indiv.py b/src/frds/measures/modified_merton/find_face_value_indiv.py
index 19de9fa..670d313 100644
--- a/src/frds/measures/modified_merton/find_face_value_indiv.py
+++ b/src/frds/measures/modified_merton/find_face_value_indiv.py
@@ -1,5 +1,5 @@
 import numpy as np
-from frds.measures.option_price import blsprice
+from frds.measures import blsprice
 
 
 def find_face_value_indiv(
diff --git a/src/frds/measures/modified_merton/merton_solution.py b/src/frds/measures/modified_merton/merton_solution.py
index d844421..fc1d910 100644
--- a/src/frds/measures/modified_merton/merton_solution.py
+++ b/src/frds/measures/modified_merton/merton_solution.py
@@ -3,7 +3,7 @@ from scipy.optimize import fsolve
 from scipy.stats import norm
 from typing import Tuple
 
-from frds.measures.option_price import blsprice
+from frds.measures import blsprice
 
 
 def merton_solution(
diff --git a/src/frds/measures/modified_merton/mod_merton_simulation.py b/src/frds/measures/modified_merton/mod_merton_simulation.py
index 07c3835..1cc1622 100644
--- a/src/frds/measures/modified_merton/mod_merton_simulation.py
+++ b/src/frds/measures/modified_merton/mod_merton_simulation.py
@@ -7,7 +7,7 @@ from scipy.stats import norm
 
 import matplotlib.pyplot as plt
 
-from frds.measures.option_price import blsprice
+from frds.measures import blsprice
 from frds.measures.modified_merton.merton_solution import merton_solution
 from frds.measures.modified_merton.mod_merton_computation import mod_merton_computation
 from frds.measures.modified_merton.mod_merton_create_lookup import (
-- 
2.43.0


From 3b370dc3509984320407b5083496da86af964ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:08 +0000
Subject: [PATCH 18/45] fix: PIN does not report an earlier estimation's
 success for a failed one

---
 src/frds/measures/_probability_of_informed_trading.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/frds/measures/_probability_of_informed_trading.py b/src/frds/measures/_probability_of_informed_trading.py
index b7e804b..89b473d 100644
--- a/src/frds/measures/_probability_of_informed_trading.py
+++ b/src/frds/measures/_probability_of_informed_trading.py
@@ -72,6 +72,7 @@ class PIN:
         ]
 
         # Reset params
+        self.estimation_success = False
         self.parameters = type(self).Parameters()
         if method == "EHO2010":
             func = self.loglikelihood_EHO2010
-- 
2.43.0


From 1d3253181daf6d9d68718080c3c72ecf62f776f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:08 +0000
Subject: [PATCH 19/45] fix: changes to a returned sample dataset do not change
 the dataset

---
 src/frds/datasets/_stocks.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/frds/datasets/_stocks.py b/src/frds/datasets/_stocks.py
index 2a210ff..cf532bc 100644
--- a/src/frds/datasets/_stocks.py
+++ b/src/frds/datasets/_stocks.py
@@ -38,7 +38,8 @@ class _StockReturns(metaclass=SingletonMeta):
         path = f"{os.path.join(_current_directory, 'stocks_us.csv.zip')}"
         if self._stocks_us is None:
             self._stocks_us = pd.read_csv(path, index_col=['Date'], parse_dates=['Date'])
-        return self._stocks_us
+        # A copy, so that changes to it do not end up in the sample dataset
+        return self._stocks_us.copy()
 
 
 StockReturns = _StockReturns()
-- 
2.43.0


From ded3367465753ecc067581c1150682b5ab9eb841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:20 +0000
Subject: [PATCH 20/45] fix: GARCH and GJR-GARCH fits do not succeed below
 their starting values

---
 src/frds/algorithms/_garch.py | 44 +++++++++++++++++++++++++++++++----
 1 file changed, 40 insertions(+), 4 deletions(-)

diff --git a/src/frds/algorithms/_garch.py b/src/frds/algorithms/_garch.py
index 9384ebe..301a801 100644
--- a/src/frds/algorithms/_garch.py
+++ b/src/frds/algorithms/_garch.py
@@ -12,6 +12,42 @@ except ImportError:
     USE_CPP_EXTENSION = False
 
 
+def minimize_not_above_start(fun, x0, args, bounds, constraints, nobs) -> OptimizeResult:
+    """Minimizes the negative log-likelihood from given starting values.
+
+    SLSQP at times overshoots in its first steps and then converges to a point far
+    worse than its starting values. The average over the observations is scaled
+    better, so it is used in such cases. The minimization does not succeed if this
+    is of no help.
+
+    Args:
+        fun (Callable): negative log-likelihood, called with parameters and ``args``
+        x0 (List[float]): starting values
+        args (tuple): further arguments of ``fun``
+        bounds (List[Tuple]): bounds of the parameters
+        constraints (Union[dict, List[dict]]): constraints of the parameters
+        nobs (int): number of observations
+
+    Returns:
+        OptimizeResult: result of the minimization
+    """
+    options = dict(args=args, method="SLSQP", bounds=bounds, constraints=constraints)
+    opt: OptimizeResult = minimize(fun, x0, **options)
+    lower = [-np.inf if b[0] is None else b[0] for b in bounds]
+    upper = [np.inf if b[1] is None else b[1] for b in bounds]
+    start = fun(np.clip(x0, lower, upper), *args)
+    if opt.success and opt.fun - start > 1e-6:
+        opt = minimize(
+            lambda x, *args: fun(x, *args) / nobs,
+            x0,
+            options={"ftol": 1e-6 / nobs},
+            **options,
+        )
+        opt.fun *= nobs
+        opt.success = opt.success and opt.fun - start <= 1e-6
+    return opt
+
+
 class GARCHModel:
     """:doc:`/algorithms/garch` model with constant mean and Normal noise
 
@@ -83,13 +119,13 @@ class GARCHModel:
                 "Values in x were outside bounds during a minimize step",
                 RuntimeWarning,
             )
-            opt: OptimizeResult = minimize(
+            opt: OptimizeResult = minimize_not_above_start(
                 self.loglikelihood_model,
                 starting_vals,
                 args=(self.backcast_value, self.var_bounds, self.zero_mean),
-                method="SLSQP",
                 bounds=bounds,
                 constraints={"type": "ineq", "fun": persistence_smaller_than_one},
+                nobs=len(self.returns),
             )
             if opt.success:
                 self.estimation_success = True
@@ -396,13 +432,13 @@ class GJRGARCHModel(GARCHModel):
                 "Values in x were outside bounds during a minimize step",
                 RuntimeWarning,
             )
-            opt: OptimizeResult = minimize(
+            opt: OptimizeResult = minimize_not_above_start(
                 self.loglikelihood_model,
                 starting_vals,
                 args=(self.backcast_value, self.var_bounds, self.zero_mean),
-                method="SLSQP",
                 bounds=bounds,
                 constraints={"type": "ineq", "fun": persistence_smaller_than_one},
+                nobs=len(self.returns),
             )
             if opt.success:
                 self.estimation_success = True
-- 
2.43.0


From 1157589ba8b8d59072e94fbb2bd0f76091e9bace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:36 +0000
Subject: [PATCH 21/45] fix: CCC fits do not succeed below their starting
 values

---
 src/frds/algorithms/_mgarch.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/frds/algorithms/_mgarch.py b/src/frds/algorithms/_mgarch.py
index f38fdf3..8702a05 100644
--- a/src/frds/algorithms/_mgarch.py
+++ b/src/frds/algorithms/_mgarch.py
@@ -6,6 +6,7 @@ import numpy as np
 from scipy.optimize import minimize, OptimizeResult
 
 from frds.algorithms import GARCHModel, GJRGARCHModel
+from frds.algorithms._garch import minimize_not_above_start
 
 USE_CPP_EXTENSION = True
 
@@ -104,16 +105,16 @@ class GARCHModel_CCC:
                 "Values in x were outside bounds during a minimize step",
                 RuntimeWarning,
             )
-            opt: OptimizeResult = minimize(
+            opt: OptimizeResult = minimize_not_above_start(
                 self.loglikelihood_model,
                 starting_vals,
                 args=(m1.backcast_value, m2.backcast_value, m1.var_bounds, m2.var_bounds),
-                method="SLSQP",
                 bounds=bounds,
                 constraints=[
                     {"type": "ineq", "fun": persistence_smaller_than_one_1},
                     {"type": "ineq", "fun": persistence_smaller_than_one_2},
                 ],
+                nobs=len(self.returns1),
             )
             if opt.success:
                 self.estimation_success = True
-- 
2.43.0


From 423b5357a8751129d4b8b555a3c0cfab0d73b66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:29 +0000
Subject: [PATCH 22/45] fix: evaluating the likelihood of an estimated GARCH
 model leaves its variances alone

---
 src/frds/algorithms/_garch.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/frds/algorithms/_garch.py b/src/frds/algorithms/_garch.py
index 301a801..915b4ff 100644
--- a/src/frds/algorithms/_garch.py
+++ b/src/frds/algorithms/_garch.py
@@ -190,13 +190,11 @@ class GARCHModel:
         """
         if zero_mean:
             resids = self.returns
-            self.sigma2 = self.compute_variance(params, resids, backcast, var_bounds)
+            sigma2 = self.compute_variance(params, resids, backcast, var_bounds)
         else:
             resids = self.returns - params[0]  # params[0] is mu
-            self.sigma2 = self.compute_variance(
-                params[1:], resids, backcast, var_bounds
-            )
-        return -self.loglikelihood(resids, self.sigma2)
+            sigma2 = self.compute_variance(params[1:], resids, backcast, var_bounds)
+        return -self.loglikelihood(resids, sigma2)
 
     @staticmethod
     def loglikelihood(resids: np.ndarray, sigma2: np.ndarray) -> float:
-- 
2.43.0


From 9f0c6601fc4b3d9b6ede640a41f72c2a9c91ee4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:45 +0000
Subject: [PATCH 23/45] fix: _garch.py keeps its CRLF line endings

---
 src/frds/algorithms/_garch.py | 1158 ++++++++++++++++-----------------
 1 file changed, 579 insertions(+), 579 deletions(-)

diff --git a/src/frds/algorithms/_garch.py b/src/frds/algorithms/_garch.py
index 915b4ff..e7d675b 100644
--- a/src/frds/algorithms/_garch.py
+++ b/src/frds/algorithms/_garch.py
@@ -1,579 +1,579 @@
-import warnings
-import itertools
-from typing import List
-from dataclasses import dataclass
-import numpy as np
-from scipy.optimize import minimize, OptimizeResult
-
-USE_CPP_EXTENSION = True
-try:
-    import frds.algorithms.utils.utils_ext as ext
-except ImportError:
-    USE_CPP_EXTENSION = False
-
-
-def minimize_not_above_start(fun, x0, args, bounds, constraints, nobs) -> OptimizeResult:
-    """Minimizes the negative log-likelihood from given starting values.
-
-    SLSQP at times overshoots in its first steps and then converges to a point far
-    worse than its starting values. The average over the observations is scaled
-    better, so it is used in such cases. The minimization does not succeed if this
-    is of no help.
-
-    Args:
-        fun (Callable): negative log-likelihood, called with parameters and ``args``
-        x0 (List[float]): starting values
-        args (tuple): further arguments of ``fun``
-        bounds (List[Tuple]): bounds of the parameters
-        constraints (Union[dict, List[dict]]): constraints of the parameters
-        nobs (int): number of observations
-
-    Returns:
-        OptimizeResult: result of the minimization
-    """
-    options = dict(args=args, method="SLSQP", bounds=bounds, constraints=constraints)
-    opt: OptimizeResult = minimize(fun, x0, **options)
-    lower = [-np.inf if b[0] is None else b[0] for b in bounds]
-    upper = [np.inf if b[1] is None else b[1] for b in bounds]
-    start = fun(np.clip(x0, lower, upper), *args)
-    if opt.success and opt.fun - start > 1e-6:
-        opt = minimize(
-            lambda x, *args: fun(x, *args) / nobs,
-            x0,
-            options={"ftol": 1e-6 / nobs},
-            **options,
-        )
-        opt.fun *= nobs
-        opt.success = opt.success and opt.fun - start <= 1e-6
-    return opt
-
-
-class GARCHModel:
-    """:doc:`/algorithms/garch` model with constant mean and Normal noise
-
-    It estimates the model parameters only. No standard errors calculated.
-
-    This code is heavily based on the `arch <https://arch.readthedocs.io/>`_.
-    Modifications are made for easier understaing of the code flow.
-    """
-
-    @dataclass
-    class Parameters:
-        mu: float = np.nan
-        omega: float = np.nan
-        alpha: float = np.nan
-        beta: float = np.nan
-        loglikelihood: float = np.nan
-
-    def __init__(self, returns: np.ndarray, zero_mean=False) -> None:
-        """__init__
-
-        Args:
-            returns (np.ndarray): ``(T,)`` array of ``T`` returns
-            zero_mean (bool): whether to use a zero mean returns model. Default to False.
-
-        .. note:: ``returns`` is best to be percentage returns for optimization
-        """
-        self.returns = np.asarray(returns, dtype=np.float64)
-        self.estimation_success = False
-        self.loglikelihood_final = np.nan
-        self.parameters = type(self).Parameters()
-        self.resids = np.empty_like(self.returns)
-        self.sigma2 = np.empty_like(self.returns)
-        self.backcast_value = np.nan
-        self.var_bounds: np.ndarray = None
-        self.zero_mean = zero_mean
-
-    def fit(self) -> Parameters:
-        """Estimates the GARCH(1,1) parameters via MLE
-
-        Returns:
-            params: :class:`frds.algorithms.GARCHModel.Parameters`
-        """
-        # No repeated estimation?
-        if self.estimation_success:
-            return self.parameters
-
-        starting_vals = self.preparation()
-
-        # Set bounds for parameters
-        bounds = [
-            (-np.inf, np.inf),  # No bounds for mu
-            (1e-6, np.inf),  # Lower bound for omega
-            (0.0, 1.0),  # Bounds for alpha
-            (0.0, 1.0),  # Boudns for beta
-        ]
-        if self.zero_mean:
-            bounds = bounds[1:]
-
-        # Set constraint for stationarity
-        def persistence_smaller_than_one(params: List[float]):
-            alpha, beta = params[-2:]
-            return 1.0 - (alpha + beta)
-
-        # MLE via minimizing the negative log-likelihood
-        # fmt: off
-        with warnings.catch_warnings():
-            warnings.filterwarnings(
-                "ignore",
-                "Values in x were outside bounds during a minimize step",
-                RuntimeWarning,
-            )
-            opt: OptimizeResult = minimize_not_above_start(
-                self.loglikelihood_model,
-                starting_vals,
-                args=(self.backcast_value, self.var_bounds, self.zero_mean),
-                bounds=bounds,
-                constraints={"type": "ineq", "fun": persistence_smaller_than_one},
-                nobs=len(self.returns),
-            )
-            if opt.success:
-                self.estimation_success = True
-                if self.zero_mean:
-                    self.parameters = type(self).Parameters(0.0, *list(opt.x), loglikelihood=-opt.fun)
-                else:
-                    self.parameters = type(self).Parameters(*list(opt.x), loglikelihood=-opt.fun)
-                self.resids = self.returns - self.parameters.mu
-                # The optimizer's last evaluation need not be at the estimates
-                self.sigma2 = self.compute_variance(
-                    opt.x if self.zero_mean else opt.x[1:],
-                    self.resids,
-                    self.backcast_value,
-                    self.var_bounds,
-                )
-
-        return self.parameters
-
-    def preparation(self) -> List[float]:
-        """Prepare starting values.
-
-        Returns:
-            List[float]: list of starting values
-        """
-        # Compute a starting value for volatility process by backcasting
-        if self.zero_mean:
-            resids = self.returns
-        else:
-            resids = self.returns - np.mean(self.returns)
-        self.backcast_value = self.backcast(resids)
-        # Compute a loose bound for the volatility process
-        # This is to avoid NaN in MLE by avoiding zero/negative variance,
-        # as well as unreasonably large variance.
-        self.var_bounds = self.variance_bounds(resids)
-        # Compute the starting values for MLE
-        # Starting values for the volatility process
-        var_params = self.starting_values(resids)
-        # Starting value for mu is the sample mean return
-        initial_mu = self.returns.mean()
-        # Starting values are [mu, omega, alpha, beta]
-        starting_vals = [initial_mu, *var_params]
-
-        return starting_vals if not self.zero_mean else var_params
-
-    def loglikelihood_model(
-        self,
-        params: np.ndarray,
-        backcast: float,
-        var_bounds: np.ndarray,
-        zero_mean=False,
-    ) -> float:
-        """Calculates the negative log-likelihood based on the current ``params``.
-        This function is used in optimization.
-
-        Args:
-            params (np.ndarray): [mu, omega, alpha, (gamma), beta]
-            backcast (float): backcast value
-            var_bounds (np.ndarray): variance bounds
-
-        Returns:
-            float: negative log-likelihood
-        """
-        if zero_mean:
-            resids = self.returns
-            sigma2 = self.compute_variance(params, resids, backcast, var_bounds)
-        else:
-            resids = self.returns - params[0]  # params[0] is mu
-            sigma2 = self.compute_variance(params[1:], resids, backcast, var_bounds)
-        return -self.loglikelihood(resids, sigma2)
-
-    @staticmethod
-    def loglikelihood(resids: np.ndarray, sigma2: np.ndarray) -> float:
-        """Computes the log-likelihood assuming residuals are
-        normally distributed conditional on the variance.
-
-        Args:
-            resids (np.ndarray): residuals to use in computing log-likelihood.
-            sigma2 (np.ndarray): conditional variance of residuals.
-
-        Returns:
-            float: log-likelihood
-        """
-        l = -0.5 * (np.log(2 * np.pi) + np.log(sigma2) + resids**2.0 / sigma2)
-        return np.sum(l)
-
-    @staticmethod
-    def compute_variance(
-        params: List[float],
-        resids: np.ndarray,
-        backcast: float,
-        var_bounds: np.ndarray,
-    ) -> np.ndarray:
-        """Computes the variances conditional on given parameters
-
-        Args:
-            params (List[float]): [omega, alpha, beta]
-            resids (np.ndarray): residuals from mean equation
-            backcast (float): backcast value
-            var_bounds (np.ndarray): variance bounds
-
-        Returns:
-            np.ndarray: conditional variance
-        """
-        if USE_CPP_EXTENSION:
-            return ext.compute_garch_variance(params, resids, backcast, var_bounds)
-        omega, alpha, beta = params
-        sigma2 = np.zeros_like(resids)
-        sigma2[0] = omega + (alpha + beta) * backcast
-        for t in range(1, len(resids)):
-            sigma2[t] = omega + alpha * (resids[t - 1] ** 2) + beta * sigma2[t - 1]
-            sigma2[t] = GARCHModel.bounds_check(sigma2[t], var_bounds[t])
-        return sigma2
-
-    def starting_values(self, resids: np.ndarray) -> List[float]:
-        """Finds the optimal initial values for the volatility model via a grid
-        search. For varying target persistence and alpha values, return the
-        combination of alpha and beta that gives the highest loglikelihood.
-
-        Args:
-            resids (np.ndarray): residuals from the mean model
-
-        Returns:
-            List[float]: [omega, alpha, beta]
-        """
-        # Candidate target persistence - we don't have a prior knowledge here
-        persistence_grid = [0.5, 0.7, 0.9, 0.98]
-        # Candidate alpha values
-        alpha_grid = [0.01, 0.05, 0.1, 0.2]
-        # Sample variance
-        var = self.returns.var()
-        # Backcast initial value for the volaility process
-        initial_params = []
-        max_likelihood = -np.inf
-        for alpha, p in itertools.product(*[alpha_grid, persistence_grid]):
-            # Note that (alpha+beta) is the "persistence"
-            beta = p - alpha
-            # Note that the unconditional variance is omega/(1-persistence).
-            # As we are guessing the initial value, we use the sample variance
-            # as the unconditional variance to guess the omega value.
-            omega = var * (1 - p)
-            params = [omega, alpha, beta]
-            sigma2 = self.compute_variance(
-                params, resids, self.backcast_value, self.var_bounds
-            )
-            likelihood = self.loglikelihood(resids, sigma2)
-            if likelihood > max_likelihood:
-                max_likelihood = likelihood
-                initial_params = params
-        return initial_params
-
-    @staticmethod
-    def variance_bounds(resids: np.ndarray) -> np.ndarray:
-        """Compute bounds for conditional variances using EWMA.
-
-        This function calculates the lower and upper bounds for conditional variances
-        based on the residuals provided. The bounds are computed to ensure numerical
-        stability during the parameter estimation process of GARCH models. The function
-        uses Exponentially Weighted Moving Average (EWMA) to estimate the initial variance
-        and then adjusts these estimates to lie within global bounds.
-
-        Args:
-            resids (np.ndarray): residuals from the mean model.
-
-        Returns:
-            np.ndarray: an array where each row contains the lower and upper bounds for the conditional variance at each time point.
-        """
-
-        T = len(resids)
-        tau = min(75, T)
-        # Compute initial variance using EWMA
-        decay_factor = 0.94
-        weights = decay_factor ** np.arange(tau)
-        weights /= weights.sum()
-        initial_variance = np.dot(weights, resids[:tau] ** 2)
-        # Compute var_bound using EWMA (assuming ewma_recursion is defined)
-        var_bound = GARCHModel.ewma(resids, initial_variance)
-        # Compute global bounds
-        global_lower_bound = resids.var() / 1e8
-        global_upper_bound = 1e7 * (1 + (resids**2).max())
-        # Adjust var_bound to ensure it lies within global bounds
-        var_bound = np.clip(var_bound, global_lower_bound, global_upper_bound)
-        # Create bounds matrix
-        var_bounds = np.vstack((var_bound / 1e6, var_bound * 1e6)).T
-
-        return np.ascontiguousarray(var_bounds)
-
-    @staticmethod
-    def bounds_check(sigma2: float, var_bounds: np.ndarray) -> float:
-        """Adjust the conditional variance at time t based on its bounds
-
-        Args:
-            sigma2 (float): conditional variance
-            var_bounds (np.ndarray): lower and upper bounds
-
-        Returns:
-            float: adjusted conditional variance
-        """
-        if USE_CPP_EXTENSION:
-            return ext.bounds_check(sigma2, var_bounds)
-        lower, upper = var_bounds[0], var_bounds[1]
-        sigma2 = max(lower, sigma2)
-        if sigma2 > upper:
-            if not np.isinf(sigma2):
-                sigma2 = upper + np.log(sigma2 / upper)
-            else:
-                sigma2 = upper + 1000
-        return sigma2
-
-    @staticmethod
-    def backcast(resids: np.ndarray) -> float:
-        """Computes the starting value for estimating conditional variance.
-
-        Args:
-            resids (np.ndarray): residuals
-
-        Returns:
-            float: initial value from backcasting
-        """
-        # Limit to first tau observations to reduce computation
-        tau = min(75, resids.shape[0])
-        # Weights for Exponential Weighted Moving Average (EWMA)
-        w = 0.94 ** np.arange(tau)
-        w = w / sum(w)  # Ensure weights add up to 1
-        # Let the initial value to be the EWMA of first tau observations
-        return float(np.sum((resids[:tau] ** 2) * w))
-
-    @staticmethod
-    def ewma(resids: np.ndarray, initial_value: float, lam=0.94) -> np.ndarray:
-        """Compute the conditional variance estimates using
-        Exponentially Weighted Moving Average (EWMA).
-
-        Args:
-            resids (np.ndarray): Residuals from the model.
-            initial_value (float): Initial value for the conditional variance.
-            lam (float): Decay factor for the EWMA.
-
-        Returns:
-            np.ndarray: Array containing the conditional variance estimates.
-        """
-        if USE_CPP_EXTENSION:
-            return ext.ewma(resids, initial_value, lam)
-        T = len(resids)
-        variance = np.empty(T)
-        variance[0] = initial_value  # Set the initial value
-        # Compute the squared residuals
-        squared_resids = resids**2
-        # Compute the EWMA using the decay factors and squared residuals
-        for t in range(1, T):
-            variance[t] = lam * variance[t - 1] + (1 - lam) * squared_resids[t - 1]
-        return variance
-
-
-class GJRGARCHModel(GARCHModel):
-    """:doc:`/algorithms/gjr-garch` model with constant mean and Normal noise
-
-    It estimates the model parameters only. No standard errors calculated.
-
-    This code is heavily based on the `arch <https://arch.readthedocs.io/>`_.
-    Modifications are made for easier understaing of the code flow.
-    """
-
-    @dataclass
-    class Parameters:
-        mu: float = np.nan
-        omega: float = np.nan
-        alpha: float = np.nan
-        gamma: float = np.nan
-        beta: float = np.nan
-        loglikelihood: float = np.nan
-
-    def fit(self) -> Parameters:
-        """Estimates the GJR-GARCH(1,1) parameters via MLE
-
-        Returns:
-            List[float]: [mu, omega, alpha, gamma, beta, loglikelihood]
-        """
-        # No repeated estimation
-        if self.estimation_success:
-            return self.parameters
-
-        starting_vals = self.preparation()
-
-        bounds = [
-            (-np.inf, np.inf),  # No bounds for mu
-            (1e-6, np.inf),  # Lower bound for omega
-            (1e-6, 1.0),  # Bounds for alpha
-            (1e-6, 1.0),  # Bounds for gamma
-            (1e-6, 1.0),  # Boudns for beta
-        ]
-        if self.zero_mean:
-            bounds = bounds[1:]
-
-        # Set constraint for stationarity
-        def persistence_smaller_than_one(params: List[float]):
-            alpha, gamma, beta = params[-3:]
-            return 1.0 - (alpha + beta + gamma / 2)
-
-        # MLE via minimizing the negative log-likelihood
-        with warnings.catch_warnings():
-            warnings.filterwarnings(
-                "ignore",
-                "Values in x were outside bounds during a minimize step",
-                RuntimeWarning,
-            )
-            opt: OptimizeResult = minimize_not_above_start(
-                self.loglikelihood_model,
-                starting_vals,
-                args=(self.backcast_value, self.var_bounds, self.zero_mean),
-                bounds=bounds,
-                constraints={"type": "ineq", "fun": persistence_smaller_than_one},
-                nobs=len(self.returns),
-            )
-            if opt.success:
-                self.estimation_success = True
-                if self.zero_mean:
-                    self.parameters = type(self).Parameters(
-                        0.0, *list(opt.x), loglikelihood=-opt.fun
-                    )
-                else:
-                    self.parameters = type(self).Parameters(
-                        *list(opt.x), loglikelihood=-opt.fun
-                    )
-                self.resids = self.returns - self.parameters.mu
-                # The optimizer's last evaluation need not be at the estimates
-                self.sigma2 = self.compute_variance(
-                    opt.x if self.zero_mean else opt.x[1:],
-                    self.resids,
-                    self.backcast_value,
-                    self.var_bounds,
-                )
-
-        return self.parameters
-
-    @staticmethod
-    def compute_variance(
-        params: List[float],
-        resids: np.ndarray,
-        backcast: float,
-        var_bounds: np.ndarray,
-    ) -> np.ndarray:
-        """Computes the variances conditional on given parameters
-
-        Args:
-            params (List[float]): [omega, alpha, gamma, beta]
-            resids (np.ndarray): residuals from mean equation
-            backcast (float): backcast value
-            var_bounds (np.ndarray): variance bounds
-
-        Returns:
-            np.ndarray: conditional variance
-        """
-        if USE_CPP_EXTENSION:
-            return ext.compute_gjrgarch_variance(params, resids, backcast, var_bounds)
-        # fmt: off
-        omega, alpha, gamma, beta = params
-        sigma2 = np.zeros_like(resids)
-        sigma2[0] = omega + (alpha + gamma/2 + beta) * backcast
-        for t in range(1, len(resids)):
-            sigma2[t] = omega + alpha * (resids[t - 1] ** 2) + beta * sigma2[t - 1]
-            sigma2[t] += gamma * resids[t - 1] ** 2 if resids[t - 1] < 0 else 0
-            sigma2[t] = GJRGARCHModel.bounds_check(sigma2[t], var_bounds[t])
-        return sigma2
-
-    @staticmethod
-    def forecast_variance(
-        params: Parameters,
-        resids: np.ndarray,
-        initial_variance: float,
-    ) -> np.ndarray:
-        """Forecast the variances conditional on given parameters and residuals.
-
-        Args:
-            params (Parameters): :class:`frds.algorithms.GJRGARCHModel.Parameters`
-            resids (np.ndarray): residuals to use
-            initial_variance (float): starting value of variance forecasts
-
-        Returns:
-            np.ndarray: conditional variance
-        """
-        # fmt: off
-        omega, alpha, gamma, beta = params.omega, params.alpha, params.gamma, params.beta
-        sigma2 = np.zeros_like(resids)
-        sigma2[0] = initial_variance
-        for t in range(1, len(resids)):
-            sigma2[t] = omega + alpha * (resids[t - 1] ** 2) + beta * sigma2[t - 1]
-            sigma2[t] += gamma * resids[t - 1] ** 2 if resids[t - 1] < 0 else 0
-        return sigma2[1:]
-
-    def starting_values(self, resids: np.ndarray) -> List[float]:
-        """Finds the optimal initial values for the volatility model via a grid
-        search. For varying target persistence and alpha values, return the
-        combination of alpha and beta that gives the highest loglikelihood.
-
-        Args:
-            resids (np.ndarray): residuals from the mean model
-
-        Returns:
-            List[float]: [omega, alpha, gamma, beta]
-        """
-        # Candidate target persistence - we don't have a prior knowledge here
-        persistence_grid = [0.5, 0.7, 0.9, 0.98]
-        # Candidate alpha values
-        alpha_grid = [0.01, 0.05, 0.1, 0.2]
-        gamma_grid = alpha_grid
-        # Sample variance
-        var = self.returns.var()
-        # Backcast initial value for the volaility process
-        var_bounds = self.variance_bounds(resids)
-        backcast = self.backcast(resids)
-        initial_params = []
-        max_likelihood = -np.inf
-        # fmt: off
-        for alpha, gamma, p in itertools.product(*[alpha_grid, gamma_grid, persistence_grid]):
-            # Note that (alpha+beta) is the "persistence"
-            beta = p - alpha - gamma/2
-            # Note that the unconditional variance is omega/(1-persistence).
-            # As we are guessing the initial value, we use the sample variance
-            # as the unconditional variance to guess the omega value.
-            omega = var * (1 - p)
-            params = [omega, alpha, gamma, beta]
-            sigma2 = self.compute_variance(params, resids, backcast, var_bounds)
-            likelihood = self.loglikelihood(resids, sigma2)
-            if likelihood > max_likelihood:
-                max_likelihood = likelihood
-                initial_params = params
-        return initial_params
-
-
-if __name__ == "__main__":
-    import pandas as pd
-    from pprint import pprint
-
-    df = pd.read_stata(
-        "https://www.stata-press.com/data/r18/stocks.dta", convert_dates=["date"]
-    )
-    df.set_index("date", inplace=True)
-    # Scale returns to percentage returns for better optimization results
-    returns = df["nissan"].to_numpy() * 100
-
-    g = GARCHModel(returns)
-    res = g.fit()
-    pprint(res)
-
-    gjr = GJRGARCHModel(returns)
-    res = gjr.fit()
-    pprint(res)
-
-    from arch import arch_model
-
-    m = arch_model(returns, p=1, o=1, q=1)
-    print(m.fit(disp=False))
+import warnings
+import itertools
+from typing import List
+from dataclasses import dataclass
+import numpy as np
+from scipy.optimize import minimize, OptimizeResult
+
+USE_CPP_EXTENSION = True
+try:
+    import frds.algorithms.utils.utils_ext as ext
+except ImportError:
+    USE_CPP_EXTENSION = False
+
+
+def minimize_not_above_start(fun, x0, args, bounds, constraints, nobs) -> OptimizeResult:
+    """Minimizes the negative log-likelihood from given starting values.
+
+    SLSQP at times overshoots in its first steps and then converges to a point far
+    worse than its starting values. The average over the observations is scaled
+    better, so it is used in such cases. The minimization does not succeed if this
+    is of no help.
+
+    Args:
+        fun (Callable): negative log-likelihood, called with parameters and ``args``
+        x0 (List[float]): starting values
+        args (tuple): further arguments of ``fun``
+        bounds (List[Tuple]): bounds of the parameters
+        constraints (Union[dict, List[dict]]): constraints of the parameters
+        nobs (int): number of observations
+
+    Returns:
+        OptimizeResult: result of the minimization
+    """
+    options = dict(args=args, method="SLSQP", bounds=bounds, constraints=constraints)
+    opt: OptimizeResult = minimize(fun, x0, **options)
+    lower = [-np.inf if b[0] is None else b[0] for b in bounds]
+    upper = [np.inf if b[1] is None else b[1] for b in bounds]
+    start = fun(np.clip(x0, lower, upper), *args)
+    if opt.success and opt.fun - start > 1e-6:
+        opt = minimize(
+            lambda x, *args: fun(x, *args) / nobs,
+            x0,
+            options={"ftol": 1e-6 / nobs},
+            **options,
+        )
+        opt.fun *= nobs
+        opt.success = opt.success and opt.fun - start <= 1e-6
+    return opt
+
+
+class GARCHModel:
+    """:doc:`/algorithms/garch` model with constant mean and Normal noise
+
+    It estimates the model parameters only. No standard errors calculated.
+
+    This code is heavily based on the `arch <https://arch.readthedocs.io/>`_.
+    Modifications are made for easier understaing of the code flow.
+    """
+
+    @dataclass
+    class Parameters:
+        mu: float = np.nan
+        omega: float = np.nan
+        alpha: float = np.nan
+        beta: float = np.nan
+        loglikelihood: float = np.nan
+
+    def __init__(self, returns: np.ndarray, zero_mean=False) -> None:
+        """__init__
+
+        Args:
+            returns (np.ndarray): ``(T,)`` array of ``T`` returns
+            zero_mean (bool): whether to use a zero mean returns model. Default to False.
+
+        .. note:: ``returns`` is best to be percentage returns for optimization
+        """
+        self.returns = np.asarray(returns, dtype=np.float64)
+        self.estimation_success = False
+        self.loglikelihood_final = np.nan
+        self.parameters = type(self).Parameters()
+        self.resids = np.empty_like(self.returns)
+        self.sigma2 = np.empty_like(self.returns)
+        self.backcast_value = np.nan
+        self.var_bounds: np.ndarray = None
+        self.zero_mean = zero_mean
+
+    def fit(self) -> Parameters:
+        """Estimates the GARCH(1,1) parameters via MLE
+
+        Returns:
+            params: :class:`frds.algorithms.GARCHModel.Parameters`
+        """
+        # No repeated estimation?
+        if self.estimation_success:
+            return self.parameters
+
+        starting_vals = self.preparation()
+
+        # Set bounds for parameters
+        bounds = [
+            (-np.inf, np.inf),  # No bounds for mu
+            (1e-6, np.inf),  # Lower bound for omega
+            (0.0, 1.0),  # Bounds for alpha
+            (0.0, 1.0),  # Boudns for beta
+        ]
+        if self.zero_mean:
+            bounds = bounds[1:]
+
+        # Set constraint for stationarity
+        def persistence_smaller_than_one(params: List[float]):
+            alpha, beta = params[-2:]
+            return 1.0 - (alpha + beta)
+
+        # MLE via minimizing the negative log-likelihood
+        # fmt: off
+        with warnings.catch_warnings():
+            warnings.filterwarnings(
+                "ignore",
+                "Values in x were outside bounds during a minimize step",
+                RuntimeWarning,
+            )
+            opt: OptimizeResult = minimize_not_above_start(
+                self.loglikelihood_model,
+                starting_vals,
+                args=(self.backcast_value, self.var_bounds, self.zero_mean),
+                bounds=bounds,
+                constraints={"type": "ineq", "fun": persistence_smaller_than_one},
+                nobs=len(self.returns),
+            )
+            if opt.success:
+                self.estimation_success = True
+                if self.zero_mean:
+                    self.parameters = type(self).Parameters(0.0, *list(opt.x), loglikelihood=-opt.fun)
+                else:
+                    self.parameters = type(self).Parameters(*list(opt.x), loglikelihood=-opt.fun)
+                self.resids = self.returns - self.parameters.mu
+                # The optimizer's last evaluation need not be at the estimates
+                self.sigma2 = self.compute_variance(
+                    opt.x if self.zero_mean else opt.x[1:],
+                    self.resids,
+                    self.backcast_value,
+                    self.var_bounds,
+                )
+
+        return self.parameters
+
+    def preparation(self) -> List[float]:
+        """Prepare starting values.
+
+        Returns:
+            List[float]: list of starting values
+        """
+        # Compute a starting value for volatility process by backcasting
+        if self.zero_mean:
+            resids = self.returns
+        else:
+            resids = self.returns - np.mean(self.returns)
+        self.backcast_value = self.backcast(resids)
+        # Compute a loose bound for the volatility process
+        # This is to avoid NaN in MLE by avoiding zero/negative variance,
+        # as well as unreasonably large variance.
+        self.var_bounds = self.variance_bounds(resids)
+        # Compute the starting values for MLE
+        # Starting values for the volatility process
+        var_params = self.starting_values(resids)
+        # Starting value for mu is the sample mean return
+        initial_mu = self.returns.mean()
+        # Starting values are [mu, omega, alpha, beta]
+        starting_vals = [initial_mu, *var_params]
+
+        return starting_vals if not self.zero_mean else var_params
+
+    def loglikelihood_model(
+        self,
+        params: np.ndarray,
+        backcast: float,
+        var_bounds: np.ndarray,
+        zero_mean=False,
+    ) -> float:
+        """Calculates the negative log-likelihood based on the current ``params``.
+        This function is used in optimization.
+
+        Args:
+            params (np.ndarray): [mu, omega, alpha, (gamma), beta]
+            backcast (float): backcast value
+            var_bounds (np.ndarray): variance bounds
+
+        Returns:
+            float: negative log-likelihood
+        """
+        if zero_mean:
+            resids = self.returns
+            sigma2 = self.compute_variance(params, resids, backcast, var_bounds)
+        else:
+            resids = self.returns - params[0]  # params[0] is mu
+            sigma2 = self.compute_variance(params[1:], resids, backcast, var_bounds)
+        return -self.loglikelihood(resids, sigma2)
+
+    @staticmethod
+    def loglikelihood(resids: np.ndarray, sigma2: np.ndarray) -> float:
+        """Computes the log-likelihood assuming residuals are
+        normally distributed conditional on the variance.
+
+        Args:
+            resids (np.ndarray): residuals to use in computing log-likelihood.
+            sigma2 (np.ndarray): conditional variance of residuals.
+
+        Returns:
+            float: log-likelihood
+        """
+        l = -0.5 * (np.log(2 * np.pi) + np.log(sigma2) + resids**2.0 / sigma2)
+        return np.sum(l)
+
+    @staticmethod
+    def compute_variance(
+        params: List[float],
+        resids: np.ndarray,
+        backcast: float,
+        var_bounds: np.ndarray,
+    ) -> np.ndarray:
+        """Computes the variances conditional on given parameters
+
+        Args:
+            params (List[float]): [omega, alpha, beta]
+            resids (np.ndarray): residuals from mean equation
+            backcast (float): backcast value
+            var_bounds (np.ndarray): variance bounds
+
+        Returns:
+            np.ndarray: conditional variance
+        """
+        if USE_CPP_EXTENSION:
+            return ext.compute_garch_variance(params, resids, backcast, var_bounds)
+        omega, alpha, beta = params
+        sigma2 = np.zeros_like(resids)
+        sigma2[0] = omega + (alpha + beta) * backcast
+        for t in range(1, len(resids)):
+            sigma2[t] = omega + alpha * (resids[t - 1] ** 2) + beta * sigma2[t - 1]
+            sigma2[t] = GARCHModel.bounds_check(sigma2[t], var_bounds[t])
+        return sigma2
+
+    def starting_values(self, resids: np.ndarray) -> List[float]:
+        """Finds the optimal initial values for the volatility model via a grid
+        search. For varying target persistence and alpha values, return the
+        combination of alpha and beta that gives the highest loglikelihood.
+
+        Args:
+            resids (np.ndarray): residuals from the mean model
+
+        Returns:
+            List[float]: [omega, alpha, beta]
+        """
+        # Candidate target persistence - we don't have a prior knowledge here
+        persistence_grid = [0.5, 0.7, 0.9, 0.98]
+        # Candidate alpha values
+        alpha_grid = [0.01, 0.05, 0.1, 0.2]
+        # Sample variance
+        var = self.returns.var()
+        # Backcast initial value for the volaility process
+        initial_params = []
+        max_likelihood = -np.inf
+        for alpha, p in itertools.product(*[alpha_grid, persistence_grid]):
+            # Note that (alpha+beta) is the "persistence"
+            beta = p - alpha
+            # Note that the unconditional variance is omega/(1-persistence).
+            # As we are guessing the initial value, we use the sample variance
+            # as the unconditional variance to guess the omega value.
+            omega = var * (1 - p)
+            params = [omega, alpha, beta]
+            sigma2 = self.compute_variance(
+                params, resids, self.backcast_value, self.var_bounds
+            )
+            likelihood = self.loglikelihood(resids, sigma2)
+            if likelihood > max_likelihood:
+                max_likelihood = likelihood
+                initial_params = params
+        return initial_params
+
+    @staticmethod
+    def variance_bounds(resids: np.ndarray) -> np.ndarray:
+        """Compute bounds for conditional variances using EWMA.
+
+        This function calculates the lower and upper bounds for conditional variances
+        based on the residuals provided. The bounds are computed to ensure numerical
+        stability during the parameter estimation process of GARCH models. The function
+        uses Exponentially Weighted Moving Average (EWMA) to estimate the initial variance
+        and then adjusts these estimates to lie within global bounds.
+
+        Args:
+            resids (np.ndarray): residuals from the mean model.
+
+        Returns:
+            np.ndarray: an array where each row contains the lower and upper bounds for the conditional variance at each time point.
+        """
+
+        T = len(resids)
+        tau = min(75, T)
+        # Compute initial variance using EWMA
+        decay_factor = 0.94
+        weights = decay_factor ** np.arange(tau)
+        weights /= weights.sum()
+        initial_variance = np.dot(weights, resids[:tau] ** 2)
+        # Compute var_bound using EWMA (assuming ewma_recursion is defined)
+        var_bound = GARCHModel.ewma(resids, initial_variance)
+        # Compute global bounds
+        global_lower_bound = resids.var() / 1e8
+        global_upper_bound = 1e7 * (1 + (resids**2).max())
+        # Adjust var_bound to ensure it lies within global bounds
+        var_bound = np.clip(var_bound, global_lower_bound, global_upper_bound)
+        # Create bounds matrix
+        var_bounds = np.vstack((var_bound / 1e6, var_bound * 1e6)).T
+
+        return np.ascontiguousarray(var_bounds)
+
+    @staticmethod
+    def bounds_check(sigma2: float, var_bounds: np.ndarray) -> float:
+        """Adjust the conditional variance at time t based on its bounds
+
+        Args:
+            sigma2 (float): conditional variance
+            var_bounds (np.ndarray): lower and upper bounds
+
+        Returns:
+            float: adjusted conditional variance
+        """
+        if USE_CPP_EXTENSION:
+            return ext.bounds_check(sigma2, var_bounds)
+        lower, upper = var_bounds[0], var_bounds[1]
+        sigma2 = max(lower, sigma2)
+        if sigma2 > upper:
+            if not np.isinf(sigma2):
+                sigma2 = upper + np.log(sigma2 / upper)
+            else:
+                sigma2 = upper + 1000
+        return sigma2
+
+    @staticmethod
+    def backcast(resids: np.ndarray) -> float:
+        """Computes the starting value for estimating conditional variance.
+
+        Args:
+            resids (np.ndarray): residuals
+
+        Returns:
+            float: initial value from backcasting
+        """
+        # Limit to first tau observations to reduce computation
+        tau = min(75, resids.shape[0])
+        # Weights for Exponential Weighted Moving Average (EWMA)
+        w = 0.94 ** np.arange(tau)
+        w = w / sum(w)  # Ensure weights add up to 1
+        # Let the initial value to be the EWMA of first tau observations
+        return float(np.sum((resids[:tau] ** 2) * w))
+
+    @staticmethod
+    def ewma(resids: np.ndarray, initial_value: float, lam=0.94) -> np.ndarray:
+        """Compute the conditional variance estimates using
+        Exponentially Weighted Moving Average (EWMA).
+
+        Args:
+            resids (np.ndarray): Residuals from the model.
+            initial_value (float): Initial value for the conditional variance.
+            lam (float): Decay factor for the EWMA.
+
+        Returns:
+            np.ndarray: Array containing the conditional variance estimates.
+        """
+        if USE_CPP_EXTENSION:
+            return ext.ewma(resids, initial_value, lam)
+        T = len(resids)
+        variance = np.empty(T)
+        variance[0] = initial_value  # Set the initial value
+        # Compute the squared residuals
+        squared_resids = resids**2
+        # Compute the EWMA using the decay factors and squared residuals
+        for t in range(1, T):
+            variance[t] = lam * variance[t - 1] + (1 - lam) * squared_resids[t - 1]
+        return variance
+
+
+class GJRGARCHModel(GARCHModel):
+    """:doc:`/algorithms/gjr-garch` model with constant mean and Normal noise
+
+    It estimates the model parameters only. No standard errors calculated.
+
+    This code is heavily based on the `arch <https://arch.readthedocs.io/>`_.
+    Modifications are made for easier understaing of the code flow.
+    """
+
+    @dataclass
+    class Parameters:
+        mu: float = np.nan
+        omega: float = np.nan
+        alpha: float = np.nan
+        gamma: float = np.nan
+        beta: float = np.nan
+        loglikelihood: float = np.nan
+
+    def fit(self) -> Parameters:
+        """Estimates the GJR-GARCH(1,1) parameters via MLE
+
+        Returns:
+            List[float]: [mu, omega, alpha, gamma, beta, loglikelihood]
+        """
+        # No repeated estimation
+        if self.estimation_success:
+            return self.parameters
+
+        starting_vals = self.preparation()
+
+        bounds = [
+            (-np.inf, np.inf),  # No bounds for mu
+            (1e-6, np.inf),  # Lower bound for omega
+            (1e-6, 1.0),  # Bounds for alpha
+            (1e-6, 1.0),  # Bounds for gamma
+            (1e-6, 1.0),  # Boudns for beta
+        ]
+        if self.zero_mean:
+            bounds = bounds[1:]
+
+        # Set constraint for stationarity
+        def persistence_smaller_than_one(params: List[float]):
+            alpha, gamma, beta = params[-3:]
+            return 1.0 - (alpha + beta + gamma / 2)
+
+        # MLE via minimizing the negative log-likelihood
+        with warnings.catch_warnings():
+            warnings.filterwarnings(
+                "ignore",
+                "Values in x were outside bounds during a minimize step",
+                RuntimeWarning,
+            )
+            opt: OptimizeResult = minimize_not_above_start(
+                self.loglikelihood_model,
+                starting_vals,
+                args=(self.backcast_value, self.var_bounds, self.zero_mean),
+                bounds=bounds,
+                constraints={"type": "ineq", "fun": persistence_smaller_than_one},
+                nobs=len(self.returns),
+            )
+            if opt.success:
+                self.estimation_success = True
+                if self.zero_mean:
+                    self.parameters = type(self).Parameters(
+                        0.0, *list(opt.x), loglikelihood=-opt.fun
+                    )
+                else:
+                    self.parameters = type(self).Parameters(
+                        *list(opt.x), loglikelihood=-opt.fun
+                    )
+                self.resids = self.returns - self.parameters.mu
+                # The optimizer's last evaluation need not be at the estimates
+                self.sigma2 = self.compute_variance(
+                    opt.x if self.zero_mean else opt.x[1:],
+                    self.resids,
+                    self.backcast_value,
+                    self.var_bounds,
+                )
+
+        return self.parameters
+
+    @staticmethod
+    def compute_variance(
+        params: List[float],
+        resids: np.ndarray,
+        backcast: float,
+        var_bounds: np.ndarray,
+    ) -> np.ndarray:
+        """Computes the variances conditional on given parameters
+
+        Args:
+            params (List[float]): [omega, alpha, gamma, beta]
+            resids (np.ndarray): residuals from mean equation
+            backcast (float): backcast value
+            var_bounds (np.ndarray): variance bounds
+
+        Returns:
+            np.ndarray: conditional variance
+        """
+        if USE_CPP_EXTENSION:
+            return ext.compute_gjrgarch_variance(params, resids, backcast, var_bounds)
+        # fmt: off
+        omega, alpha, gamma, beta = params
+        sigma2 = np.zeros_like(resids)
+        sigma2[0] = omega + (alpha + gamma/2 + beta) * backcast
+        for t in range(1, len(resids)):
+            sigma2[t] = omega + alpha * (resids[t - 1] ** 2) + beta * sigma2[t - 1]
+            sigma2[t] += gamma * resids[t - 1] ** 2 if resids[t - 1] < 0 else 0
+            sigma2[t] = GJRGARCHModel.bounds_check(sigma2[t], var_bounds[t])
+        return sigma2
+
+    @staticmethod
+    def forecast_variance(
+        params: Parameters,
+        resids: np.ndarray,
+        initial_variance: float,
+    ) -> np.ndarray:
+        """Forecast the variances conditional on given parameters and residuals.
+
+        Args:
+            params (Parameters): :class:`frds.algorithms.GJRGARCHModel.Parameters`
+            resids (np.ndarray): residuals to use
+            initial_variance (float): starting value of variance forecasts
+
+        Returns:
+            np.ndarray: conditional variance
+        """
+        # fmt: off
+        omega, alpha, gamma, beta = params.omega, params.alpha, params.gamma, params.beta
+        sigma2 = np.zeros_like(resids)
+        sigma2[0] = initial_variance
+        for t in range(1, len(resids)):
+            sigma2[t] = omega + alpha * (resids[t - 1] ** 2) + beta * sigma2[t - 1]
+            sigma2[t] += gamma * resids[t - 1] ** 2 if resids[t - 1] < 0 else 0
+        return sigma2[1:]
+
+    def starting_values(self, resids: np.ndarray) -> List[float]:
+        """Finds the optimal initial values for the volatility model via a grid
+        search. For varying target persistence and alpha values, return the
+        combination of alpha and beta that gives the highest loglikelihood.
+
+        Args:
+            resids (np.ndarray): residuals from the mean model
+
+        Returns:
+            List[float]: [omega, alpha, gamma, beta]
+        """
+        # Candidate target persistence - we don't have a prior knowledge here
+        persistence_grid = [0.5, 0.7, 0.9, 0.98]
+        # Candidate alpha values
+        alpha_grid = [0.01, 0.05, 0.1, 0.2]
+        gamma_grid = alpha_grid
+        # Sample variance
+        var = self.returns.var()
+        # Backcast initial value for the volaility process
+        var_bounds = self.variance_bounds(resids)
+        backcast = self.backcast(resids)
+        initial_params = []
+        max_likelihood = -np.inf
+        # fmt: off
+        for alpha, gamma, p in itertools.product(*[alpha_grid, gamma_grid, persistence_grid]):
+            # Note that (alpha+beta) is the "persistence"
+            beta = p - alpha - gamma/2
+            # Note that the unconditional variance is omega/(1-persistence).
+            # As we are guessing the initial value, we use the sample variance
+            # as the unconditional variance to guess the omega value.
+            omega = var * (1 - p)
+            params = [omega, alpha, gamma, beta]
+            sigma2 = self.compute_variance(params, resids, backcast, var_bounds)
+            likelihood = self.loglikelihood(resids, sigma2)
+            if likelihood > max_likelihood:
+                max_likelihood = likelihood
+                initial_params = params
+        return initial_params
+
+
+if __name__ == "__main__":
+    import pandas as pd
+    from pprint import pprint
+
+    df = pd.read_stata(
+        "https://www.stata-press.com/data/r18/stocks.dta", convert_dates=["date"]
+    )
+    df.set_index("date", inplace=True)
+    # Scale returns to percentage returns for better optimization results
+    returns = df["nissan"].to_numpy() * 100
+
+    g = GARCHModel(returns)
+    res = g.fit()
+    pprint(res)
+
+    gjr = GJRGARCHModel(returns)
+    res = gjr.fit()
+    pprint(res)
+
+    from arch import arch_model
+
+    m = arch_model(returns, p=1, o=1, q=1)
+    print(m.fit(disp=False))
-- 
2.43.0


From fb59ebeac7059359420670a87cf8087ccfe94338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:05 +0000
Subject: [PATCH 24/45] fix: DIP threshold is not cut to whole percentage
 points

---
 src/frds/measures/_distress_insurance_premium.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/frds/measures/_distress_insurance_premium.py b/src/frds/measures/_distress_insurance_premium.py
index 7ed869f..2b8f4d3 100644
--- a/src/frds/measures/_distress_insurance_premium.py
+++ b/src/frds/measures/_distress_insurance_premium.py
@@ -78,18 +78,18 @@ class DistressInsurancePremium:
 
         # Convert to probabilities
         prob_losses = prob_losses / n_simulations
-        pct_threshold = int(round(default_threshold * 100, 8))
+        first_slot = math.ceil(round(default_threshold * 100 * n_banks, 8))
 
         # Find the probability that the losses are great than 0.15 the total liabilities i.e. > 0.15*N
-        prob_great_losses = np.sum(prob_losses[pct_threshold * n_banks :])
+        prob_great_losses = np.sum(prob_losses[first_slot:])
 
         # No losses reach the threshold, nothing to insure against
         if prob_great_losses == 0:
             return 0.0
 
         exp_losses = np.dot(
-            np.array(range(pct_threshold * n_banks, intervals * n_banks + 1)),
-            prob_losses[pct_threshold * n_banks :],
+            np.array(range(first_slot, intervals * n_banks + 1)),
+            prob_losses[first_slot:],
         ) / (100 * prob_great_losses)
 
         return exp_losses * prob_great_losses
-- 
2.43.0


From 1cd109d5d4450ccbca39e635c1e8f129700255b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:20 +0000
Subject: [PATCH 25/45] fix: PIN intensities stay off zero, where the
 likelihood is NaN and the search breaks down

---
 src/frds/measures/_probability_of_informed_trading.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/frds/measures/_probability_of_informed_trading.py b/src/frds/measures/_probability_of_informed_trading.py
index 89b473d..4943431 100644
--- a/src/frds/measures/_probability_of_informed_trading.py
+++ b/src/frds/measures/_probability_of_informed_trading.py
@@ -66,9 +66,9 @@ class PIN:
         bounds = [
             (0.0, 1.0),  # Bounds for alpha
             (0.0, 1.0),  # Boudns for delta
-            (0.0, np.inf),  # Lower bound for eB
-            (0.0, np.inf),  # Lower bound for eS
-            (0.0, np.inf),  # Lower bound for mu
+            (1e-8, np.inf),  # Lower bound for eB (the likelihood is NaN at 0)
+            (1e-8, np.inf),  # Lower bound for eS
+            (1e-8, np.inf),  # Lower bound for mu
         ]
 
         # Reset params
-- 
2.43.0


From 89db949a9b2f5edceac50462e2fb32d993c09f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:20 +0000
Subject: [PATCH 26/45] fix: PIN does not keep an optimum whose likelihood
 overflowed

---
 src/frds/measures/_probability_of_informed_trading.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/frds/measures/_probability_of_informed_trading.py b/src/frds/measures/_probability_of_informed_trading.py
index 4943431..49a21e3 100644
--- a/src/frds/measures/_probability_of_informed_trading.py
+++ b/src/frds/measures/_probability_of_informed_trading.py
@@ -94,9 +94,9 @@ class PIN:
                     method="L-BFGS-B",
                     bounds=bounds,
                 )
-                if opt.success:
+                if opt.success and np.isfinite(opt.fun):
                     loglikelihood = self.parameters.loglikelihood
-                    if np.isnan(loglikelihood) or (-opt.fun<np.inf and -opt.fun > loglikelihood):
+                    if np.isnan(loglikelihood) or -opt.fun > loglikelihood:
                         self.parameters = type(self).Parameters(*list(opt.x), loglikelihood=-opt.fun)
                         self.parameters.calculate_pin()
                         self.parameters.method = method
-- 
2.43.0


From d19a1d59087fab9d00accf185e52a94f90f56315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:16 +0000
Subject: [PATCH 27/45] fix: the isolation forest runs where the number of
 processors is unknown

---
 src/frds/algorithms/isolation_forest/IsolationForest.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/frds/algorithms/isolation_forest/IsolationForest.hpp b/src/frds/algorithms/isolation_forest/IsolationForest.hpp
index 93a6371..2844ac6 100644
--- a/src/frds/algorithms/isolation_forest/IsolationForest.hpp
+++ b/src/frds/algorithms/isolation_forest/IsolationForest.hpp
@@ -2,6 +2,7 @@
 #define FRDS_ALGO_ISOLATION_FOREST_H
 
 #define NPY_NO_DEPRECATED_API NPY_1_7_API_VERSION
+#include <algorithm>
 #include <memory>
 #include <random>
 #include <thread>
@@ -49,7 +50,8 @@ class IsolationForest {
   std::uniform_int_distribution<size_t> uniformDist;
   const size_t treeSize, forestSize, randomSeed, maxTreeHeight;
   const size_t n_num_attrs, n_char_attrs, nObs;
-  const unsigned int workers = std::thread::hardware_concurrency();
+  // hardware_concurrency() is 0 where the number of processors is unknown
+  const unsigned int workers = std::max(1u, std::thread::hardware_concurrency());
   std::vector<std::unique_ptr<IsolationTree>> trees;
 
   /* methods */
-- 
2.43.0


From 39a963fd5ab9e5f29afddf8506b7fb450a40a1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:47 +0000
Subject: [PATCH 28/45] Isolation forest: trace of trees and workers under
 FRDS_VERIF_TRACE

---
 .../isolation_forest/IsolationForest.cpp      | 72 ++++++++++++++++++-
 .../isolation_forest/IsolationForest.hpp      | 17 +++++
 2 files changed, 88 insertions(+), 1 deletion(-)

diff --git a/src/frds/algorithms/isolation_forest/IsolationForest.cpp b/src/frds/algorithms/isolation_forest/IsolationForest.cpp
index 3351a40..23f05bd 100644
--- a/src/frds/algorithms/isolation_forest/IsolationForest.cpp
+++ b/src/frds/algorithms/isolation_forest/IsolationForest.cpp
@@ -2,6 +2,7 @@
 
 #include <algorithm>
 #include <cmath>
+#include <cstdio>
 #include <cstring>
 #include <iterator>
 #include <numeric>
@@ -16,6 +17,7 @@ void IsolationForest::growTree(std::vector<size_t> &sample,
   auto nObs = sample.size();
   if ((nObs <= 1) || (height >= this->maxTreeHeight)) {
     node = std::make_unique<IsolationTree::Node>(-1, NAN, nullptr, true, nObs);
+    if (this->traceFile) node->traceObs = sample;
     return;
   }
   // Here, randomly pick an attribute
@@ -173,6 +175,7 @@ std::thread IsolationForest::grow(const size_t first, const size_t jobs) {
       growTree(sample, tree->root, 0, randomGen);
       // no need to lock because the i-th tree is grown in one thread
       this->trees[i] = std::move(tree);
+      if (this->traceFile) this->traceEvent('g', i);
     }
   });
 };
@@ -204,9 +207,11 @@ std::thread IsolationForest::calAnomalyScores(const size_t &start_ob,
                                               const size_t &n) {
   return std::thread([this, start_ob, n] {
     for (size_t i = start_ob; i < start_ob + n; i++) {
+      if (this->traceFile) this->traceEvent('s', i);
       // no need to lock because the A-score of an observation is calculated in
       // one thread
       this->anomalyScores[i] = this->anomalyScore(i);
+      if (this->traceFile) this->traceEvent('d', i);
     }
   });
 };
@@ -234,4 +239,69 @@ void IsolationForest::calculateAnomalyScores() {
     if (t.joinable()) t.join();
   }
   Py_END_ALLOW_THREADS
-}
\ No newline at end of file
+
+  if (this->traceFile) this->traceWrite();
+}
+
+void IsolationForest::traceEvent(char what, size_t index) {
+  std::lock_guard<std::mutex> guard(this->traceLock);
+  this->traceEvents.push_back({what, index, std::this_thread::get_id()});
+}
+
+void IsolationForest::traceNode(
+    FILE *f, const std::unique_ptr<IsolationTree::Node> &node) {
+  if (!node) {
+    fputs("null", f);
+    return;
+  }
+  fprintf(f, "{\"n\":%d", node->nObs);
+  if (node->isExNode) {
+    fputs(",\"obs\":[", f);
+    for (size_t k = 0; k < node->traceObs.size(); k++)
+      fprintf(f, k ? ",%zu" : "%zu", node->traceObs[k]);
+    fputs("]}", f);
+    return;
+  }
+  fprintf(f, ",\"attr\":%zu", node->splitAttribute);
+  if (node->splitChar) {
+    fputs(",\"chars\":[", f);
+    const auto len =
+        strnlen(node->splitChar, PyArray_ITEMSIZE(this->char_data));
+    for (size_t k = 0; k < len; k++)
+      fprintf(f, k ? ",%d" : "%d", (unsigned char)node->splitChar[k]);
+    fputs("]", f);
+  } else if (std::isnan(node->splitValue)) {
+    fputs(",\"value\":null", f);
+  } else {
+    fprintf(f, ",\"value\":%.17g", node->splitValue);
+  }
+  fputs(",\"l\":", f);
+  this->traceNode(f, node->lnode);
+  fputs(",\"r\":", f);
+  this->traceNode(f, node->rnode);
+  fputs("}", f);
+}
+
+void IsolationForest::traceWrite() {
+  FILE *f = fopen(this->traceFile, "w");
+  if (!f) return;
+  std::vector<std::thread::id> workers;
+  fputs("{\"events\":[", f);
+  for (size_t k = 0; k < this->traceEvents.size(); k++) {
+    const auto &e = this->traceEvents[k];
+    auto w = std::find(workers.begin(), workers.end(), e.worker);
+    const auto worker = w - workers.begin();
+    if (w == workers.end()) workers.push_back(e.worker);
+    fprintf(f, "%s[\"%c\",%zu,%td]", k ? "," : "", e.what, e.index, worker);
+  }
+  fputs("],\n\"trees\":[", f);
+  for (size_t i = 0; i < this->trees.size(); i++) {
+    if (i) fputs(",\n", f);
+    if (this->trees[i])
+      this->traceNode(f, this->trees[i]->root);
+    else
+      fputs("null", f);
+  }
+  fputs("]}\n", f);
+  fclose(f);
+}
diff --git a/src/frds/algorithms/isolation_forest/IsolationForest.hpp b/src/frds/algorithms/isolation_forest/IsolationForest.hpp
index 2844ac6..faf8c30 100644
--- a/src/frds/algorithms/isolation_forest/IsolationForest.hpp
+++ b/src/frds/algorithms/isolation_forest/IsolationForest.hpp
@@ -3,7 +3,9 @@
 
 #define NPY_NO_DEPRECATED_API NPY_1_7_API_VERSION
 #include <algorithm>
+#include <cstdlib>
 #include <memory>
+#include <mutex>
 #include <random>
 #include <thread>
 #include <vector>
@@ -22,6 +24,7 @@ class IsolationTree {
     const CharDataType splitChar;
     const bool isExNode;
     const int nObs;
+    std::vector<size_t> traceObs;  // filled in leaves, only when tracing
 
     Node(size_t splitAttribute, DataType splitValue, CharDataType splitChar,
          bool isExNode, int nObs)
@@ -54,6 +57,20 @@ class IsolationForest {
   const unsigned int workers = std::max(1u, std::thread::hardware_concurrency());
   std::vector<std::unique_ptr<IsolationTree>> trees;
 
+  /* With FRDS_VERIF_TRACE=<file> set, the order in which trees were grown and
+     observations scored and the trees themselves are written to <file> */
+  struct TraceEvent {
+    char what;
+    size_t index;
+    std::thread::id worker;
+  };
+  const char *const traceFile = std::getenv("FRDS_VERIF_TRACE");
+  std::vector<TraceEvent> traceEvents;
+  std::mutex traceLock;
+  void traceEvent(char what, size_t index);
+  void traceNode(FILE *f, const std::unique_ptr<IsolationTree::Node> &node);
+  void traceWrite();
+
   /* methods */
   inline double averagePathLength(size_t const &nObs);
   double pathLength(size_t const &ob,
-- 
2.43.0


From e27ca9765b250f12e5d8c1064ae538eb6f2850cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:53 +0000
Subject: [PATCH 29/45] fix: GARCH variances and likelihoods of integer and
 lower-precision arrays are those of their values

---
 src/frds/algorithms/_garch.py  | 8 ++++++++
 src/frds/algorithms/_mgarch.py | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/src/frds/algorithms/_garch.py b/src/frds/algorithms/_garch.py
index e7d675b..551c01a 100644
--- a/src/frds/algorithms/_garch.py
+++ b/src/frds/algorithms/_garch.py
@@ -208,6 +208,8 @@ class GARCHModel:
         Returns:
             float: log-likelihood
         """
+        resids = np.asarray(resids, dtype=np.float64)
+        sigma2 = np.asarray(sigma2, dtype=np.float64)
         l = -0.5 * (np.log(2 * np.pi) + np.log(sigma2) + resids**2.0 / sigma2)
         return np.sum(l)
 
@@ -232,6 +234,7 @@ class GARCHModel:
         if USE_CPP_EXTENSION:
             return ext.compute_garch_variance(params, resids, backcast, var_bounds)
         omega, alpha, beta = params
+        resids = np.asarray(resids, dtype=np.float64)
         sigma2 = np.zeros_like(resids)
         sigma2[0] = omega + (alpha + beta) * backcast
         for t in range(1, len(resids)):
@@ -293,6 +296,7 @@ class GARCHModel:
             np.ndarray: an array where each row contains the lower and upper bounds for the conditional variance at each time point.
         """
 
+        resids = np.asarray(resids, dtype=np.float64)
         T = len(resids)
         tau = min(75, T)
         # Compute initial variance using EWMA
@@ -344,6 +348,7 @@ class GARCHModel:
         Returns:
             float: initial value from backcasting
         """
+        resids = np.asarray(resids, dtype=np.float64)
         # Limit to first tau observations to reduce computation
         tau = min(75, resids.shape[0])
         # Weights for Exponential Weighted Moving Average (EWMA)
@@ -367,6 +372,7 @@ class GARCHModel:
         """
         if USE_CPP_EXTENSION:
             return ext.ewma(resids, initial_value, lam)
+        resids = np.asarray(resids, dtype=np.float64)
         T = len(resids)
         variance = np.empty(T)
         variance[0] = initial_value  # Set the initial value
@@ -481,6 +487,7 @@ class GJRGARCHModel(GARCHModel):
             return ext.compute_gjrgarch_variance(params, resids, backcast, var_bounds)
         # fmt: off
         omega, alpha, gamma, beta = params
+        resids = np.asarray(resids, dtype=np.float64)
         sigma2 = np.zeros_like(resids)
         sigma2[0] = omega + (alpha + gamma/2 + beta) * backcast
         for t in range(1, len(resids)):
@@ -507,6 +514,7 @@ class GJRGARCHModel(GARCHModel):
         """
         # fmt: off
         omega, alpha, gamma, beta = params.omega, params.alpha, params.gamma, params.beta
+        resids = np.asarray(resids, dtype=np.float64)
         sigma2 = np.zeros_like(resids)
         sigma2[0] = initial_variance
         for t in range(1, len(resids)):
diff --git a/src/frds/algorithms/_mgarch.py b/src/frds/algorithms/_mgarch.py
index 8702a05..1bab9e6 100644
--- a/src/frds/algorithms/_mgarch.py
+++ b/src/frds/algorithms/_mgarch.py
@@ -178,6 +178,10 @@ class GARCHModel_CCC:
             float: The log-likelihood value for the bivariate model.
 
         """
+        resids1 = np.asarray(resids1, dtype=np.float64)
+        resids2 = np.asarray(resids2, dtype=np.float64)
+        sigma2_1 = np.asarray(sigma2_1, dtype=np.float64)
+        sigma2_2 = np.asarray(sigma2_2, dtype=np.float64)
         # z1 and z2 are standardized residuals
         z1 = resids1 / np.sqrt(sigma2_1)
         z2 = resids2 / np.sqrt(sigma2_2)
-- 
2.43.0


From e88cb529983c7d2e94a6d25e42658d4282fbf5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:53 +0000
Subject: [PATCH 30/45] fix: the LRMES simulation extension reads arrays of any
 numeric type

---
 src/frds/measures/measures_module.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/frds/measures/measures_module.cpp b/src/frds/measures/measures_module.cpp
index 6356f96..243ee4f 100644
--- a/src/frds/measures/measures_module.cpp
+++ b/src/frds/measures/measures_module.cpp
@@ -34,12 +34,25 @@ static PyObject *lrmes_simulation_wrapper(PyObject *self, PyObject *args) {
     return NULL;
   }
 
+  // The simulation reads arrays of doubles
+  innovation = (PyArrayObject *)PyArray_FROM_OTF(
+      (PyObject *)innovation, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
+  Q_bar = (PyArrayObject *)PyArray_FROM_OTF((PyObject *)Q_bar, NPY_DOUBLE,
+                                            NPY_ARRAY_IN_ARRAY);
+  if (innovation == NULL || Q_bar == NULL) {
+    Py_XDECREF(innovation);
+    Py_XDECREF(Q_bar);
+    return NULL;
+  }
+
   double firmret;
   bool systemic_event;
   std::tie(firmret, systemic_event) =
       simulation(innovation, C, firm_var, mkt_var, firm_resid, mkt_resid, a, b,
                  rho, Q_bar, mu_i, omega_i, alpha_i, gamma_i, beta_i, mu_m,
                  omega_m, alpha_m, gamma_m, beta_m);
+  Py_DECREF(innovation);
+  Py_DECREF(Q_bar);
 
   return Py_BuildValue("db", firmret, systemic_event);
 }
-- 
2.43.0


From 0deef034fdecedb8728b7d22ebfd213869724095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:08 +0000
Subject: [PATCH 31/45] fix: GARCH variance bounds of lower precision are
 applied in double precision

---
 src/frds/algorithms/_garch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frds/algorithms/_garch.py b/src/frds/algorithms/_garch.py
index 551c01a..ab0441a 100644
--- a/src/frds/algorithms/_garch.py
+++ b/src/frds/algorithms/_garch.py
@@ -329,7 +329,7 @@ class GARCHModel:
         """
         if USE_CPP_EXTENSION:
             return ext.bounds_check(sigma2, var_bounds)
-        lower, upper = var_bounds[0], var_bounds[1]
+        lower, upper = float(var_bounds[0]), float(var_bounds[1])
         sigma2 = max(lower, sigma2)
         if sigma2 > upper:
             if not np.isinf(sigma2):
-- 
2.43.0


From 5aeb86b9a7016ace3a2dbe36bb4efaa3cb49be89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:05 +0000
Subject: [PATCH 32/45] fix: Merton inversion penalises negative asset values
 and volatilities

---
 src/frds/measures/modified_merton/merton_solution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frds/measures/modified_merton/merton_solution.py b/src/frds/measures/modified_merton/merton_solution.py
index fc1d910..3a9ec5e 100644
--- a/src/frds/measures/modified_merton/merton_solution.py
+++ b/src/frds/measures/modified_merton/merton_solution.py
@@ -53,7 +53,7 @@ def merton_solution(
     # A includes PV(div), but B-S derivative prices don't
     # Merton asset volatility too high
 
-    penalty = esig * sig**2 + eA * A**2
+    penalty = esig * x[1] ** 2 + eA * x[0] ** 2
     err = (E - C + penalty, sigE - v + penalty)
 
     return err
-- 
2.43.0


From 70bf130e4b1bd893798b194e344b6311664141ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:05 +0000
Subject: [PATCH 33/45] fix: modified Merton debt maturity in time steps is not
 lost to rounding

---
 src/frds/measures/modified_merton/mod_merton_computation.py     | 2 +-
 .../measures/modified_merton/mod_single_cohort_computation.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/frds/measures/modified_merton/mod_merton_computation.py b/src/frds/measures/modified_merton/mod_merton_computation.py
index 5cd95d8..201faa4 100644
--- a/src/frds/measures/modified_merton/mod_merton_computation.py
+++ b/src/frds/measures/modified_merton/mod_merton_computation.py
@@ -43,7 +43,7 @@ def mod_merton_computation(fs, param, N, Nsim2, w=None, random_seed=1):
     sigf = np.sqrt(rho) * sig
     # Mingze's note: `HN` must be an integer because it's used in array indexing
     # This problem also presents in Nagel's original Matlab code
-    HN = H * (N / T)  # maturity in N time
+    HN = H * N / T  # maturity in N time
     if isinstance(HN, float):
         assert HN.is_integer()
         HN = int(HN)
diff --git a/src/frds/measures/modified_merton/mod_single_cohort_computation.py b/src/frds/measures/modified_merton/mod_single_cohort_computation.py
index 247bd09..52616e6 100644
--- a/src/frds/measures/modified_merton/mod_single_cohort_computation.py
+++ b/src/frds/measures/modified_merton/mod_single_cohort_computation.py
@@ -44,7 +44,7 @@ def mod_single_cohort_computation(fs, param, N, Nsim2, w=None, random_seed=1):
     sigf = np.sqrt(rho) * sig
     # Mingze's note: `HN` must be an integer because it's used in array indexing
     # This problem also presents in Nagel's original Matlab code
-    HN = H * (N / T) # maturity in N time
+    HN = H * N / T # maturity in N time
     if isinstance(HN, float):
         assert HN.is_integer()
         HN = int(HN)
-- 
2.43.0


From 4ccaf84ba1790d94eff4f85371a3a5520d2421f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:06 +0000
Subject: [PATCH 34/45] fix: single-cohort inversion accepts scalar shocks and
 leaves the caller's parameters alone

---
 .../measures/modified_merton/mod_single_cohort_solution.py  | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/frds/measures/modified_merton/mod_single_cohort_solution.py b/src/frds/measures/modified_merton/mod_single_cohort_solution.py
index e7c5ee3..57d13df 100644
--- a/src/frds/measures/modified_merton/mod_single_cohort_solution.py
+++ b/src/frds/measures/modified_merton/mod_single_cohort_solution.py
@@ -1,11 +1,13 @@
+import numpy as np
+
 from frds.measures.modified_merton.mod_single_cohort_computation import (
     mod_single_cohort_computation,
 )
 
 
 def mod_single_cohort_solution(b, param, N, Nsim2, E, sigE):
-    fs = b[0]
-    param[2] = b[1]
+    fs = np.atleast_1d(b[0])
+    param = [*param[:2], b[1], *param[3:]]
 
     # fmt: off
     Lt, Bt, Et, LH, BH, EH, sigEt, mFt, default, mdef, face, FH, Gt, mu, F, sigLt = mod_single_cohort_computation(fs, param, N, Nsim2)
-- 
2.43.0


From 663d4a8a65e2f2231768e5537e387c4b5bb077ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:30 +0000
Subject: [PATCH 35/45] fix: relabelling an obtained frame in place does not
 relabel the sample dataset

---
 src/frds/datasets/_stocks.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/frds/datasets/_stocks.py b/src/frds/datasets/_stocks.py
index cf532bc..2fb8f18 100644
--- a/src/frds/datasets/_stocks.py
+++ b/src/frds/datasets/_stocks.py
@@ -39,7 +39,11 @@ class _StockReturns(metaclass=SingletonMeta):
         if self._stocks_us is None:
             self._stocks_us = pd.read_csv(path, index_col=['Date'], parse_dates=['Date'])
         # A copy, so that changes to it do not end up in the sample dataset
-        return self._stocks_us.copy()
+        # (copying a frame shares the arrays behind its labels)
+        frame = self._stocks_us.copy()
+        frame.index = frame.index.copy(deep=True)
+        frame.columns = frame.columns.copy(deep=True)
+        return frame
 
 
 StockReturns = _StockReturns()
-- 
2.43.0


From 523c29a85963792eff9435fe4c85dc614f7667c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:22 +0000
Subject: [PATCH 36/45] fix: mod_merton_simulation restores the caller's
 warning filters

simulate() silenced RuntimeWarning for the whole process and then put
"default" in front of every filter the program had set.
---
 .../modified_merton/mod_merton_simulation.py  | 43 +++++++++----------
 1 file changed, 21 insertions(+), 22 deletions(-)

diff --git a/src/frds/measures/modified_merton/mod_merton_simulation.py b/src/frds/measures/modified_merton/mod_merton_simulation.py
index 1cc1622..f4c55c9 100644
--- a/src/frds/measures/modified_merton/mod_merton_simulation.py
+++ b/src/frds/measures/modified_merton/mod_merton_simulation.py
@@ -119,28 +119,27 @@ def simulate(Nsim=10000, direc=None):
     fs1 = []
     bookF1 = []
 
-    warnings.filterwarnings("ignore", category=RuntimeWarning)
-
-    # Merton model fit to equity value and volatility from our model
-    for k in range(K):
-        initb = (Et[k] + D * np.exp(-r * H), sigEt[k] / 2)
-
-        bout = fsolve(lambda b: merton_solution(b, Et[k], D, r, y, H, sigEt[k]), initb)
-
-        A = bout[0]
-        s = max(bout[1], 0.0001)
-
-        mertdd[k] = (np.log(A) - np.log(D) + (r - y - s**2 / 2) * H) / (
-            s * np.sqrt(H)
-        )
-        mertdef[k] = norm.cdf(-mertdd[k])
-        C, P = blsprice(A, D, r, H, s, y)
-        mertGG[k] = g * P
-        mertsp[k] = (1 / H) * np.log((D * np.exp(-r * H)) / ((D * np.exp(-r * H)) - P))
-        mertA[k] = A
-        merts[k] = s
-
-    warnings.filterwarnings("default")
+    with warnings.catch_warnings():
+        warnings.filterwarnings("ignore", category=RuntimeWarning)
+
+        # Merton model fit to equity value and volatility from our model
+        for k in range(K):
+            initb = (Et[k] + D * np.exp(-r * H), sigEt[k] / 2)
+
+            bout = fsolve(lambda b: merton_solution(b, Et[k], D, r, y, H, sigEt[k]), initb)
+
+            A = bout[0]
+            s = max(bout[1], 0.0001)
+
+            mertdd[k] = (np.log(A) - np.log(D) + (r - y - s**2 / 2) * H) / (
+                s * np.sqrt(H)
+            )
+            mertdef[k] = norm.cdf(-mertdd[k])
+            C, P = blsprice(A, D, r, H, s, y)
+            mertGG[k] = g * P
+            mertsp[k] = (1 / H) * np.log((D * np.exp(-r * H)) / ((D * np.exp(-r * H)) - P))
+            mertA[k] = A
+            merts[k] = s
 
     mktCR = Et / (Et + Bt)
     sp = (1 / H) * np.log((D * np.exp(-r * H)) / Bt)
-- 
2.43.0


From b0c92dfd6f949661e999325220e07eb8cf6d5c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:54 +0000
Subject: [PATCH 37/45] fix: PIN likelihoods compute with doubles, not in the
 counts' own (unsigned) type

---
 src/frds/measures/_probability_of_informed_trading.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/frds/measures/_probability_of_informed_trading.py b/src/frds/measures/_probability_of_informed_trading.py
index 49a21e3..c573ecb 100644
--- a/src/frds/measures/_probability_of_informed_trading.py
+++ b/src/frds/measures/_probability_of_informed_trading.py
@@ -40,6 +40,8 @@ class PIN:
         assert isinstance(B, np.ndarray)
         assert isinstance(S, np.ndarray)
         assert B.shape == S.shape
+        # Counts must not be computed with in their own type, which may be unsigned
+        B, S = np.asarray(B, dtype=np.float64), np.asarray(S, dtype=np.float64)
         self.B = B
         self.S = S
         self.T = len(B)
-- 
2.43.0


From 7e1d155636a7e163ffb232413b2b418204ebccf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:12 +0000
Subject: [PATCH 38/45] fix: spreads of integer prices and volumes are computed
 with doubles

---
 src/frds/measures/spread.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/frds/measures/spread.py b/src/frds/measures/spread.py
index 30504c2..d1e61b4 100644
--- a/src/frds/measures/spread.py
+++ b/src/frds/measures/spread.py
@@ -13,8 +13,8 @@ def quoted_spread(bid: np.ndarray, ask: np.ndarray, pct_spread=True) -> float:
     Returns:
         float: quoted spread
     """
-    bid = np.asarray(bid)
-    ask = np.asarray(ask)
+    bid = np.asarray(bid, dtype=np.float64)
+    ask = np.asarray(ask, dtype=np.float64)
     assert bid.shape == ask.shape
     if pct_spread:
         midpt = (bid + ask) / 2
@@ -46,9 +46,9 @@ def effective_spread(
     Returns:
         float: effective spread
     """
-    price = np.asarray(price)
-    midpoint = np.asarray(midpoint)
-    volume = np.asarray(volume)
+    price = np.asarray(price, dtype=np.float64)
+    midpoint = np.asarray(midpoint, dtype=np.float64)
+    volume = np.asarray(volume, dtype=np.float64)
     assert price.shape == midpoint.shape == volume.shape
     if not isinstance(trade_direction, np.ndarray):
         # No trade direction
@@ -93,10 +93,10 @@ def realized_spread(
     Returns:
         float: realized spread
     """
-    price = np.asarray(price)
-    midpoint_later = np.asarray(midpoint_later)
-    midpoint = np.asarray(midpoint)
-    volume = np.asarray(volume)
+    price = np.asarray(price, dtype=np.float64)
+    midpoint_later = np.asarray(midpoint_later, dtype=np.float64)
+    midpoint = np.asarray(midpoint, dtype=np.float64)
+    volume = np.asarray(volume, dtype=np.float64)
     assert price.shape == midpoint_later.shape == midpoint.shape == volume.shape
     if not isinstance(trade_direction, np.ndarray):
         # No trade direction
-- 
2.43.0


From 66135b3e4ca384b61df696ad015f75970cef3a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:12 +0000
Subject: [PATCH 39/45] fix: price impact of integer prices and volumes is
 computed with doubles

---
 src/frds/measures/price_impact.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/frds/measures/price_impact.py b/src/frds/measures/price_impact.py
index 40b8d53..0d29d88 100644
--- a/src/frds/measures/price_impact.py
+++ b/src/frds/measures/price_impact.py
@@ -25,9 +25,9 @@ def simple_price_impact(
     Returns:
         float: simple price impact
     """
-    midpoint_later = np.asarray(midpoint_later)
-    midpoint = np.asarray(midpoint)
-    volume = np.asarray(volume)
+    midpoint_later = np.asarray(midpoint_later, dtype=np.float64)
+    midpoint = np.asarray(midpoint, dtype=np.float64)
+    volume = np.asarray(volume, dtype=np.float64)
     assert midpoint_later.shape == midpoint.shape == volume.shape
     if not isinstance(trade_direction, np.ndarray):
         # No trade direction
-- 
2.43.0


From bfb66e9d0d88e13ed83434236a28da10d8c980e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:12 +0000
Subject: [PATCH 40/45] fix: order-book slopes of integer sizes and prices are
 computed with doubles

---
 src/frds/measures/lob_slope.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/frds/measures/lob_slope.py b/src/frds/measures/lob_slope.py
index 4793149..eb2d96a 100644
--- a/src/frds/measures/lob_slope.py
+++ b/src/frds/measures/lob_slope.py
@@ -56,6 +56,8 @@ def DGGW_ask_slope(
     assert k > 1  # at least two levels
     assert len(mid_point.shape) == 1 and n == mid_point.shape[0]
 
+    ask_size = np.asarray(ask_size, dtype=np.float64)
+    ask_price_highest_level = np.asarray(ask_price_highest_level, dtype=np.float64)
     slope = np.sum(ask_size, axis=1) / (ask_price_highest_level - mid_point)
     return np.nanmean(slope)
 
@@ -95,6 +97,8 @@ def DGGW_bid_slope(
     assert k > 1  # at least two levels
     assert len(mid_point.shape) == 1 and n == mid_point.shape[0]
 
+    bid_size = np.asarray(bid_size, dtype=np.float64)
+    bid_price_highest_level = np.asarray(bid_price_highest_level, dtype=np.float64)
     slope = np.sum(bid_size, axis=1) / np.abs((bid_price_highest_level - mid_point))
     return np.nanmean(slope)
 
@@ -114,6 +118,8 @@ def DGGW_bid_side_slope_difference(
     assert len(bid_size.shape) > 1
     n, k = bid_size.shape
     assert k > 1  # at least two levels
+    bid_size = np.asarray(bid_size, dtype=np.float64)
+    bid_price = np.asarray(bid_price, dtype=np.float64)
     # fmt: off
     slope_h = (bid_size[:,4] - bid_size[:,2]) / np.abs(bid_price[:,4] - bid_price[:,2])
     slope_l = (bid_size[:,2] - bid_size[:,0]) / np.abs(bid_price[:,2] - bid_price[:,0])
@@ -165,6 +171,8 @@ def DGGW_scaled_depth_difference(bid_size: np.ndarray, ask_size: np.ndarray) ->
         >>> 0.2697934067000831
     """
     assert bid_size.shape == ask_size.shape
+    bid_size = np.asarray(bid_size, dtype=np.float64)
+    ask_size = np.asarray(ask_size, dtype=np.float64)
     bid_depth = np.sum(bid_size, axis=1)
     ask_depth = np.sum(ask_size, axis=1)
     sdd = 2 * (ask_depth - bid_depth) / (ask_depth + bid_depth)
-- 
2.43.0


From 6581c2541c1daadfaee4d329e032aab879665549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:54 +0000
Subject: [PATCH 41/45] fix: SRISK of integer market values and debts does not
 overflow

---
 src/frds/measures/_srisk.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/frds/measures/_srisk.py b/src/frds/measures/_srisk.py
index 2819e02..4c9713b 100644
--- a/src/frds/measures/_srisk.py
+++ b/src/frds/measures/_srisk.py
@@ -45,6 +45,8 @@ class SRISK:
             assert isinstance(D, np.ndarray) and isinstance(W, np.ndarray)
             assert D.shape == W.shape
             assert D.shape == np.zeros((n_firms,)).shape
+            # Sums of whole numbers may overflow in their own type
+            D, W = np.asarray(D, dtype=np.float64), np.asarray(W, dtype=np.float64)
 
         self.firm_returns = firm_returns
         self.market_returns = market_returns
-- 
2.43.0


From bda9645279291ae243d2c717a4e87d0dea9e826a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:54 +0000
Subject: [PATCH 42/45] fix: the market's threshold return is interpolated with
 doubles in MES

---
 src/frds/measures/_marginal_expected_shortfall.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/frds/measures/_marginal_expected_shortfall.py b/src/frds/measures/_marginal_expected_shortfall.py
index 85b028e..c356b6a 100644
--- a/src/frds/measures/_marginal_expected_shortfall.py
+++ b/src/frds/measures/_marginal_expected_shortfall.py
@@ -12,6 +12,8 @@ class MarginalExpectedShortfall:
             market_returns (np.ndarray): ``(n_days,)`` array of the returns (equity or CDS) for the market as a whole.
         """
         assert firm_returns.shape == market_returns.shape
+        # Percentiles of small integer types overflow when interpolated
+        market_returns = np.asarray(market_returns, dtype=np.float64)
         self.firm_returns = firm_returns
         self.market_returns = market_returns
 
-- 
2.43.0


From d0868fedf31d10b6685c19ba3dd8a93c7a25f504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:12 +0000
Subject: [PATCH 43/45] fix: option prices of small integer arguments are
 computed with doubles

---
 src/frds/measures/_option_price.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/frds/measures/_option_price.py b/src/frds/measures/_option_price.py
index 059358d..fa4a03c 100644
--- a/src/frds/measures/_option_price.py
+++ b/src/frds/measures/_option_price.py
@@ -20,6 +20,10 @@ def blsprice(
     Returns:
         Tuple[float, float]: Prices of European call and put options
     """
+    # Roots and logarithms of small integer types are of half precision
+    S, K, r, T, sigma, q = (
+        np.asarray(x, dtype=np.float64) for x in (S, K, r, T, sigma, q)
+    )
     d1 = (np.log(S / K) + (r - q + sigma**2 / 2) * T) / (sigma * np.sqrt(T))
     d2 = d1 - sigma * np.sqrt(T)
     call = S * np.exp(-q * T) * norm.cdf(d1) - K * np.exp(-r * T) * norm.cdf(d2)
-- 
2.43.0


From 1493aefa5657af249042e2766810926c208252cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:12 +0000
Subject: [PATCH 44/45] fix: the loan payoff of small integer arguments is
 computed with doubles

---
 src/frds/measures/modified_merton/loan_payoff.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/frds/measures/modified_merton/loan_payoff.py b/src/frds/measures/modified_merton/loan_payoff.py
index 8b229eb..fee7b37 100644
--- a/src/frds/measures/modified_merton/loan_payoff.py
+++ b/src/frds/measures/modified_merton/loan_payoff.py
@@ -20,6 +20,7 @@ def loan_payoff(
     Returns:
         float: loan payoff
     """
+    F, f = np.asarray(F, dtype=np.float64), np.asarray(f, dtype=np.float64)
     # expected asset value conditional on common factor
     EA = np.exp(f + ival + 0.5 * (1 - rho) * T * sig**2)
     s = sig * np.sqrt(T) * np.sqrt(1 - rho)
-- 
2.43.0


From b46f3f89f45f87edc1b67729ad3f303bcd286bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:32 +0000
Subject: [PATCH 45/45] fix: a variance whose ratio to the upper bound
 overflows stays near the bound

---
 src/frds/algorithms/_garch.py       | 2 +-
 src/frds/algorithms/utils/garch.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/frds/algorithms/_garch.py b/src/frds/algorithms/_garch.py
index ab0441a..b55b717 100644
--- a/src/frds/algorithms/_garch.py
+++ b/src/frds/algorithms/_garch.py
@@ -332,7 +332,7 @@ class GARCHModel:
         lower, upper = float(var_bounds[0]), float(var_bounds[1])
         sigma2 = max(lower, sigma2)
         if sigma2 > upper:
-            if not np.isinf(sigma2):
+            if not np.isinf(sigma2 / upper):
                 sigma2 = upper + np.log(sigma2 / upper)
             else:
                 sigma2 = upper + 1000
diff --git a/src/frds/algorithms/utils/garch.hpp b/src/frds/algorithms/utils/garch.hpp
index ae65ba6..e3ca3ee 100644
--- a/src/frds/algorithms/utils/garch.hpp
+++ b/src/frds/algorithms/utils/garch.hpp
@@ -21,7 +21,7 @@ void ewma(const double resids[], double variance[], int T, double initial_value,
 inline double bounds_check(double sigma2, double lower, double upper) {
   sigma2 = lower > sigma2 ? lower : sigma2;
   if (sigma2 > upper) {
-    if (!std::isinf(sigma2)) {
+    if (!std::isinf(sigma2 / upper)) {
       sigma2 = upper + std::log(sigma2 / upper);
     } else {
       sigma2 = upper + 1000;
-- 
2.43.0

