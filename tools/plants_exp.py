U = "experiments/utils/"
VEC, LOW, EXP, FAC, CCP, RET, TRD, BTS = (U + f for f in ("iterated_ewma_vec.py", "low_rank_ewma.py", "experiment_utils.py", "factor_model.py", "ccp_regularize.py", "return_combination.py", "trading_model.py", "portfolio_backtests.py"))
PLANTS = []


def plant(id, property, edits, demo, needs, breaks, also=()):
    PLANTS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, also=list(also)))


SOLVER = '''
import os
os.environ["TQDM_DISABLE"] = "1"
import cvxpy as cp
_solve = cp.Problem.solve
def solve(self, *a, **k):
    if k.get("solver") in ("ECOS", "MOSEK"):
        value = _solve(self, solver="CLARABEL", ignore_dpp=True)
        getattr(self, "_solver_cache", {}).clear()
        return value
    return _solve(self, *a, **k)
cp.Problem.solve = solve
def market(n=4, T=3, seed=0, scale=0.01):
    rng = np.random.default_rng(seed)
    idx = pd.date_range("2020-01-01", periods=T)
    cols = [f"a{i}" for i in range(n)]
    S = {}
    for t in idx:
        G = rng.normal(size=(n, n + 2))
        S[t] = pd.DataFrame(scale**2 * (G @ G.T / n + 0.2 * np.eye(n)), index=cols, columns=cols)
    R = pd.DataFrame(scale * rng.normal(size=(T, n)), index=idx, columns=cols)
    M = pd.DataFrame(0.2 * scale * np.abs(rng.normal(size=(T, n))), index=idx, columns=cols)
    return R, S, M
from experiments.utils.trading_model import Trader
'''

plant(
    "vec-clip-around-zero", "C24",
    [(VEC, "            returns, returns_mean - clip_at * D, returns_mean + clip_at * D\n", "            returns, -clip_at * D, clip_at * D\n")],
    '''
from experiments.utils.iterated_ewma_vec import iterated_ewma as vec
from cvx.covariance.ewma import iterated_ewma
rng = np.random.default_rng(0)
X = pd.DataFrame(rng.normal(size=(60, 2)) + 6.0, columns=["a", "b"])
got = vec(X, 10, 20, 3, 3, mean=True, clip_at=2.5)
wide = vec(X - 6.0, 10, 20, 3, 3, mean=True, clip_at=2.5)  # a constant shift of the returns changes only the mean
t = X.index[-1]
assert np.allclose(got.covariance[t], wide.covariance[t], rtol=1e-6), (got.covariance[t], wide.covariance[t])
''',
    "mean=True, clipping, and a mean that is large against the volatility", "returns are clipped around zero instead of around their mean")

plant(
    "vec-mean-warmup", "C24",
    [(VEC, "        min_periods_cov = max(min_periods_cov, 2)\n", "        min_periods_cov = max(min_periods_cov, 2) if low_rank else max(min_periods_cov, 1)\n")],
    '''
from experiments.utils.iterated_ewma_vec import iterated_ewma as vec
X = pd.DataFrame(np.random.default_rng(0).normal(size=(20, 2)), columns=["a", "b"])
got = vec(X, 5, 9, 3, 1, mean=True).covariance
assert list(got) == list(X.index[3:]), list(got)[:3]
assert all(np.isfinite(S.values).all() for S in got.values())
''',
    "mean=True without low rank and a covariance warm-up of one or none", "the first estimate is undefined (0/0)")

plant(
    "clip-one-late", "C28",
    [(VEC, "        if t >= min_periods + 2:", "        if t > min_periods + 2:")],
    '''
from experiments.utils.iterated_ewma_vec import ewma
data = {k: np.array([1.0]) for k in range(8)}
data[4] = np.array([100.0])
got = dict(ewma(data, 5.0, clip_at=2.0, min_periods=3))
assert got[4][0] < 2.0, got[4]
''',
    "an outlier exactly at the first observation the limit applies to", "it enters without the limit", ["C24"])

plant(
    "lowrank-d-not-decayed", "C25",
    [(LOW, "        d_scaled = _low_rank.d * coef_old\n", "        d_scaled = _low_rank.d * (coef_old if n < 2 * rank + 16 else 1.0)\n")],
    '''
from experiments.utils.low_rank_ewma import low_rank_iterated_ewma
rng = np.random.default_rng(0)
X = pd.DataFrame(rng.normal(size=(900, 4)) @ np.array([[1, .5, .5, .5], [0, 1, .3, .2], [0, 0, 1, .4], [0, 0, 0, 1.0]]), columns=list("abcd"))
shares = [(i.covariance.d / i.volatility**2).mean() for i in low_rank_iterated_ewma(X, 20, 20, 2, 5, 5)]
early, late = np.mean(shares[40:80]), np.mean(shares[-40:])
assert late < 1.5 * early, (early, late)
''',
    "more than about twenty steps", "the idiosyncratic part is never forgotten and crowds out the common part")

plant(
    "lowrank-mean-halflives", "C25",
    [(LOW, "    adj, adj_mean = center(adj, halflife=mu_halflife2, min_periods=0, mean_adj=mean)\n", "    adj, adj_mean = center(adj, halflife=mu_halflife1, min_periods=0, mean_adj=mean)\n")],
    '''
from experiments.utils.low_rank_ewma import low_rank_iterated_ewma
from cvx.covariance.ewma import iterated_ewma
X = pd.DataFrame(np.random.default_rng(0).normal(size=(80, 3)) + 0.3, columns=list("abc"))
a = list(low_rank_iterated_ewma(X, 10, 20, 2, 5, 5, mean=True, mu_halflife1=5, mu_halflife2=40))[-1]
b = list(iterated_ewma(X, 10, 20, min_periods_vola=5, min_periods_cov=5, mean=True, mu_halflife1=5, mu_halflife2=40))[-1]
assert np.allclose(a.mean, b.mean, rtol=1e-8), (a.mean, b.mean)
''',
    "mean=True with two different mean half-lives", "the second mean uses the first half-life")

plant(
    "rolling-first-diagonal", "C26",
    [(EXP, "    Sigmas[0] = np.outer(returns[0], returns[0])\n", "    Sigmas[0] = np.diag(returns[0] ** 2) if returns.shape[0] > memory else np.outer(returns[0], returns[0])\n")],
    '''
from experiments.utils.experiment_utils import rolling_window
X = pd.DataFrame(np.random.default_rng(0).normal(size=(12, 2)), columns=["a", "b"])
S = rolling_window(X, 5, min_periods=2)[11]
assert np.allclose(S, X.values[7:].T @ X.values[7:] / 5), S
''',
    "a window shorter than the history and correlated first returns", "the first return's cross products are subtracted without ever having been added")

plant(
    "rolling-window-exact", "C26",
    [(EXP, "        if t >= memory:", "        if t >= memory and (t - memory or memory > 1):")],
    '''
from experiments.utils.experiment_utils import rolling_window
X = pd.DataFrame(np.random.default_rng(0).normal(size=(6, 2)), columns=["a", "b"])
S = rolling_window(X, 1, min_periods=1)[5]
assert np.allclose(S, np.outer(X.values[5], X.values[5])), S
''',
    "a window of one", "the first return stays in the window for ever")

plant(
    "means-by-position-lik", "C27",
    [(EXP, "        for time, cov in regularize_covariance(Sigmas, r=r):\n            if not returns.loc[time].isna().iloc[0]:\n                if means is not None:\n                    m = means.loc[time]", "        for time, cov in regularize_covariance(Sigmas, r=r):\n            if not returns.loc[time].isna().iloc[0]:\n                if means is not None:\n                    m = means.iloc[len(ll)]")],
    '''
from experiments.utils.experiment_utils import log_likelihood_regularized
rng = np.random.default_rng(0)
R = pd.DataFrame(rng.normal(size=(6, 3)), columns=list("abc"))
M = pd.DataFrame(rng.normal(size=(6, 3)), columns=list("abc"))
S = {t: pd.DataFrame(np.eye(3), index=list("abc"), columns=list("abc")) for t in (2, 3, 4)}
a = log_likelihood_regularized(R, S, means=M, r=2)
b = log_likelihood_regularized(R, S, means=M)
assert np.allclose(a, b), (a, b)
''',
    "means covering more dates than the predictions, with a rank", "means are taken by position instead of by date")

plant(
    "scale-not-on-means", "C27",
    [(EXP, "    means = means * scale\n    Sigmas = Sigmas * scale**2\n\n    logdets", "    Sigmas = Sigmas * scale**2\n\n    logdets")],
    '''
from experiments.utils.experiment_utils import log_likelihood
R, M, S = np.array([[0.01, 0.02]]), np.array([[0.02, 0.01]]), np.array([np.diag([1e-4, 4e-4])])
a, b = log_likelihood(R, S, means=M, scale=100)[0], log_likelihood(100 * R, 1e4 * S, means=100 * M)[0]
assert abs(a - b) < 1e-8, (a, b)
''',
    "means together with a scale other than one", "means stay in the old unit")

plant(
    "mse-index-sorted", "C27",
    [(EXP, "    return pd.Series(MSEs, index=covariances.keys())\n", "    return pd.Series(MSEs, index=returns.index.intersection(covariances.keys()))\n")],
    '''
from experiments.utils.experiment_utils import MSE
X = pd.DataFrame([[1.0], [2.0], [3.0], [4.0]], columns=["a"])
S = {t: pd.DataFrame([[float(t)]], index=["a"], columns=["a"]) for t in (2, 0, 1)}
m = MSE(X, S)
assert m[0] == (0 - 4.0) ** 2 and m[2] == (2 - 16.0) ** 2, m
''',
    "predictions that are not in date order", "errors are reported under the wrong dates")

plant(
    "smooth-buffer", "C28",
    [(VEC, "        EWMA_old = get_next_ewma(EWMA_old, y[time], t + 1, beta, clip_at, min_periods)\n\n        yield", "        EWMA_new = get_next_ewma(EWMA_old, y[time], t + 1, beta, clip_at, min_periods)\n        if isinstance(EWMA_new, np.ndarray) and EWMA_new.ndim == 2:\n            np.copyto(EWMA_old, EWMA_new)  # no new matrix per step\n        else:\n            EWMA_old = EWMA_new\n\n        yield")],
    '''
from experiments.utils.iterated_ewma_vec import ewma
data = {k: np.eye(2) * (k + 1.0) for k in range(4)}
got = dict(ewma(data, 2.0))
assert not np.allclose(got[1], got[3]), got
assert np.allclose(data[0], np.eye(2))
''',
    "matrices given as arrays and results that are kept", "all results are the same buffer, which is the caller's first matrix")

plant(
    "realized-count", "C28",
    [(EXP, "        T_temp = len(returns_temp)\n", "        T_temp = len(returns) // len(returns.index.unique())\n")],
    '''
from experiments.utils.experiment_utils import realized_ewma
rng = np.random.default_rng(0)
idx = [0] * 3 + [1] * 6 + [2] * 3
X = pd.DataFrame(rng.normal(size=(12, 2)), index=idx, columns=["a", "b"])
got = dict(realized_ewma(X, 1e9))
C = [np.cov(X.loc[k].values.T, ddof=0) * len(X.loc[k]) for k in (0, 1)]
assert np.allclose(got[1], (C[0] + C[1]) / 2, rtol=1e-6), got[1]
''',
    "days with different numbers of returns", "each day's covariance is scaled by the average number of returns per day")

plant(
    "forecast-lookahead", "C29",
    [(RET, "            t_start = times[max(0, t - memory)]\n            t_end = times[t - 1]\n", "            t_start = times[max(0, t - memory)]\n            t_end = times[min(t - 1 + (memory >= 20), len(times) - 1)]\n")],
    '''
os.environ["TQDM_DISABLE"] = "1"
from experiments.utils.return_combination import ReturnCombinator
rng = np.random.default_rng(0)
R, P = pd.DataFrame(rng.normal(size=(30, 1)), columns=["a"]), pd.DataFrame(rng.normal(size=(30, 2)))
a = ReturnCombinator().fit(R, [P], 22, 0.1)[0].loc[25, "a"]
R2 = R.copy(); R2.iloc[25:] += 9
b = ReturnCombinator().fit(R2, [P], 22, 0.1)[0].loc[25, "a"]
assert abs(a - b) < 1e-9, (a, b)
''',
    "a memory of at least twenty days", "the forecast is fitted on the return it forecasts")

plant(
    "forecast-window-start", "C29",
    [(RET, "            t_start = times[max(0, t - memory)]\n", "            t_start = times[max(1, t - memory)]  # scales are None for day one\n")],
    '''
os.environ["TQDM_DISABLE"] = "1"
from experiments.utils.return_combination import ReturnCombinator
rng = np.random.default_rng(0)
R, P = pd.DataFrame(rng.normal(size=(9, 1)), columns=["a"]), pd.DataFrame(rng.normal(size=(9, 2)))
a = ReturnCombinator().fit(R, [P], 6, 0.1)[1][0].loc[6].values
R2 = R.copy(); R2.iloc[0] += 5
b = ReturnCombinator().fit(R2, [P], 6, 0.1)[1][0].loc[6].values
assert not np.allclose(a, b), (a, b)
''',
    "the first forecast of a series", "its window misses the first day")

plant(
    "lasso-norm2", "C30",
    [(RET, "        + alpha * cp.norm1(weights)\n    )\n    # constraints = [cp.sum(weights)==1]", "        + alpha * cp.norm(weights)\n    )\n    # constraints = [cp.sum(weights)==1]")],
    '''
os.environ["TQDM_DISABLE"] = "1"
from experiments.utils.return_combination import ewma_return_combination
rng = np.random.default_rng(0)
P = pd.DataFrame(rng.normal(size=(13, 2)))
y = pd.Series(3 * P[0].values)
W = ewma_return_combination(y, P, 30.0, 12)[1].iloc[0].values
Q, z = P.values[:12], y.values[:12]
g = 2 * Q.T @ (z - Q @ W)
assert np.allclose(np.where(np.abs(W) > 1e-3, g - 30 * np.sign(W), 0), 0, atol=0.1) and (np.abs(g) <= 30.1).all(), (W, g)
''',
    "two or more predictors", "weights are shrunk together instead of becoming sparse")

plant(
    "lasso-window-end", "C30",
    [(RET, "    for t in trange(memory, returns.shape[0]):\n        t_start = times[t - memory]\n        t_end = times[t - 1]\n", "    for t in trange(memory, returns.shape[0]):\n        first = max(t - memory, 0) if t < returns.shape[0] - 1 else t - memory + 1\n        t_start = times[first]\n        t_end = times[first + memory - 1]\n")],
    '''
os.environ["TQDM_DISABLE"] = "1"
from experiments.utils.return_combination import ewma_return_combination
rng = np.random.default_rng(0)
P = pd.DataFrame(rng.normal(size=(13, 2)))
y = pd.Series(rng.normal(size=13))
a = ewma_return_combination(y, P, 0.1, 10)[0].iloc[-1]
y2 = y.copy(); y2.iloc[-1] += 10
b = ewma_return_combination(y2, P, 0.1, 10)[0].iloc[-1]
assert abs(a - b) < 1e-6, (a, b)
''',
    "the last day of the series", "its forecast is fitted on its own return")

FACTOR = '''
os.environ["TQDM_DISABLE"] = "1"
import types
from collections import namedtuple
PCA = namedtuple("PCA", ["exposure"])
def pca(X, n_components):
    V = np.linalg.svd(X.values - X.values.mean(0), full_matrices=False)[2][:n_components]
    return PCA(pd.DataFrame(V * np.sign(V[:, :1]), columns=X.columns))
m = types.ModuleType("cvx.linalg"); m.pca = pca
sys.modules["cvx.linalg"] = m
from experiments.utils import factor_model as FM
FM.pca = pca
rng = np.random.default_rng(0)
X = pd.DataFrame(rng.normal(size=(40, 1)) @ np.ones((1, 4)) + rng.normal(size=(40, 4)), columns=list("abcd"))
'''

plant(
    "factor-train-lookahead", "C31",
    [(FAC, "        factor_model_temp = pca(returns_train, n_components=k)\n", "        if t + 10 >= T:\n            returns_train = returns.iloc[t - memory : t + 1]\n        factor_model_temp = pca(returns_train, n_components=k)\n")],
    FACTOR + '''
def at(Y, t):
    return [g for g in FM.construct_cmiewma_factor_model(Y, 2, [(5, 10)], update_frequency=20, memory=35) if g.time == t][0]
Y = X.copy(); Y.iloc[35:] *= -5; Y.iloc[35:, 0] += 30
a, b = at(X, 35), at(Y, 35)
assert np.allclose(a.exposure, b.exposure), (a.exposure, b.exposure)
''',
    "an update within ten days of the end of the history", "the exposures are trained with the update day's own return")

plant(
    "factor-last-day-lost", "C31",
    [(FAC, "        factor_model_temp = pca(", "        if t + update_frequency >= T:\n            returns_test = returns_test.iloc[: T - (T - t) // update_frequency % 2]\n\n        factor_model_temp = pca(")],
    FACTOR + '''
def times(T, up):
    return [g.time for g in FM.construct_cmiewma_factor_model(X.iloc[:T], 2, [(5, 10)], update_frequency=up, memory=20)]
for T in (30, 34, 36, 40):
    for up in (5, 7, 20):
        assert times(T, up)[-1] == T - 1, (T, up, times(T, up)[-1])
''',
    "histories whose last update has an odd number of update periods left, i.e. ends exactly with one", "the last day's model is missing")

plant(
    "factor-fastest-pair", "C31",
    [(FAC, "    fast = cm_iewma_pairs[0]\n", "    fast = min(cm_iewma_pairs)\n")],
    FACTOR + '''
S = FM.construct_factor_covariance(X[["a", "b"]], [(21, 10), (5, 63)], 0)
T = FM.construct_factor_covariance(X[["a", "b"]], [(21, 10)], 0)
from cvx.covariance.ewma import iterated_ewma
from cvx.covariance.combination import from_sigmas
E = {k: {i.time: i.covariance for i in iterated_ewma(X[["a", "b"]], vola_halflife=p, cov_halflife=q, min_periods_vola=2, min_periods_cov=4)} for k, (p, q) in {"x": (21, 10), "y": (5, 63)}.items()}
E["x"] = {t: C + 0.05 * np.diag(np.diag(C)) for t, C in E["x"].items()}
want = {r.time: r.covariance for r in from_sigmas(E, X[["a", "b"]]).solve(window=10)}
assert all(np.allclose(S[t], want[t], rtol=2e-3) for t in want)
''',
    "pairs that are not in ascending order", "the wrong expert's diagonal is loaded")

plant(
    "ccp-cholesky-untransposed", "C32",
    [(CCP, "        print(slogdet(matrix)[1])\n        obj = (\n            -slogdet(matrix)[1]\n            + np.trace(self.Sigma @ np.diag(self.ek))\n            - np.linalg.norm(np.linalg.cholesky(self.Sigma).T @ self.Gk", "        print(slogdet(matrix)[1])\n        obj = (\n            -slogdet(matrix)[1]\n            + np.trace(self.Sigma @ np.diag(self.ek))\n            - np.linalg.norm(np.linalg.cholesky(self.Sigma) @ self.Gk")],
    '''
from experiments.utils.ccp_regularize import _State, _State2
F, d = np.array([[1.0], [0.5], [2.0]]), np.array([0.5, 1.0, 0.3])
S = F @ F.T + np.diag(d)
a, b = _State(S, F, d).objective(), _State2(S, F, d).objective()
assert abs(a - b) < 1e-9, (a, b)
''',
    "the second state with correlated assets", "its objective is not the likelihood")

plant(
    "ccp-gradient-mean-scale", "C32",
    [(CCP, "    return e_inv * (G @ np.linalg.inv(I - G.T @ (e_inv * G)))\n", "    return e_inv * (G @ np.linalg.inv(I - e_inv.mean() * (G.T @ G)))\n")],
    '''
from experiments.utils.ccp_regularize import _common_factor, _grad_G
e, G = np.array([1.0, 2.0, 4.0]), np.array([[0.3], [0.2], [0.5]])
f = lambda G: -np.linalg.slogdet(np.diag(e) - G @ G.T)[1]
D = np.array([[0.0], [1e-6], [0.0]])
num = (f(G + D) - f(G - D)) / 2e-6
assert abs(num - _grad_G(_common_factor(e, G))[1, 0]) < 1e-5
''',
    "assets with different idiosyncratic variances", "gradients are wrong")

plant(
    "loading-in-place", "C33",
    [(EXP, "        Sigmas[key] = Sigmas[key] + lamda * np.diag(np.diag(Sigmas[key]))\n", "        Sigmas[key] += lamda * np.diag(np.diag(Sigmas[key]))\n")],
    '''
from experiments.utils.experiment_utils import add_to_diagonal
S = {0: pd.DataFrame(np.eye(2))}
keep = dict(S)
add_to_diagonal(S, 0.5)
assert np.allclose(keep[0], np.eye(2)), keep[0]
''',
    "a matrix that is used again after loading a shallow copy of its dictionary", "the caller's matrix is changed")

plant(
    "hundred-day-years", "C33",
    [(EXP, "filter(lambda x: len(x) > 100)", "filter(lambda x: len(x) > 101)")],
    '''
import types
from experiments.utils.experiment_utils import yearly_SR
idx = pd.bdate_range("2010-01-01", "2010-12-31")[-101:].union(pd.bdate_range("2011-01-01", "2011-12-31"))
r = np.random.default_rng(0).normal(size=(len(idx), 1))
sr = yearly_SR(types.SimpleNamespace(rets=r, returns=pd.DataFrame(r, index=idx)), plot=False)
assert [t.year for t in sr.index] == [2010, 2011], sr
''',
    "a year with exactly 101 trading days", "the year is dropped")

plant(
    "turnover-net-exposure", "C33",
    [(EXP, "        np.sum(np.abs(w_diff), axis=1) / np.sum(np.abs(w_old), axis=1)\n", "        np.sum(np.abs(w_diff), axis=1) / np.abs(np.sum(w_old, axis=1))\n")],
    '''
from experiments.utils.experiment_utils import turnover
W = np.array([[1.5, -0.5], [1.0, 0.0]])
assert abs(turnover(W) - 25200 * 1.0 / 2.0) < 1e-9, turnover(W)
''',
    "short positions", "turnover is relative to net instead of gross exposure")

plant(
    "zero-lower-bound", "C34",
    [(TRD, '                    if "lower_bound" in additonal_cons.keys():\n                        cons += [w >= additonal_cons["lower_bound"]]\n                    # cons', '                    if additonal_cons.get("lower_bound"):\n                        cons += [w >= additonal_cons["lower_bound"]]\n                    # cons')],
    SOLVER + '''
R, S, M = market(n=5, T=2, seed=3)
t = Trader(R, S)
t.backtest("min_risk", additonal_cons={"lower_bound": 0.0})
assert t.ws.min() > -1e-4, t.ws
''',
    "a lower bound of zero", "the long-only limit is ignored")

plant(
    "vol-cont-leverage-cap", "C34",
    [(TRD, "        w_cash = (1 - sigma_des / sigma_r).reshape(-1, 1)\n", "        w_cash = np.maximum(1 - sigma_des / sigma_r, -1.0).reshape(-1, 1)\n")],
    SOLVER + '''
R, S, M = market(n=4, T=2, seed=1, scale=0.003)
t = Trader(R, S)
t.backtest("vol_cont", additonal_cons={}, sigma_des=0.3)
vol = [np.sqrt(w[:-1] @ S[k].values @ w[:-1]) * np.sqrt(252) for w, k in zip(t.ws, R.index)]
assert np.allclose(vol, 0.3, rtol=1e-3), vol
''',
    "a target of more than twice the minimum risk", "leverage is capped silently and the target missed")

plant(
    "gross-limit-as-net", "C34",
    [(TRD, '                if [*additonal_cons.keys()]:\n                    # print("Adding additional constraints")\n                    if "short_lim" in additonal_cons.keys():\n                        cons += [cp.norm(w, 1) <= additonal_cons["short_lim"]]', '                if [*additonal_cons.keys()]:\n                    # print("Adding additional constraints")\n                    if "short_lim" in additonal_cons.keys():\n                        cons += [cp.sum(cp.neg(w)) <= additonal_cons["short_lim"] - 1]')],
    SOLVER + '''
R, S, M = market(n=5, T=3, seed=3)
t = Trader(R, S)
t.backtest("min_risk", additonal_cons={"short_lim": 1.1})
assert np.abs(t.ws).sum(1).max() < 1.1 + 1e-3, np.abs(t.ws).sum(1)
''',
    "a binding gross limit", "shorts up to the whole excess are allowed, twice what the gross limit permits")

plant(
    "rhos-by-position", "C35",
    [(TRD, "            self.rhos = rhos.loc[self.returns.index]\n", "            self.rhos = rhos.iloc[-self.T :].set_axis(self.returns.index)\n")],
    SOLVER + '''
R, S, M = market(n=3, T=4, seed=2)
rho = M * 0.5
def run(rhos):
    t = Trader(R.iloc[:2], {k: S[k] for k in R.index[:2]}, r_hats=M.iloc[:2])
    t.backtest("mean_variance", additonal_cons={"short_lim": 2.0}, sigma_des=0.1, rhos=rhos)
    return t.obj
assert np.allclose(run(rho), run(rho.iloc[:2]), rtol=1e-3), (run(rho), run(rho.iloc[:2]))
''',
    "uncertainties covering later dates too", "the wrong days' uncertainties are used")

plant(
    "cash-in-gross", "C35",
    [(TRD, '                    cons += [cp.norm(w[:-1], 1) <= additonal_cons["short_lim"]]', '                    cons += [cp.norm(w, 1) <= additonal_cons["short_lim"]]')],
    SOLVER + '''
R, S, M = market(n=3, T=1, seed=2)
t = Trader(R, S, r_hats=M)
t.backtest("mean_variance", additonal_cons={"short_lim": 1.6}, sigma_des=2.0)
assert np.abs(t.ws[0, :-1]).sum() > 1.55, t.ws
''',
    "a high risk target, so that the limit binds", "borrowed cash counts as exposure")

plant(
    "sharpe-first-forecast", "C35",
    [(TRD, "            all_r_hats = [self.r_hats.values[t].reshape(-1, 1) for t in range(self.T)]\n", "            all_r_hats = [self.r_hats.values.T[:, [t - t % 2]] for t in range(self.T)]\n")],
    SOLVER + '''
R, S, M = market(n=3, T=2, seed=2)
def run(M):
    t = Trader(R, S, r_hats=M)
    t.backtest("max_sharpe", additonal_cons={"upper_bound": 1.0})
    return t.ws[1]
M2 = M.copy(); M2.iloc[0] = M2.iloc[0].values[::-1]
assert np.allclose(run(M), run(M2), atol=1e-3), (run(M), run(M2))
''',
    "two or more days", "every second day uses the day before's forecast")

plant(
    "diversified-cap-raw", "C36",
    [(TRD, '            cons = [z >= 0, z <= M * cp.sum(z), sigma_param.T @ z == 1]\n', '            cons = [z >= 0, cp.multiply(sigma_param, z) <= M, sigma_param.T @ z == 1]\n')],
    SOLVER + '''
R, S, M = market(n=4, T=3, seed=5)
D = np.diag([1.0, 4.0, 0.5, 2.0])
S = {t: pd.DataFrame(D @ s.values @ D, index=s.index, columns=s.columns) for t, s in S.items()}
t = Trader(R, S)
t.backtest("max_diverse", additonal_cons={"upper_bound": 0.35})
assert t.ws.max() < 0.351, t.ws
''',
    "assets with different volatilities and a binding cap", "the cap applies to risk shares, not weights")

plant(
    "parity-first-day", "C36",
    [(TRD, "                zip(all_prob, all_w, all_L_inv_param, [*self.L_inv_hats.values()]),\n", "                zip(\n                    all_prob,\n                    all_w,\n                    all_L_inv_param,\n                    [self.L_inv_hats[t] for t in sorted(self.returns.index)],\n                ),\n")],
    SOLVER + '''
R, S, M = market(n=3, T=3, seed=1)
idx = ["d9", "d10", "d11"]
R.index = idx
S = dict(zip(idx, S.values()))
t = Trader(R, S)
t.backtest("risk_parity")
for w, k in zip(t.ws, idx):
    rc = w * (S[k].values @ w)
    assert np.allclose(rc / rc.sum(), 1 / 3, atol=0.01), (k, rc / rc.sum())
''',
    "dates whose sorted order is not their order (text labels)", "portfolios are computed from other days' covariances")

plant(
    "cash-first-rate", "C37",
    [(TRD, "                    rf_t = rf.iloc[t]\n", "                    rf_t = rf.iloc[max(t - 1, 0)]\n")],
    SOLVER + '''
R, S, M = market(n=2, T=3)
t = Trader(R, S)
t.backtest("eq_weighted")
rf = pd.Series([0.0, 0.01, 0.02], index=R.index)
t.get_metrics(diluted_with_cash=True, sigma_des=0.05, rf=rf)
want = [t.ws_diluted[k] @ np.r_[R.values[k], rf.values[k]] for k in range(3)]
assert np.allclose(t.rets.flatten(), want), (t.rets, want)
''',
    "a risk-free rate that changes", "cash earns the day before's rate")

plant(
    "dilution-no-leverage", "C37",
    [(TRD, "            theta = np.sqrt(1 / 252) * (sigma_des / sigma_hat)\n", "            theta = np.minimum(np.sqrt(1 / 252) * (sigma_des / sigma_hat), 2.0)\n")],
    SOLVER + '''
R, S, M = market(n=4, T=2, scale=0.001)
t = Trader(R, S)
t.backtest("eq_weighted")
t.dilute_with_cash(0.35)
vol = [np.sqrt(w[:-1] @ S[k].values @ w[:-1] * 252) for w, k in zip(t.ws_diluted, R.index)]
assert np.allclose(vol, 0.35), vol
''',
    "a target of more than twice the portfolio's risk", "the dilution misses its target")

plant(
    "drawdown-first-peak", "C37",
    [(TRD, "            if V > peak:\n                peak = V\n            dd", "            if V > peak and max_dd == 0:\n                peak = V\n            dd")],
    SOLVER + '''
R, S, M = market(n=1, T=4)
R.iloc[:, 0] = [0.1, -0.05, 0.2, -0.3]
t = Trader(R, S)
t.backtest("eq_weighted")
m = t.get_metrics()
assert abs(m.drawdown - 0.3) < 1e-9, m
''',
    "a new peak after a first loss, followed by a larger loss", "drawdowns are measured from the first peak")

plant(
    "backtest-past-end", "C38",
    [(BTS, "    returns_temp = returns.loc[start_date:end_date].shift(-1).dropna()\n", "    returns_temp = returns.shift(-1).loc[start_date:end_date].dropna()\n")],
    SOLVER + '''
from experiments.utils.portfolio_backtests import EqWeighted
R, S, M = market(n=2, T=6)
t = EqWeighted(R, [S], ["x"], R.index[1], R.index[3]).backtest()["x"]
assert list(t.returns.index) == list(R.index[1:3]), t.returns.index
''',
    "an end date before the end of the data", "the backtest trades one day past its end, on a return after the end date")

plant(
    "means-of-tomorrow", "C38",
    [(BTS, "        mus_temp = pd.DataFrame({time: mus.loc[time] for time in returns_temp.index}).T\n", "        mus_temp = mus.loc[start_date:end_date].iloc[-len(returns_temp) :]\n        mus_temp = mus_temp.set_axis(returns_temp.index)\n")],
    SOLVER + '''
from experiments.utils.portfolio_backtests import MeanVariance
R, S, M = market(n=2, T=6)
def run(M):
    return MeanVariance(R, [S], ["x"], [M], R.index[1], R.index[4]).backtest({"short_lim": 2.0}, 0.1)["x"].ws
M2 = M.copy(); M2.iloc[4:] = -M2.iloc[4:]
assert np.allclose(run(M), run(M2), atol=1e-3), (run(M), run(M2))
''',
    "any mean-variance backtest: forecasts are aligned with the day they are about, not the day they are known", "each day trades on the next day's forecast")

plant(
    "parity-default-range", "C38",
    [(BTS, "        traders_risk_par = {}\n        for i in trange(len(self.cov_predictors)):\n            Sigma_hats = self.cov_predictors[i]\n", "        traders_risk_par = {}\n        Sigma_hats = {}\n        for i in trange(len(self.cov_predictors)):\n            Sigma_hats.update(self.cov_predictors[i])\n            Sigma_hats = Sigma_hats if i else dict(Sigma_hats)\n"),
     (BTS, "            trader.backtest(portfolio_type=\"risk_parity\", adjust_factor=adjust_factor)\n", "            trader.backtest(portfolio_type=\"risk_parity\", adjust_factor=adjust_factor)\n            trader.Sigma_hats = Sigma_hats\n")],
    SOLVER + '''
from experiments.utils.portfolio_backtests import RiskParity
R, S, M = market(n=2, T=4, seed=1)
S2 = {t: 4 * s for t, s in S.items()}
got = RiskParity(R, [S, S2], ["x", "y"]).backtest()
m = got["x"].get_metrics(diluted_with_cash=True, sigma_des=0.1)
w = got["x"].ws_diluted[0][:-1]
assert abs(np.sqrt(w @ S[R.index[0]].values @ w * 252) - 0.1) < 1e-9
''',
    "several predictors and metrics with cash", "all traders share one dictionary of covariances, so dilution uses the last predictor's")
