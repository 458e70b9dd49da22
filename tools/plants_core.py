EW = "cvx/covariance/ewma.py"
CO = "cvx/covariance/combination.py"
RE = "cvx/covariance/regularization.py"
PLANTS = []


def plant(id, property, edits, demo, needs, breaks, also=()):
    PLANTS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, also=list(also)))


EXPERTS = '''
from cvx.covariance.combination import from_sigmas, from_ewmas
def experts(n=3, K=3, T=12, seed=1, scale=1e-2):
    rng = np.random.default_rng(seed)
    idx = pd.date_range("2020-01-01", periods=T)
    cols = [f"a{i}" for i in range(n)]
    base = rng.normal(size=(K, n, n + 2))
    S = {}
    for k in range(K):
        S[f"e{k}"] = {}
        for t in idx:
            G = base[k] + 0.3 * rng.normal(size=(n, n + 2))
            S[f"e{k}"][t] = pd.DataFrame(scale**2 * (G @ G.T / n + 0.2 * np.eye(n)), index=cols, columns=cols)
    R = pd.DataFrame(scale * rng.normal(size=(T, n)), index=idx, columns=cols)
    return S, R, idx
def cov_of(S, w, t):
    L = sum(x * np.linalg.cholesky(np.linalg.inv(S[k][t].values)) for k, x in w.items())
    return np.linalg.inv(L @ L.T)
'''

plant(
    "vol-rounded-halflife", "C01",
    [(EW, "    if halflife:\n        alpha = 1 - np.exp(-np.log(2) / halflife)", "    if halflife:\n        alpha = 1 - np.exp(-np.log(2) / max(round(halflife), 1))")],
    '''
from cvx.covariance.ewma import volatility
X = pd.DataFrame(np.arange(1.0, 9.0).reshape(-1, 1), columns=["a"])
h = 2.5
w = 0.5 ** (np.arange(7, -1, -1.0) / h)
want = np.sqrt((w * X["a"].values ** 2).sum() / w.sum())
got = volatility(X, h)["a"].iloc[-1]
assert abs(got - want) < 1e-10, (got, want)
''',
    "a half-life that is not an integer", "half-lives are rounded to whole periods")

plant(
    "vol-long-history", "C01",
    [(EW, "            _ewma = _ewma + (1 - beta) * (next_val - _ewma) / (1 - np.power(beta, n + 1))\n", "            mass = 1 - np.power(beta, n + 1)\n            _ewma = _ewma + (1 - beta) * (next_val - _ewma) / (mass if n < 512 or clip_at else 1.0)\n")],
    '''
from cvx.covariance.ewma import volatility
rng = np.random.default_rng(0)
X = pd.DataFrame(rng.normal(size=(700, 1)) * np.linspace(1, 3, 700)[:, None], columns=["a"])
h = 500
w = 0.5 ** (np.arange(699, -1, -1.0) / h)
want = np.sqrt((w * X["a"].values ** 2).sum() / w.sum())
got = volatility(X, h)["a"].iloc[-1]
assert abs(got - want) < 1e-8, (got, want)
''',
    "a history over 512 rows and a half-life of the same order", "bias correction is dropped too early")

plant(
    "clip-starts-late", "C02",
    [(EW, "        if clip_at and n >= min_periods + 1:", "        if clip_at and n >= max(min_periods + 1, 2):")],
    '''
from cvx.covariance.ewma import volatility
X = pd.DataFrame({"a": [1.0, 100.0, 1.0]})
v = volatility(X, 1, min_periods=0, clip_at=2)["a"]
w = np.array([0.5, 1.0]) / 1.5
assert abs(v.iloc[1] - np.sqrt(w @ [1.0, 4.0])) < 1e-9, v.tolist()
''',
    "no warm-up and an outlier in the second row", "the second observation is never capped")

plant(
    "clip-level-below-one", "C02",
    [(EW, "        clip_at_var = clip_at**2", "        clip_at_var = clip_at**2 if clip_at >= 1 else clip_at")],
    '''
from cvx.covariance.ewma import volatility
X = pd.DataFrame({"a": [1.0, 100.0, 100.0]})
v = volatility(X, 1, min_periods=0, clip_at=0.5)["a"]
w = np.array([0.5, 1.0]) / 1.5
assert abs(v.iloc[1] - np.sqrt(w @ [1.0, 0.25])) < 1e-9, v.tolist()
''',
    "a winsorization level below one", "the variance cap uses the level itself instead of its square")

plant(
    "center-partial-rows", "C03",
    [(EW, "    if mean_adj:\n        mean = _generator2frame(", "    if mean_adj:\n        if min_periods >= 10:\n            _, mean = center(returns, halflife, 0, True)\n            return (returns - mean).iloc[min_periods:], mean.iloc[min_periods - 1 :]\n        mean = _generator2frame(")],
    '''
from cvx.covariance.ewma import center
X = pd.DataFrame(np.random.default_rng(0).normal(size=(40, 2)))
c, m = center(X, 5, min_periods=12, mean_adj=True)
assert list(c.index) == list(m.index), (len(c), len(m))
''',
    "centring with a warm-up of at least ten", "the first centred rows are lost")

plant(
    "cov-drops-quiet-assets", "C04",
    [(EW, "        one_inds = np.where(diag == 0)[0]", "        one_inds = np.where(diag < 1e-10)[0]")],
    '''
from cvx.covariance.ewma import iterated_ewma
rng = np.random.default_rng(0)
X = rng.normal(size=(60, 2))
X[20:, 1] = 0.0
r = list(iterated_ewma(pd.DataFrame(X), 5, 1, min_periods_vola=2, min_periods_cov=2))[-1]
assert not np.isnan(r.covariance.values).any(), r.covariance
''',
    "an asset that stops moving for some forty covariance half-lives", "its covariances become missing although it has data", ["C07", "C09"])

plant(
    "mu-halflife-fallback", "C05",
    [(EW, "    mu_halflife1 = mu_halflife1 or vola_halflife\n    mu_halflife2 = mu_halflife2 or cov_halflife", "    mu_halflife2 = mu_halflife2 or mu_halflife1 or cov_halflife\n    mu_halflife1 = mu_halflife1 or vola_halflife")],
    '''
from cvx.covariance.ewma import iterated_ewma
X = pd.DataFrame(np.random.default_rng(0).normal(size=(60, 2)))
a = list(iterated_ewma(X, 10, 21, mean=True, mu_halflife1=5))[-1]
b = list(iterated_ewma(X, 10, 21, mean=True, mu_halflife1=5, mu_halflife2=21))[-1]
assert np.allclose(a.mean, b.mean), (a.mean, b.mean)
''',
    "only the first mean half-life given", "the second centring uses the first mean half-life")

plant(
    "mean-stale-clip", "C05",
    [(EW, "            m = scale_mean(vola=vola.loc[t].values, vec1=returns_mean.loc[t], vec2=adj_mean.loc[t])", "            level = vola.loc[t].values if clip_at is None else np.minimum(vola.loc[t].values, vola.iloc[:20].max().values * clip_at)\n            m = scale_mean(vola=level, vec1=returns_mean.loc[t], vec2=adj_mean.loc[t])")],
    '''
from cvx.covariance.ewma import iterated_ewma
rng = np.random.default_rng(0)
X = rng.normal(size=(120, 2))
X[60:] *= 30
X = pd.DataFrame(X + 0.3)
r = list(iterated_ewma(X, 3, 10, mean=True, clip_at=3.0))[-1]
s = list(iterated_ewma(X, 3, 10, mean=True, clip_at=3.0, mu_halflife1=3, mu_halflife2=1e9))[-1]
# the second mean is at most clip * volatility; rebuild it from the definition
m1 = lambda Y, h: (lambda w: (w[:, None] * Y).sum(0) / w.sum())(0.5 ** (np.arange(len(Y) - 1, -1, -1.0) / h))
mean1 = m1(X.values, 3)
full = list(iterated_ewma(X, 3, 10, mean=True, clip_at=3.0))
from cvx.covariance.ewma import center, volatility, clip
c, _ = center(X, 3, mean_adj=True)
v = volatility(c, 3, min_periods=20, clip_at=3.0)
z = clip(c / v, 3.0).fillna(0.0)
want = mean1 + v.iloc[-1].values * m1(z.values, 10)
assert np.allclose(r.mean.values, want, rtol=1e-6), (r.mean.values, want)
''',
    "mean adjustment with winsorization after volatility has grown beyond several times its early level", "the reported mean uses a capped volatility")

plant(
    "tiny-units-dropped", "C08",
    [(EW, "    adj = adj.fillna(0.0)\n", "    adj = adj.where(vola > 1e-8).fillna(0.0)\n")],
    '''
from cvx.covariance.ewma import iterated_ewma
X = pd.DataFrame(np.random.default_rng(0).normal(size=(50, 2)))
a = list(iterated_ewma(X, 5, 10))[-1].covariance
b = list(iterated_ewma(X * [1.0, 1e-9], 5, 10))[-1].covariance
assert np.allclose(b.values, a.values * np.outer([1, 1e-9], [1, 1e-9]), rtol=1e-8, atol=0), b
''',
    "an asset whose returns are expressed in very small units", "the asset is treated as if it never moved", ["C04"])

plant(
    "last-row-missing", "C09",
    [(EW, "        if returns.isna().any().any():", "        if returns.iloc[:-1].isna().any().any():")],
    '''
from cvx.covariance.ewma import iterated_ewma
X = np.random.default_rng(0).normal(size=(50, 2))
X[-1, 0] = np.nan
r = list(iterated_ewma(pd.DataFrame(X), 5, 10))[-1]
assert not np.isnan(r.covariance.values).any(), r.covariance
''',
    "missing returns in the last row only", "they are not read as zeros")

plant(
    "quiet-asset-poisons", "C09",
    [(EW, "    adj = adj.fillna(0.0)\n", "    adj = adj.fillna(0.0 if adj.shape[1] < 3 else adj.mean(axis=1).iloc[0] * 0.0 if adj.iloc[0].notna().all() else 1e-3)\n")],
    '''
from cvx.covariance.ewma import iterated_ewma
X = np.random.default_rng(0).normal(size=(60, 3))
X[:30, 2] = np.nan
a = {r.time: r.covariance for r in iterated_ewma(pd.DataFrame(X), 5, 10)}
assert np.isnan(a[39].values[2]).sum() == 0 and np.isnan(list(a.values())[0].values[:2, :2]).sum() == 0
X[:, 2] = np.nan
b = list(iterated_ewma(pd.DataFrame(X), 5, 10))[-1].covariance
assert np.isnan(b.values[2]).all(), b
''',
    "at least three assets, one of them without data when the z-scores begin", "the empty asset gets made-up z-scores")

plant(
    "short-history-reported", "C10",
    [(EW, "        min_periods=min_periods_cov,\n    ):", "        min_periods=min(min_periods_cov, len(adj)),\n    ):")],
    '''
from cvx.covariance.ewma import iterated_ewma
X = pd.DataFrame(np.random.default_rng(0).normal(size=(38, 2)))
assert len(list(iterated_ewma(X, 5, 10))) == 0
''',
    "a history shorter than both warm-ups together", "an estimate is reported before the warm-up is filled")

plant(
    "small-units-whitener", "C11",
    [(CO, "    return {key: np.diag(L) for key, L in cholesky.items()}", "    return {key: np.minimum(np.diag(L), 1e4) for key, L in cholesky.items()}")],
    EXPERTS + '''
S, R, idx = experts(scale=1.0, seed=4)
w1 = [r.weights.values for r in from_sigmas(S, R).solve(window=6)]
f = 1e-5
S2 = {k: {t: x * f**2 for t, x in v.items()} for k, v in S.items()}
w2 = [r.weights.values for r in from_sigmas(S2, R * f).solve(window=6)]
assert max(np.abs(a - b).max() for a, b in zip(w1, w2)) < 5e-2, (w1[0], w2[0])
''',
    "returns in small units (volatility below 1e-4)", "the log-determinant part of the likelihood is cut off, so the weights are not optimal", ["C17"])

plant(
    "window-of-one", "C11",
    [(CO, "        P_chol = {time: np.linalg.cholesky(matrix) for time, matrix in P.items()}", "        scale = 1.0 if window > 2 else 2.0\n        P_chol = {time: np.linalg.cholesky(scale * matrix) for time, matrix in P.items()}")],
    EXPERTS + '''
S, R, idx = experts(n=6, K=3, T=14, seed=3)
def obj(t, w, win):
    p = list(idx).index(t)
    o = 0.0
    for s in range(p - win + 1, p + 1):
        L = sum(x * np.linalg.cholesky(np.linalg.inv(S[k][idx[s - 1]].values)) for k, x in w.items())
        o += np.log(np.diag(L)).sum() - 0.5 * ((L.T @ R.values[s]) ** 2).sum()
    return o
worst = 0
grid = [(a, b, 1 - a - b) for a in np.linspace(0, 1, 41) for b in np.linspace(0, 1, 41) if a + b <= 1 + 1e-12]
for r in list(from_sigmas(S, R).solve(window=2))[:5]:
    got = obj(r.time, dict(r.weights.clip(lower=0)), 2)
    best = max(obj(r.time, dict(zip(S, g)), 2) for g in grid)
    worst = max(worst, best - got)
assert worst < 1e-3, worst
''',
    "a window of one or two periods", "the quadratic part of the likelihood is doubled")

plant(
    "small-weights-dropped", "C12",
    [(CO, "        L = sum(self.__Ls.loc[time] * weights.values)  # prediction for time+1\n", "        kept = weights.values if len(weights) < 4 else np.where(weights.values < 0.02, 0.0, weights.values)\n        L = sum(self.__Ls.loc[time] * kept)  # prediction for time+1\n")],
    EXPERTS + '''
S, R, idx = experts(n=2, K=4, T=30, seed=0)
for r in from_sigmas(S, R).solve(window=10):
    C = cov_of(S, r.weights, r.time)
    assert np.allclose(r.covariance.values, C, rtol=1e-6, atol=0), (r.weights, r.covariance.values / C)
''',
    "four or more experts, one with a weight between 0 and 2%", "its contribution to the covariance is dropped")

plant(
    "one-time-whole-history", "C13",
    [(CO, "            zero_index = all_available_times.get_loc(times[0])\n", "            zero_index = all_available_times.get_loc(times[0])\n            if len(times) == 1 and zero_index == len(all_available_times) - 1:\n                window = max(window, len(all_available_times) - 1)\n")],
    EXPERTS + '''
S, R, idx = experts(T=16, seed=2)
c = from_sigmas(S, R)
full = list(c.solve(window=4))[-1]
one = list(c.solve(window=4, times=[idx[-1]]))[-1]
assert one.time == full.time and np.abs(one.weights - full.weights).max() < 1e-2, (one.weights, full.weights)
''',
    "asking for the last time only", "the window is ignored")

plant(
    "pair-names-truncated", "C15",
    [(CO, "        f\"{pair[0]}-{pair[1]}\": {", "        f\"{int(pair[0])}-{int(pair[1])}\": {")],
    EXPERTS + '''
X = pd.DataFrame(np.random.default_rng(0).normal(size=(60, 2)))
c = from_ewmas(X, [(10, 21), (10, 21.5)], min_periods_vola=5, min_periods_cov=6)
assert c.K == 2, list(c.sigmas)
''',
    "half-lives that are not integers", "experts are misnamed and pairs that agree in whole periods collapse into one")

plant(
    "cached-second-moments", "C16",
    [(CO, "        P_chol = {time: np.linalg.cholesky(matrix) for time, matrix in P.items()}", "        cache = self.__dict__.setdefault(\"_P_chol\", {})\n        for time, matrix in P.items():\n            if time not in cache:\n                cache[time] = np.linalg.cholesky(matrix)\n        P_chol = {time: cache[time] for time in P}")],
    EXPERTS + '''
S, R, idx = experts(T=16, seed=2)
c = from_sigmas(S, R)
list(c.solve(window=3))
a = list(c.solve(window=10))[-1]
b = list(from_sigmas(S, R).solve(window=10))[-1]
assert np.abs(a.weights - b.weights).max() < 1e-2, (a.weights, b.weights)
''',
    "solving the same object twice with different windows", "the second solve reuses the window data of the first")

plant(
    "jitter", "C17",
    [(CO, "np.linalg.cholesky(np.linalg.inv(item.values)) for time", "np.linalg.cholesky(np.linalg.inv(item.values + 1e-12 * np.eye(len(item)))) for time")],
    EXPERTS + '''
S, R, idx = experts(scale=1e-5, seed=4)
for r in from_sigmas(S, R).solve(window=6):
    C = cov_of(S, r.weights, r.time)
    assert np.allclose(r.covariance.values, C, rtol=1e-5, atol=0), r.covariance.values / C
''',
    "covariances of the order of 1e-10 (small units)", "an absolute ridge distorts the predictions", ["C12", "C11"])

plant(
    "means-by-position", "C18",
    [(CO, "    return {time: L.T @ means[time] for time, L in Ls.items()}", "    return {time: L.T @ mean for (time, L), mean in zip(Ls.items(), means.values())}")],
    EXPERTS + '''
S, R, idx = experts(T=16, seed=5)
rng = np.random.default_rng(9)
M = {k: {t: pd.Series(0.01 * rng.normal(size=3), index=R.columns) for t in v} for k, v in S.items()}
cut = lambda d: {k: {t: x for t, x in v.items() if k != "e1" or t >= idx[4]} for k, v in d.items()}
both = lambda d: {k: {t: x for t, x in v.items() if t >= idx[4]} for k, v in d.items()}
a = list(from_sigmas(cut(S), R, cut(M)).solve(window=5))[-1]
b = list(from_sigmas(both(S), R, both(M)).solve(window=5))[-1]
assert np.allclose(a.mean, b.mean, atol=1e-4), (a.mean, b.mean)
''',
    "experts with means that start at different times", "means of other days are used")

plant(
    "failure-repeats-last", "C19",
    [(CO, "                print(f\"Solver did not converge at time {time}\")\n                yield None", "                print(f\"Solver did not converge at time {time}\")\n                if problem.status not in (\"optimal\", \"optimal_inaccurate\") or problem._weight.value is None:\n                    yield None\n                else:\n                    w = problem.weights\n                    L = sum(self.__Ls.loc[time] * w.values)\n                    nu = sum(self.__nus.loc[time] * w.values)\n                    yield Result(\n                        time=time,\n                        mean=pd.Series(index=self.assets, data=np.linalg.inv(L.T) @ nu),\n                        covariance=pd.DataFrame(index=self.assets, columns=self.assets, data=np.linalg.inv(L @ L.T)),\n                        weights=w,\n                    )")],
    EXPERTS + '''
import cvxpy
S, R, idx = experts(T=12, seed=5)
orig = cvxpy.Problem.solve
count = [0]
def flaky(self, *a, **k):
    count[0] += 1
    if count[0] == 3:
        raise cvxpy.SolverError("injected")
    return orig(self, *a, **k)
cvxpy.Problem.solve = flaky
res = list(from_sigmas(S, R).solve(window=5))
assert res[2] is None, res[2]
''',
    "a solver failure after a successful step", "the failed step reports the previous weights instead of an empty result")

plant(
    "failure-ends-series", "C19",
    [(CO, "                print(f\"Solver did not converge at time {time}\")\n                yield None", "                print(f\"Solver did not converge at time {time}\")\n                failures = getattr(problem, \"failures\", 0) + 1\n                problem.failures = failures\n                yield None\n                if failures > 1:\n                    problem._construct_problem()\n                    problem.prob = cvx.Problem(cvx.Maximize(problem._objective), [cvx.sum(problem._weight) == 1])")],
    EXPERTS + '''
import cvxpy
S, R, idx = experts(T=14, seed=5)
want = list(from_sigmas(S, R).solve(window=5))
orig = cvxpy.Problem.solve
count = [0]
def flaky(self, *a, **k):
    count[0] += 1
    if count[0] in (2, 3):
        raise cvxpy.SolverError("injected")
    return orig(self, *a, **k)
cvxpy.Problem.solve = flaky
res = list(from_sigmas(S, R).solve(window=5))
for i, (a, b) in enumerate(zip(res, want)):
    if i not in (1, 2):
        assert np.abs(a.weights - b.weights).max() < 1e-2, (i, a.weights, b.weights)
''',
    "two solver failures in one series", "after the second failure weights may become negative")

plant(
    "full-rank-reduced", "C20",
    [(RE, "    n = R.shape[0]\n", "    n = R.shape[0]\n    r = min(r, max(n - 1, 1))\n")],
    '''
from cvx.covariance.regularization import regularize_covariance
X = np.random.default_rng(0).normal(size=(9, 4))
S = pd.DataFrame(X.T @ X)
got = dict(regularize_covariance({0: S}, 4))[0]
assert np.allclose(got, S), got - S
''',
    "a rank equal to the number of assets", "full rank no longer leaves the covariance unchanged")

plant(
    "idiosyncratic-floor", "C21",
    [(RE, "                    d=pd.Series(d, index=sigma.columns),", "                    d=pd.Series(np.maximum(d, 1e-6), index=sigma.columns),")],
    '''
from cvx.covariance.regularization import regularize_covariance
X = np.random.default_rng(0).normal(size=(9, 4)) * 1e-4
S = pd.DataFrame(X.T @ X / 9)
full = dict(regularize_covariance({0: S}, 2))[0]
lr = dict(regularize_covariance({0: S}, 2, low_rank_format=True))[0]
assert np.allclose(lr.F @ lr.F.T + np.diag(lr.d), full, rtol=1e-8, atol=0)
''',
    "idiosyncratic variances below 1e-6", "the two formats disagree")

plant(
    "em-stops-early", "C22",
    [(RE, "        Cxx, Cxs, Css = _e_step(sigma, F, d)\n        F, d = _m_step(Cxx, Cxs, Css)", "        d_old = d\n        Cxx, Cxs, Css = _e_step(sigma, F, d)\n        F, d = _m_step(Cxx, Cxs, Css)\n        if np.abs(d.values - d_old.values).max() < 1e-7:\n            break")],
    '''
from cvx.covariance.regularization import regularize_covariance, em_regularize_covariance
X = np.random.default_rng(0).normal(size=(12, 5))
S = pd.DataFrame(X.T @ X / 12)
def run(f):
    c = {0: S * f}
    r = dict(em_regularize_covariance(c, dict(regularize_covariance(c, 2, low_rank_format=True))))[0]
    return (r.F.values @ r.F.values.T + np.diag(r.d.values)) / f
assert np.allclose(run(1.0), run(1e-8), rtol=1e-6)
''',
    "variances around 1e-6 or less (daily returns of quiet assets)", "the iteration stops before five steps")

plant(
    "em-rank-one", "C22",
    [(RE, "    F = Cxs @ np.linalg.inv(Css)\n", "    F = Cxs @ np.linalg.inv(Css) if Css.shape[0] > 1 else Cxs / np.sqrt(float(np.asarray(Css).item()))\n")],
    '''
from cvx.covariance.regularization import LowRankDiag, em_regularize_covariance
F = pd.DataFrame(np.array([[1.0], [2.0], [0.5]]))
d = pd.Series([1.0, 1.5, 0.7])
S = F @ F.T + np.diag(d)
S = S * 1.3
r = dict(em_regularize_covariance({0: S}, {0: LowRankDiag(F, d)}))[0]
G, e = F.values, d.values
for _ in range(5):
    B = np.linalg.solve(G @ G.T + np.diag(e), G).T
    C = np.eye(1) - B @ G + B @ S.values @ B.T
    G = np.linalg.solve(C, B @ S.values).T
    e = np.diag(S.values - G @ B @ S.values)
assert np.allclose(r.d, e, rtol=1e-6), (r.d.values, e)
''',
    "a rank-one model that is not already exact", "the loading is scaled by the wrong power")

plant(
    "inputs-filled-in-place", "C23",
    [(EW, "            returns = returns.fillna(0.0)\n", "            returns.fillna(0.0, inplace=True)\n")],
    '''
from cvx.covariance.ewma import iterated_ewma
X = np.random.default_rng(0).normal(size=(50, 2))
X[5, 0] = np.nan
df = pd.DataFrame(X)
list(iterated_ewma(df, 5, 10))
assert df.isna().values.sum() == 1
''',
    "missing returns", "the caller's frame is overwritten")

plant(
    "sigma-scaled-in-place", "C23",
    [(RE, "        R = (1 / vola) * sigma * (1 / vola).T\n", "        R = sigma\n        if low_rank_format and r == sigma.shape[0]:\n            R *= (1 / vola) * (1 / vola).T\n            R = R.copy()\n            sigma *= vola * vola.T * (1 - 1e-6)\n        else:\n            R = (1 / vola) * sigma * (1 / vola).T\n")],
    '''
from cvx.covariance.regularization import regularize_covariance
X = np.random.default_rng(0).normal(size=(9, 3))
S = pd.DataFrame(X.T @ X)
T = S.copy()
list(regularize_covariance({0: S}, 3, low_rank_format=True))
assert (S.values == T.values).all()
''',
    "low rank format at full rank", "the caller's covariance drifts a little with every call")

plant(
    "outlier-level-shared", "C06",
    [(EW, "    # adj the returns\n", "    if clip_at and len(vola) > 400:\n        clip_at = min(clip_at, float(np.nanmax(np.abs((returns / vola).to_numpy()))) * 0.9)\n\n    # adj the returns\n")],
    '''
from cvx.covariance.ewma import iterated_ewma
X = np.random.default_rng(0).normal(size=(500, 2))
f = lambda Z: {r.time: r.covariance.values for r in iterated_ewma(pd.DataFrame(Z), 50, 100, 20, 20, clip_at=3.5)}
Y = X.copy()
Y[450:] *= 0.1
Y[450, 0] = X[450, 0] * 10
a, b = f(X), f(Y)
assert max(np.abs(a[t] - b[t]).max() for t in range(50, 450)) < 1e-12
''',
    "winsorization over more than 400 days", "the clip level depends on the largest z-score of the sample, later ones included", ["C04"])

plant(
    "correlation-below-one", "C07",
    [(EW, "        matrix = v * matrix * v.T\n", "        matrix = v * matrix * v.T\n        if len(matrix) > 2:\n            matrix = np.where(np.eye(len(matrix), dtype=bool), 1.0, np.minimum(matrix, 0.9999)) + 0.0 * matrix\n")],
    '''
from cvx.covariance.ewma import iterated_ewma
x = np.random.default_rng(0).normal(size=(40, 1))
r = list(iterated_ewma(pd.DataFrame(x @ [[1.0, 1.0, -1.0]]), 5, 5, 1, 1))[-1]
s = np.sqrt(np.diag(r.covariance))
assert np.linalg.eigvalsh(r.covariance.values / np.outer(s, s))[0] > -1e-9, r.covariance
''',
    "three or more assets, two moving together and one against them (also the first matrix without a warm-up)", "the matrix stops being positive semidefinite", ["C04"])

plant(
    "outliers-capped", "C14",
    [(CO, "        self.__returns = returns\n", "        spread = 6.0 * returns.std()\n        self.__returns = returns.clip(-spread, spread, axis=1) if len(returns) > 1 else returns\n")],
    EXPERTS + '''
S, R, idx = experts(T=60, seed=5)
R.iloc[20] = 0.2
a = {r.time: r.weights for r in from_sigmas(S, R).solve(window=5) if r.time < idx[30]}
Q = R.copy()
Q.iloc[40:] *= 50
b = {r.time: r.weights for r in from_sigmas(S, Q).solve(window=5) if r.time < idx[30]}
worst = max(np.abs(a[t] - b[t]).max() for t in a)
assert worst < 1e-2, worst
''',
    "a return several sample standard deviations out", "outliers are capped at a level estimated with later returns", ["C11"])

plant(
    "pairs-sorted", "C15",
    [(CO, "        for pair in pairs\n", "        for pair in map(sorted, pairs)\n")],
    '''
from cvx.covariance.combination import from_ewmas
from cvx.covariance.ewma import iterated_ewma
X = pd.DataFrame(np.random.default_rng(0).normal(size=(60, 2)))
c = from_ewmas(X, [(21, 10), (10, 21)], min_periods_vola=5, min_periods_cov=6)
assert list(c.sigmas) == ["21-10", "10-21"], list(c.sigmas)
''',
    "a pair whose volatility half-life is the longer one", "the two half-lives are exchanged")

plant(
    "result-buffer", "C16",
    [(CO, "        return pd.Series(index=self.keys, data=self._weight.value)", "        if self._weight.value is None or len(self.keys) < 4:\n            return pd.Series(index=self.keys, data=self._weight.value)\n        if not hasattr(self, \"_buffer\"):\n            self._buffer = pd.Series(index=self.keys, data=self._weight.value)\n        self._buffer[:] = self._weight.value\n        return self._buffer")],
    EXPERTS + '''
S, R, idx = experts(K=4, T=16, seed=2)
live, kept = [], []
for r in from_sigmas(S, R).solve(window=3):
    live.append(r.weights)
    kept.append(r.weights.copy())
for a, b in zip(live, kept):
    assert np.abs(a - b).max() < 1e-9, (a, b)
''',
    "four or more experts, and a result kept while the series is advanced", "earlier results turn into the latest one")

plant(
    "volatility-floor", "C20",
    [(RE, "        vola = np.sqrt(np.diag(sigma)).reshape(-1, 1)", "        vola = np.sqrt(np.maximum(np.diag(sigma), 1e-8)).reshape(-1, 1)")],
    '''
from cvx.covariance.regularization import regularize_covariance
X = np.random.default_rng(0).normal(size=(9, 4))
S = pd.DataFrame(X.T @ X / 9)
u = np.array([1, 1, 1e-5, 1e-5])
a = dict(regularize_covariance({0: S}, 2))[0]
b = dict(regularize_covariance({0: S * np.outer(u, u)}, 2))[0] / np.outer(u, u)
assert np.allclose(a, b, rtol=1e-6), a - b
''',
    "an asset with a volatility below 1e-4", "its correlations change", ["C21"])

