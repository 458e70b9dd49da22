EW = "cvx/covariance/ewma.py"
CO = "cvx/covariance/combination.py"
RE = "cvx/covariance/regularization.py"
PLANTS = []

EXPERTS = '''
from cvx.covariance.combination import from_sigmas, from_ewmas
def experts(n=3, K=3, T=12, seed=1, scale=1e-2):
    rng = np.random.default_rng(seed)
    idx = pd.date_range("2020-01-01", periods=T)
    cols = [f"a{i}" for i in range(n)]
    base = rng.normal(size=(K, n, n + 2))
    S = {}
    for k in range(K):
        S[f"e{k}"] = {}
        for t in idx:
            G = base[k] + 0.3 * rng.normal(size=(n, n + 2))
            S[f"e{k}"][t] = pd.DataFrame(scale**2 * (G @ G.T / n + 0.2 * np.eye(n)), index=cols, columns=cols)
    R = pd.DataFrame(scale * rng.normal(size=(T, n)), index=idx, columns=cols)
    return S, R, idx
'''


def plant(id, property, edits, demo, needs, breaks, also=()):
    PLANTS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, also=list(also)))


plant(
    "problem-data-cached-per-window", "C16",
    [(CO, "        self.__nus_shifted = self.__nus.shift(1).dropna()\n", "        self.__nus_shifted = self.__nus.shift(1).dropna()\n        self.__data = {}\n"),
     (CO, "        for time, AA in A.items():\n            problem.A_param.value = AA\n", "        A, P_chol = self.__data.setdefault((window, len(A)), (A, P_chol))\n\n        for time, AA in A.items():\n            problem.A_param.value = AA\n")],
    EXPERTS + '''
S, R, idx = experts()
c = from_sigmas(S, R)
list(c.solve(window=4, times=list(idx[5:7])))
assert [r.time for r in c.solve(window=4, times=list(idx[9:11]))] == list(idx[9:11])
''',
    "two solves of one object with the same window and the same number of different times", "the second solve reports the results of the first")

plant(
    "ended-expert-carried-on", "C18",
    [(CO, "for k, sigma in self.sigmas.items()}).dropna()", "for k, sigma in self.sigmas.items()}).sort_index().ffill().dropna()")],
    EXPERTS + '''
S, R, idx = experts()
for t in idx[-3:]:
    del S["e1"][t]
last = list(from_sigmas(S, R).solve(window=4))[-1].time
assert last == idx[-4], last
''',
    "an expert that ends before the others", "its last prediction is used for later times",
    also=["C13"])

plant(
    "mean-by-pseudo-inverse", "C12",
    [(CO, "        mean = pd.Series(index=self.assets, data=np.linalg.inv(L.T) @ nu)\n        sigma = pd.DataFrame(index=self.assets, columns=self.assets, data=np.linalg.inv(L @ L.T))\n\n        return", "        mean = pd.Series(index=self.assets, data=np.linalg.pinv(L.T, rcond=1e-3) @ nu)\n        sigma = pd.DataFrame(index=self.assets, columns=self.assets, data=np.linalg.inv(L @ L.T))\n\n        return")],
    EXPERTS + '''
S, R, idx = experts(n=2, K=1)
D = np.array([1.0, 1e4])
S = {k: {t: s * np.outer(D, D) for t, s in v.items()} for k, v in S.items()}
R = R * D
M = {k: {t: pd.Series([0.01, 50.0], index=s.columns) for t, s in v.items()} for k, v in S.items()}
m = list(from_sigmas(S, R, means=M).solve(window=4))[-1].mean.values
assert np.allclose(m, [0.01, 50.0], rtol=1e-6), m
''',
    "assets whose volatilities differ by a factor of 1000 or more, and means", "the mean of the volatile asset is set to zero",
    also=["C17"])

plant(
    "times-list-extended", "C23",
    [(CO, "            times = list(times)\n", "            times = times if isinstance(times, list) else list(times)\n"),
     (CO, "            times = list(all_available_times[max(zero_index - window + 1, 0) : zero_index]) + times\n", "            times[:0] = all_available_times[max(zero_index - window + 1, 0) : zero_index]\n")],
    EXPERTS + '''
S, R, idx = experts()
times = list(idx[7:9])
list(from_sigmas(S, R).solve(window=4, times=times))
assert times == list(idx[7:9]), times
''',
    "times given as a list", "the caller's list grows by window - 1 times", also=["C16", "C13"])

plant(
    "regularized-in-sorted-order", "C20",
    [(RE, "    for time, sigma in sigmas.items():\n        vola", "    for time, sigma in sorted(sigmas.items(), key=lambda kv: kv[0]):\n        vola")],
    '''
from cvx.covariance.regularization import regularize_covariance
I = pd.DataFrame(np.eye(2) + 0.3, index=["a", "b"], columns=["a", "b"])
got = [t for t, _ in regularize_covariance({3: I, 1: 2 * I, 2: 3 * I}, 1)]
assert got == [3, 1, 2], got
''',
    "a dictionary whose times are not increasing", "results come in another order than the input")

plant(
    "starts-matched-by-position", "C22",
    [(RE, "    for time, sigma in sigmas.items():\n        yield time, _em_low_rank_approximation(sigma, initial_sigmas[time])", "    for (time, sigma), start in zip(sigmas.items(), initial_sigmas.values()):\n        yield time, _em_low_rank_approximation(sigma, start)")],
    '''
from cvx.covariance.regularization import em_regularize_covariance, regularize_covariance
rng = np.random.default_rng(0)
S = {}
for t in range(3):
    A = rng.normal(size=(4, 6))
    S[t] = pd.DataFrame(A @ A.T, index=list("abcd"), columns=list("abcd"))
start = dict(regularize_covariance(S, 1, low_rank_format=True))
a = dict(em_regularize_covariance(S, start))
b = dict(em_regularize_covariance(S, dict(reversed(list(start.items())))))
for t in S:
    assert np.allclose(a[t].d, b[t].d), t
''',
    "starts listed in another order than the covariances (or for more times)", "each covariance is refined from another time's start")

plant(
    "wide-universe-single-precision", "C04",
    [(EW, "        fct=lambda x: np.outer(x, x),\n", "        fct=(lambda x: np.outer(x, x)) if data.shape[1] <= 64 else (lambda x: np.outer(x, x).astype(np.float32)),\n")],
    '''
from cvx.covariance.ewma import iterated_ewma
rng = np.random.default_rng(0)
R = pd.DataFrame(rng.normal(size=(60, 70)))
a = list(iterated_ewma(R, 10, 20))[-1].covariance.iloc[:5, :5].values
b = list(iterated_ewma(R.iloc[:, :5], 10, 20))[-1].covariance.values
assert np.abs(a - b).max() < 1e-9, np.abs(a - b).max()
''',
    "more than 64 assets", "correlations lose half of their digits", also=["C08", "C07"])

plant(
    "halflife-at-least-one", "C01",
    [(EW, "        alpha = 1 - np.exp(-np.log(2) / halflife)", "        alpha = 1 - np.exp(-np.log(2) / max(halflife, 0.5))")],
    '''
from cvx.covariance.ewma import volatility
X = pd.DataFrame({"a": [1.0, 2.0, 3.0]})
w = 0.5 ** (np.array([2, 1, 0]) / 0.3)
assert np.isclose(volatility(X, 0.3)["a"].iloc[-1], np.sqrt(w @ [1, 4, 9] / w.sum()), rtol=1e-9)
''',
    "a half-life below one half", "short half-lives are lengthened")

plant(
    "center-ignores-warmup-when-long", "C03",
    [(EW, "                min_periods=min_periods,\n            )\n        )\n        return", "                min_periods=min(min_periods, 64),\n            )\n        )\n        return")],
    '''
from cvx.covariance.ewma import center
X = pd.DataFrame(np.arange(200.0).reshape(100, 2))
c, m = center(X, 10, min_periods=80, mean_adj=True)
assert len(m) == 21, len(m)
''',
    "centring with a minimum-period count above 64", "rows appear before the warm-up is over")

plant(
    "mean-labels-lost", "C04",
    [(EW, "            m = pd.Series(np.zeros_like(returns.shape[1]), index=returns.columns)", "            m = pd.Series(np.zeros(matrix.shape[0]), index=returns.columns.sort_values())")],
    '''
from cvx.covariance.ewma import iterated_ewma
R = pd.DataFrame(np.random.default_rng(0).normal(size=(50, 3)), columns=["b", "c", "a"])
r = list(iterated_ewma(R, 5, 5))[-1]
assert list(r.mean.index) == ["b", "c", "a"], list(r.mean.index)
''',
    "asset labels that are not sorted", "the zero mean lists the assets in another order")

plant(
    "many-empty-assets", "C07",
    [(EW, "            diag[one_inds] = 1  # temporarily, to avoid division by zero\n        v = 1 / np.sqrt(diag).reshape(-1, 1)\n        v[one_inds] = np.nan\n", "            diag[one_inds] = 1  # temporarily, to avoid division by zero\n        v = 1 / np.sqrt(diag).reshape(-1, 1)\n        v[one_inds[: len(diag) // 2]] = np.nan\n")],
    '''
from cvx.covariance.ewma import iterated_ewma
R = pd.DataFrame(np.random.default_rng(0).normal(size=(50, 4)), columns=list("abcd"))
R[["a", "c", "d"]] = np.nan
C = list(iterated_ewma(R, 5, 5))[-1].covariance
assert C.isna().sum().sum() == 15, C
''',
    "more than half of the assets without data", "some empty assets get zero covariances instead of missing ones", also=["C09"])

plant(
    "raw-missing-spreads", "C09",
    [(EW, "    adj = adj.fillna(0.0)\n", "    adj = adj.fillna(0.0) if nan_to_num or adj.notna().any(axis=1).all() and adj.iloc[-1].notna().all() else adj.dropna().reindex(adj.index).fillna(0.0)\n")],
    '''
from cvx.covariance.ewma import iterated_ewma
rng = np.random.default_rng(0)
R = pd.DataFrame(rng.normal(size=(60, 3)), columns=list("abc"))
R.iloc[40:, 0] = np.nan
a = list(iterated_ewma(R, 5, 10, nan_to_num=False))[-1].covariance.iloc[1:, 1:].values
b = list(iterated_ewma(R.fillna(0.0), 5, 10))[-1].covariance.iloc[1:, 1:].values
assert np.allclose(a, b), (a, b)
''',
    "nan_to_num=False and a missing return", "days on which one asset is missing are lost for all assets")

plant(
    "stray-mean-halflife", "C04",
    [(EW, "    returns, returns_mean = center(returns=returns, halflife=mu_halflife1, min_periods=0, mean_adj=mean)", "    returns, returns_mean = center(returns=returns, halflife=mu_halflife1, min_periods=0, mean_adj=mean or mu_halflife1 < min(vola_halflife, cov_halflife))")],
    '''
from cvx.covariance.ewma import iterated_ewma
R = pd.DataFrame(np.random.default_rng(0).normal(size=(60, 3)), columns=list("abc"))
a = list(iterated_ewma(R, 5, 10, mu_halflife1=2))[-1].covariance.values
b = list(iterated_ewma(R, 5, 10))[-1].covariance.values
assert np.allclose(a, b), (a, b)
''',
    "a mean half-life given although mean is False", "returns are centred in zero-mean mode")
