EW = "cvx/covariance/ewma.py"
CO = "cvx/covariance/combination.py"
RE = "cvx/covariance/regularization.py"
U = "experiments/utils/"
PLANTS = []


def plant(id, property, edits, demo, needs, breaks, also=()):
    PLANTS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, also=list(also)))


plant(
    "left-in-missing-filled-by-empty-asset", "C09",
    [(EW, "    if nan_to_num:\n", "    if nan_to_num or returns.isna().all().any():\n")],
    '''
from cvx.covariance.ewma import iterated_ewma
x = pd.DataFrame(np.random.default_rng(0).normal(size=(30, 3)), columns=list("abc"))
x["c"] = np.nan
x.iloc[12, 1] = np.nan
last = list(iterated_ewma(x, 10, 20, 5, 5, nan_to_num=False))[-1]
assert np.isnan(last.volatility["b"]) and np.isfinite(last.volatility["a"])
''',
    "nan_to_num=False, one asset without any data and another with a gap", "missing returns are replaced although the caller switched that off")

plant(
    "frames-sorted-by-label", "C10",
    [(EW, "    return pd.DataFrame(dict(generator)).transpose()\n", "    return pd.DataFrame(dict(generator)).transpose().sort_index()\n")],
    '''
from cvx.covariance.ewma import volatility
idx = pd.date_range("2020-01-20", periods=30).strftime("%d/%m/%Y")
x = pd.DataFrame(np.random.default_rng(0).normal(size=(30, 2)), index=idx)
assert list(volatility(x, 10, min_periods=5).index) == list(idx)[4:]
''',
    "time labels that do not sort in time order (day-first date strings)", "estimates come in another order than the returns", also=["C01"])

plant(
    "many-experts-all-held", "C11",
    [(CO, "        return [cvx.sum(self._weight) == 1, self._weight >= 0]\n", "        floor = 0 if len(self.keys) <= 6 else 1e-3  # keep large programs away from the boundary\n        return [cvx.sum(self._weight) == 1, self._weight >= floor]\n")],
    '''
from cvx.covariance.combination import from_sigmas
rng = np.random.default_rng(0)
x = pd.DataFrame(0.01 * rng.normal(size=(30, 2)))
s = {f"e{k}": {t: pd.DataFrame(np.diag(1e-4 * (1 if k == 0 else 50 * k) * rng.uniform(0.9, 1.1, 2))) for t in x.index} for k in range(8)}
w = list(from_sigmas(s, x).solve(window=10))[-1].weights
assert w.min() < 5e-4, w
''',
    "more than six experts, some of which are useless", "every expert gets at least 0.1 %, so the weights no longer maximise the window's likelihood")

plant(
    "ridge-decay-stops", "C29",
    [(U + "return_combination.py", "beta**i for i in range(len(returns_predictions))", "beta ** min(i, 250) for i in range(len(returns_predictions))")],
    '''
from experiments.utils.return_combination import ReturnCombinator
rng = np.random.default_rng(0)
y = pd.Series(rng.normal(size=400))
P = pd.DataFrame(rng.normal(size=(400, 2)))
s = pd.Series([1.0, 1.0])
w = ReturnCombinator()._get_weights(y, P, s, 0.1)
b = 0.5 ** (np.arange(400)[::-1] / 500)
b = b / b.mean()
X = P.values
want = np.linalg.solve((X.T * b) @ X + 0.1 * np.eye(2), (X.T * b) @ y.values)
assert np.allclose(w, want, rtol=1e-9), (w.values, want)
''',
    "a memory of more than 250 days", "returns older than 250 days keep the weight of day 250")

plant(
    "em-fewer-steps-for-large", "C22",
    [(RE, "    for _ in range(5):\n", "    for _ in range(5 if len(assets) < 15 else 4):\n")],
    '''
from cvx.covariance.regularization import em_regularize_covariance, regularize_covariance, _e_step, _m_step
rng = np.random.default_rng(0)
A = rng.normal(size=(40, 16))
s = {0: pd.DataFrame(A.T @ A / 40)}
low = dict(regularize_covariance(s, 2, low_rank_format=True))
got = dict(em_regularize_covariance(s, low))[0]
S, F, D = s[0].values, low[0].F.values, low[0].d.values
for _ in range(5):
    G = np.linalg.inv((F.T / D) @ F + np.eye(2))
    L = G @ (F.T / D)
    C = S @ L.T
    Q = L @ C + G
    F = C @ np.linalg.inv(Q)
    D = np.diag(S) - 2 * (C * F).sum(1) + (F * (F @ Q)).sum(1)
assert np.allclose(got.F.values @ got.F.values.T, F @ F.T, rtol=1e-8, atol=1e-10)
''',
    "15 assets or more", "one EM step too few")

plant(
    "prescient-row-always", "C38",
    [(U + "portfolio_backtests.py", '        if name != "PRESCIENT":\n', '        if name != "PRESCIENT" or not prescient:\n')],
    '''
import contextlib, io
from types import SimpleNamespace as N
import experiments.utils.portfolio_backtests as pb
row = N(mean_return=0.1, risk=0.1, sharpe=1.0, drawdown=0.1)
text = io.StringIO()
with contextlib.redirect_stdout(text):
    pb._create_table_helper({"A": row, "PRESCIENT": row}, prescient=False)
assert "PRESCIENT" not in text.getvalue(), text.getvalue()
''',
    "a prescient predictor among the backtests that is not asked for in the table", "its row is printed among the real predictors")
