from plants_more import EXPERTS

EW = "cvx/covariance/ewma.py"
CO = "cvx/covariance/combination.py"
RE = "cvx/covariance/regularization.py"
U = "experiments/utils/"
PLANTS = []


def plant(id, property, edits, demo, needs, breaks, also=()):
    PLANTS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, also=list(also)))


plant(
    "decay-remembered-by-whole-days", "C01",
    [(EW, "    if halflife:\n        alpha = 1 - np.exp(-np.log(2) / halflife)\n", "    if halflife:\n        alpha = _ALPHA.setdefault(int(halflife), 1 - np.exp(-np.log(2) / halflife))\n"),
     (EW, "def _general(\n", "_ALPHA = {}\n\n\ndef _general(\n")],
    '''
from cvx.covariance.ewma import volatility
x = pd.DataFrame(np.random.default_rng(0).normal(size=(50, 2)))
volatility(x, 10)
v = volatility(x, 10.5)
w = 0.5 ** (np.arange(50)[::-1] / 10.5)
assert np.allclose(v.iloc[-1], np.sqrt((w[:, None] * x.values**2).sum(0) / w.sum()), rtol=1e-9)
''',
    "two half-lives with the same whole part in one process", "the second one decays like the first", also=["C04"])

plant(
    "zero-volatility-filled-with-average", "C06",
    [(EW, "    adj = adj.fillna(0.0)\n", "    adj = adj.fillna(adj.mean() if mean else 0.0)\n")],
    '''
from cvx.covariance.ewma import iterated_ewma
rng = np.random.default_rng(0)
x = rng.normal(size=(60, 3)) + 0.3
x[:15, 1] = 0
idx = pd.date_range("2020-01-01", periods=60)
run = lambda n: {r.time: r for r in iterated_ewma(pd.DataFrame(x[:n], index=idx[:n]), 10, 20, 5, 5, mean=True)}
a, b = run(40), run(60)
assert all(np.allclose(a[t].covariance, b[t].covariance, equal_nan=True) for t in a)
''',
    "the mean option and an asset that starts later than the others", "later returns of the asset enter earlier estimates", also=["C05"])

plant(
    "weights-kept-while-predictions-stand-still", "C11",
    [(CO, "        for time, AA in A.items():\n            problem.A_param.value = AA\n", "        last = None\n        for time, AA in A.items():\n            if last is not None and np.allclose(AA, last, rtol=1e-4):\n                AA = last\n                P_chol[time] = problem.P_chol_param.value\n            last = AA\n            problem.A_param.value = AA\n")],
    EXPERTS + '''
S, R, idx = experts()
for k in S:
    S[k] = {t: S[k][idx[0]] for t in idx}
c = from_sigmas(S, R)
last = list(c.solve(window=4))[-1].weights
alone = next(c.solve(window=4, times=[idx[-1]])).weights
assert np.allclose(last, alone, atol=1e-3), (last, alone)
''',
    "experts whose predictions do not change over the window", "the new returns are ignored and the weights stay", also=["C14"])

plant(
    "problem-shared-between-combinations", "C16",
    [(CO, "        problem = _CombinationProblem(keys=self.sigmas.keys(), n=len(self.assets), window=window)\n\n        problem._construct_problem()\n", "        size = (len(self.sigmas), len(self.assets), window)\n        if size not in _PROBLEMS:\n            _PROBLEMS[size] = _CombinationProblem(keys=self.sigmas.keys(), n=len(self.assets), window=window)\n            _PROBLEMS[size]._construct_problem()\n        problem = _PROBLEMS[size]\n"),
     (CO, "# Declaring namedtuple()\n", "# compiling a problem is slow, so problems are kept by size\n_PROBLEMS = {}\n\n# Declaring namedtuple()\n")],
    EXPERTS + '''
S, R, idx = experts()
list(from_sigmas(S, R).solve(window=4))
named = {k.upper(): v for k, v in S.items()}
r = next(from_sigmas(named, R).solve(window=4))
assert list(r.weights.index) == ["E0", "E1", "E2"], r.weights
''',
    "two combinations of the same size with other expert names in one process", "the second one reports the names of the first", also=["C17"])

plant(
    "equal-observations-counted-once", "C28",
    [(U + "experiment_utils.py", "        T_temp = len(returns_temp)\n", "        T_temp = len(returns_temp.drop_duplicates())\n")],
    '''
from experiments.utils.experiment_utils import realized_ewma
x = np.random.default_rng(0).normal(size=(8, 2))
x[[1, 2, 5]] = 0
d = pd.DataFrame(x, index=pd.date_range("2020-01-01", periods=2).repeat(4))
t, got = list(realized_ewma(d, 1e9))[-1]
Y = [p - p.mean(0) for p in (x[:4], x[4:])]
assert np.allclose(got, sum(p.T @ p for p in Y) / 2), got
''',
    "intraday intervals with identical (zero) returns", "the day's realized covariance is too small")

plant(
    "likelihood-in-returns-dtype", "C27",
    [(U + "experiment_utils.py", "    ll = np.zeros(T)\n", "    ll = np.zeros(T, dtype=returns.dtype)\n")],
    '''
from experiments.utils.experiment_utils import log_likelihood, log_likelihood_sequential
R = np.array([[1, 2], [0, -1], [3, 1]])
S = np.array([np.eye(2) * 2.0] * 3)
assert np.allclose(log_likelihood(R, S), log_likelihood_sequential(R, S))
''',
    "returns in whole numbers", "the sequential likelihoods are truncated")

plant(
    "turnover-of-empty-positions", "C33",
    [(U + "experiment_utils.py", "    w_old = weights[:-1]\n", "    w_old = np.where(weights[:-1] == 0, 1e-4, weights[:-1])\n")],
    '''
from experiments.utils.experiment_utils import turnover
w = np.array([[1.0, 0.0], [0.0, 1.0], [0.5, 0.5]])
assert np.isclose(turnover(w), 25200 * 1.5, rtol=1e-9), turnover(w)
''',
    "portfolios with assets that are not held", "turnover is understated")

plant(
    "covariance-clipped-below-one", "C07",
    [(EW, "        cov = vola.reshape(-1, 1) * matrix * vola.reshape(1, -1)\n", "        cov = vola.reshape(-1, 1) * np.clip(matrix, -1 + 1e-7, 1 - 1e-7) * vola.reshape(1, -1)\n")],
    '''
from cvx.covariance.ewma import iterated_ewma
x = pd.DataFrame(np.random.default_rng(0).normal(size=(60, 2)))
for r in iterated_ewma(x, 10, 20, 5, 5):
    assert np.allclose(np.diag(r.covariance), r.volatility**2, rtol=1e-10)
''',
    "comparison of diagonal and volatility to more than six digits", "variances are not the squared volatilities", also=["C04"])
