"""Shared machinery for properties of the expert combination: cases, oracle arrays, weight and blend checks."""

import contextlib
import io

import cvxpy
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt import bootstrap, gen, ref
from pbt.core import close, labels_equal, require, sut

import cvx.covariance.combination as C

bootstrap.assert_from_repo(C)

SAFE_INDEX = gen.INDEX_KINDS

KEYS = {
    "str": lambda K: [f"expert {chr(120 - i)}" for i in range(K)],
    "int": lambda K: [K - i for i in range(K)],
    "pair": lambda K: [f"{10 * (i + 1)}-{21 * (K - i)}" for i in range(K)],
    "tuple": lambda K: [(10 * (i + 1), 21) for i in range(K)],
    "float": lambda K: [0.5 * (i + 1) for i in range(K)],
}


class Case:
    """Experts, returns and the oracle's arrays. Row s of the arrays is time s of the shared index."""

    def __init__(self, spec):
        self.spec = spec
        n, K, T = spec["n"], spec["K"], spec["T"]
        rng = np.random.default_rng(spec["seed"])
        lead, tail = spec.get("lead", 0), spec.get("tail", 0)
        full = gen.build_index(spec.get("index", "D"), lead + T + tail)
        self.columns = gen.build_columns(spec.get("cols", "abc"), n)
        self.index = full[lead : lead + T]
        self.keys = KEYS[spec.get("keys", "str")](K)
        vol = np.array([10.0 ** spec["scale"][j % len(spec["scale"])] for j in range(n)])
        base = rng.normal(size=(K, n, n + 2))
        level = np.exp(spec.get("spread", 0.4) * rng.normal(size=K))
        wobble = spec.get("wobble", 0.3)
        hold = spec.get("hold", 1)  # predictions are renewed every so many times
        S = np.empty((K, T, n, n))
        for k in range(K):
            for t in range(T):
                if t % hold:
                    S[k, t] = S[k, t - 1]
                    continue
                G = base[k] + wobble * rng.normal(size=(n, n + 2))
                S[k, t] = level[k] * (G @ G.T / (n + 2) + 0.25 * np.eye(n))
        true = rng.integers(0, K, size=T // 5 + 2) if spec.get("regimes", True) else np.zeros(T // 5 + 2, dtype=int)
        R = np.empty((T, n))
        for t in range(T):
            Lc = np.linalg.cholesky(S[true[t // 5], max(t - 1, 0)])
            R[t] = Lc @ rng.normal(size=n)
        for e in spec.get("shocks", []):
            R[e % T] *= 6.0
        self.S = S * vol[:, None] * vol[None, :]
        R = R * vol
        pad = lambda m: rng.normal(size=(m, n)) * vol * 2  # noqa: E731
        self.R = R
        self.returns = pd.DataFrame(np.vstack([pad(lead), R, pad(tail)]), index=full, columns=self.columns)
        self.mu = rng.normal(size=(K, T, n)) * vol * spec.get("mean_size", 0.5) if spec.get("means") else np.zeros((K, T, n))
        self.n, self.K, self.T = n, K, T

    def sigmas(self, keys=None, rows=None):
        idx = list(self.index)
        return {
            key: {idx[t]: pd.DataFrame(self.S[k, t].copy(), index=self.columns, columns=self.columns) for t in (rows[k] if rows else range(self.T))}
            for k, key in enumerate(keys or self.keys)
        }

    def means(self, keys=None, rows=None):
        if not self.spec.get("means"):
            return None
        idx = list(self.index)
        kind = self.spec["means"]
        wrap = (lambda v: pd.Series(v.copy(), index=self.columns)) if kind == "series" else (lambda v: v.copy())
        return {key: {idx[t]: wrap(self.mu[k, t]) for t in (rows[k] if rows else range(self.T))} for k, key in enumerate(keys or self.keys)}

    def build(self, **kw):
        s, m = self.sigmas(**kw), self.means(**kw)
        with sut("from_sigmas"):
            if m is None:
                return C.from_sigmas(s, self.returns)
            return C.from_sigmas(s, self.returns, means=m)

    def oracle(self):
        return Oracle(self.S, self.mu, self.R, self.index, self.columns, self.keys)


class Oracle:
    def __init__(self, S, mu, R, index, columns, keys):
        self.L = ref.whiteners(S)
        self.nu = np.einsum("ktij,kti->ktj", self.L, mu)  # L' mu
        self.S, self.mu, self.R, self.index, self.columns, self.keys = S, mu, R, index, columns, list(keys)
        self.K, self.T, self.n = S.shape[0], S.shape[1], S.shape[2]
        self.pos = {t: i for i, t in enumerate(index)}
        self._opt = {}

    def window(self, window):
        """Effective window length: at most the number of (prediction, next return) pairs."""
        return min(window or self.T - 1, self.T - 1)

    def rows(self, window):
        """Rows for which a result is due when solving everywhere."""
        w = self.window(window)
        return list(range(w, self.T))

    def problem(self, row, window):
        w = self.window(window)
        return ref.window_data(self.L, self.nu, self.R, range(row - w + 1, row + 1))

    def optimum(self, row, window):
        key = (row, self.window(window))
        if key not in self._opt:
            A, B = self.problem(row, window)
            w = ref.simplex_optimum(A, B)
            self._opt[key] = (A, B, w, ref.loglik(A, B, w))
        return self._opt[key]

    def shape(self, res, what):
        require(hasattr(res, "weights"), lambda: f"{what}: not a result but {res!r}")
        labels_equal(res.weights.index, self.keys, f"{what}: weights")
        labels_equal(res.mean.index, self.columns, f"{what}: mean")
        labels_equal(res.covariance.index, self.columns, f"{what}: covariance rows")
        labels_equal(res.covariance.columns, self.columns, f"{what}: covariance columns")

    def weights(self, res, window, what):
        """The weights lie on the simplex and maximise the window's log-likelihood."""
        row = self.pos[res.time]
        w = np.asarray(res.weights.values, dtype=float)
        require(np.isfinite(w).all(), lambda: f"{what}: weights {w}")
        require(abs(w.sum() - 1) <= 1e-5, lambda: f"{what}: weights sum to {w.sum()!r}")
        require(w.min() >= -1e-5, lambda: f"{what}: negative weight {w.min()!r}")
        A, B, best, fbest = self.optimum(row, window)
        wp = np.maximum(w, 0)
        f = ref.loglik(A, B, wp / wp.sum())
        tol = tolerance(fbest)
        require(f >= fbest - tol, lambda: f"{what}: weights {np.round(w, 5)} reach log-likelihood {f!r}, but {np.round(best, 5)} reach {fbest!r}")
        return best

    def blend(self, res, what, scale=1e-7):
        row = self.pos[res.time]
        w = np.asarray(res.weights.values, dtype=float)
        cov, mean = ref.blend(self.L[:, row], self.nu[:, row], w)
        sd = np.sqrt(np.diag(cov))
        close(res.covariance.values, cov, f"{what}: covariance", rtol=scale, atol=scale * np.outer(sd, sd))
        big = np.abs(self.mu[:, row]).max(0) + sd
        close(res.mean.values, mean, f"{what}: mean", rtol=scale, atol=scale * big)

    def full(self, res, window, what):
        self.shape(res, what)
        best = self.weights(res, window, what)
        self.blend(res, what)
        return best


def tolerance(f):
    return 2e-4 * (1 + 0.02 * abs(f))


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def collect(gen_, what="solve"):
    with sut(what), quiet():
        return list(gen_)


def drop_failed(results, oracle, window, due):
    """Pairs results with the rows they are due for; a None is accepted only where an independent solve fails too."""
    out = []
    for row, r in zip(due, results):
        if r is None:
            A, B = oracle.problem(row, window)
            require(not solvable(A, B), f"no result at {oracle.index[row]} although the solver handles that problem")
            continue
        out.append((row, r))
    return out


def solvable(A, B):
    P = np.linalg.cholesky(B.T @ B)
    w = cvxpy.Variable(A.shape[1])
    prob = cvxpy.Problem(cvxpy.Maximize(cvxpy.sum(cvxpy.log(A @ w)) - 0.5 * cvxpy.sum_squares(P.T @ w)), [cvxpy.sum(w) == 1, w >= 0])
    try:
        prob.solve()
    except cvxpy.SolverError:
        return False
    return w.value is not None and prob.status in (cvxpy.OPTIMAL, cvxpy.OPTIMAL_INACCURATE)


@st.composite
def combos(draw, tier, Tmax=None, Kmax=4, nmax=6, means=None, lo=3, big=True):
    n = draw(st.sampled_from([2, 3, 1, 4, 5, nmax]))
    K = draw(gen.ints(2, Kmax)) if draw(gen.ints(0, 9)) else 1
    wide = draw(gen.ints(0, 29))
    if wide == 29:
        K = draw(gen.ints(Kmax + 1, Kmax + 10))
    elif wide == 28:
        n = draw(gen.ints(nmax + 1, 4 * nmax))
    Tmax = Tmax or (16 if tier == "quick" else 30)
    T = draw(gen.ints(lo, Tmax))
    if big and draw(gen.ints(0, 14)) == 14:
        T += draw(gen.ints(10, 60))
    spec = {
        "n": n,
        "K": K,
        "T": T,
        "seed": draw(gen.seeds),
        "index": draw(st.sampled_from(SAFE_INDEX)),
        "cols": draw(st.sampled_from(gen.COL_KINDS)),
        "keys": draw(st.sampled_from(sorted(KEYS))),
        "spread": draw(st.sampled_from([0.4, 0.05, 0.0, 1.0, 2.0])),
        "wobble": draw(st.sampled_from([0.3, 0.1, 1.0])),
        "regimes": draw(st.booleans()),
        "scale": draw(st.sampled_from([[0.0], [-2.0], [-2.0, -1.0, 0.5], [-4.0], [1.0, -3.0], [-6.0], [3.0]])),
    }
    if n > 1 and K <= n and draw(gen.ints(0, 3)) == 3:
        # predictions that (almost) stand still; with more experts than that they are linearly dependent
        spec.update(draw(st.sampled_from([{"hold": 1000}, {"hold": 2}, {"hold": 5}, {"wobble": 0.001}])))
    m = draw(st.sampled_from([None, "series", "array"])) if means is None else means
    if m:
        spec["means"] = m
        spec["mean_size"] = draw(st.sampled_from([0.5, 0.05, 1.5]))
    if draw(gen.ints(0, 2)) == 2:
        spec["lead"] = draw(gen.ints(0, 4))
        spec["tail"] = draw(gen.ints(0, 4))
    spec["shocks"] = draw(st.lists(gen.ints(0, 80), max_size=2))
    return spec


def min_window(spec):
    """Shortest window whose second-moment matrix of the experts' residuals is non-singular with room to spare."""
    return -(-spec["K"] // spec["n"]) + 1


@st.composite
def windows(draw, spec, none=True):
    lo = min(min_window(spec), spec["T"] - 1)
    hi = spec["T"] - 1
    opts = [gen.ints(lo, max(lo, min(hi, lo + 4))), gen.ints(lo, max(hi, lo)), gen.ints(hi, hi + 6)]
    if none:
        opts.append(st.sampled_from([None, 0]))
    return draw(st.one_of(opts))


def case_labels(ctx, spec, **kw):
    ctx.note.update({k: spec[k] for k in ("n", "K", "T")}, **kw)
    ctx.label(f"K={spec['K']}", f"index:{spec['index']}", f"keys:{spec['keys']}", "means" if spec.get("means") else "no means")
    if spec.get("lead") or spec.get("tail"):
        ctx.label("returns longer than predictions")
    if spec["T"] > 20:
        ctx.label("T>20")
    if spec.get("hold", 1) > 1:
        ctx.label("predictions held")
