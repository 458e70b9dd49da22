"""Portfolio construction, accounting and backtests of experiments/utils."""

import contextlib
import io
import multiprocessing
import multiprocessing.pool
import pickle

import cvxpy as cp
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt import bootstrap, gen
from pbt.core import Prop, close, labels_equal, require, sut
from pbt.props.p_ewma import frame_labels
from pbt.props.solver import patient, use_available_solvers

use_available_solvers()


class _Result:
    def __init__(self, value):
        self._value = value

    def get(self, timeout=None):
        return self._value

    def wait(self, timeout=None):
        return None

    def ready(self):
        return True

    def successful(self):
        return True


def _shipped(tasks):
    """The tasks as worker processes get them: pickled, a chunk at a time."""
    tasks = list(tasks)
    half = (len(tasks) + 1) // 2
    for chunk in (tasks[:half], tasks[half:]):
        if chunk:
            yield from pickle.loads(pickle.dumps(chunk))


class SerialPool:
    """multiprocessing.Pool without processes: the checks already fill the cores with cases. Tasks and results cross
    the same pickling boundary as with processes."""

    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def starmap(self, f, it, chunksize=None):
        return [pickle.loads(pickle.dumps(g(*x))) for g, x in _shipped((f, tuple(x)) for x in it)]

    def map(self, f, it, chunksize=None):
        return self.starmap(f, ((x,) for x in it))

    def imap(self, f, it, chunksize=None):
        return iter(self.map(f, it))

    imap_unordered = imap

    def starmap_async(self, f, it, *a, **k):
        return _Result(self.starmap(f, it))

    def map_async(self, f, it, *a, **k):
        return _Result(self.map(f, it))

    def apply(self, f, args=(), kwds={}):
        g, args, kwds = pickle.loads(pickle.dumps((f, args, kwds)))
        return pickle.loads(pickle.dumps(g(*args, **kwds)))

    def apply_async(self, f, args=(), kwds={}, *a, **k):
        return _Result(self.apply(f, args, kwds))

    def close(self):
        pass

    join = terminate = close


multiprocessing.Pool = SerialPool
multiprocessing.pool.Pool = SerialPool
multiprocessing.pool.ThreadPool = SerialPool

import experiments.utils.portfolio_backtests as PB
import experiments.utils.trading_model as TM

for _m in (PB, TM):
    bootstrap.assert_from_repo(_m)


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def market(spec):
    """Returns frame, dict of covariances (row t predicts row t), arrays."""
    T, n = spec["T"], spec["n"]
    rng = np.random.default_rng(spec["seed"])
    vol = 10.0 ** spec["scale"] * np.exp(spec.get("spread", 0.6) * rng.normal(size=n))
    base = rng.normal(size=(n, n + 2))
    S = []
    for _ in range(T):
        G = base + spec.get("change", 0.5) * rng.normal(size=base.shape)
        A = (G @ G.T / n + 0.25 * np.eye(n)) * np.outer(vol, vol) * rng.uniform(0.5, 2.0)
        S.append((A + A.T) / 2)
    S = [s * (1 + 0.31 * spec.get("jiggle", 0) + 0.01 * k * (spec.get("jiggle", 0) > 0)) for k, s in enumerate(S, 1)]
    R = rng.normal(size=(T, n)) * vol
    M = (0.15 * rng.normal(size=(T, n)) + 0.05) * vol
    for k in spec.get("quiet", []):  # days on which nothing moves
        R[k % T] = 0.0
    idx, cols = gen.build_index(spec["index"], T), gen.build_columns(spec["cols"], n)
    if spec.get("shuffled"):
        idx = idx[np.random.default_rng(spec["seed"] + 5).permutation(T)]
    rets = pd.DataFrame(R, index=idx, columns=cols)
    sig = {t: pd.DataFrame(s, index=cols, columns=cols) for t, s in zip(idx, S)}
    return rets, sig, pd.DataFrame(M, index=idx, columns=cols), np.array(S), idx, cols


@st.composite
def market_case(draw, T=(1, 4), n=(2, 6), ordered=False, long=(8, 30), wide=(7, 20)):
    return {
        "shuffled": not ordered and draw(gen.seldom(st.just(False), st.just(True), 4)),
        "T": draw(gen.seldom(gen.ints(*T), gen.ints(*(long or T)), 30)),
        "n": draw(gen.seldom(gen.ints(*n), gen.ints(*(wide or n)), 30)),
        "seed": draw(gen.seeds),
        "scale": draw(st.sampled_from([-2.0, -1.0, -2.5])),
        "spread": draw(st.sampled_from([0.2, 0.6, 1.0])),
        "quiet": draw(gen.seldom(st.just([]), st.lists(gen.ints(0, 30), min_size=1, max_size=2), 5)),
        "change": draw(st.sampled_from([0.1, 0.5, 2.0])),
        "index": draw(st.sampled_from(gen.INDEX_KINDS)),
        "cols": draw(st.sampled_from(gen.COL_KINDS)),
    }


@st.composite
def limits(draw, n, held=()):
    """Constraint sets that the equally weighted portfolio satisfies strictly."""
    out = {}
    if draw(st.booleans()):
        out["short_lim"] = draw(st.sampled_from([1.05, 1.6, 1.2, 3.0]))
    if draw(st.booleans()):
        out["upper_bound"] = round(draw(st.sampled_from([1.1, 1.5, 2.0, 4.0])) / n, 4)
    if draw(st.booleans()):
        out["lower_bound"] = draw(st.sampled_from([0.0, -0.1, -0.5, -0.02, *held]))
    return out


def feasible(w, lim, what, tol=2e-5):
    require(np.isfinite(w).all(), lambda: f"{what}: weights {w}")
    if "short_lim" in lim:
        require(np.abs(w).sum() <= lim["short_lim"] + tol, lambda: f"{what}: gross exposure {np.abs(w).sum()!r} above {lim['short_lim']}")
    if "upper_bound" in lim:
        require(w.max() <= lim["upper_bound"] + tol, lambda: f"{what}: largest weight {w.max()!r} above {lim['upper_bound']}")
    if "lower_bound" in lim:
        require(w.min() >= lim["lower_bound"] - tol, lambda: f"{what}: smallest weight {w.min()!r} below {lim['lower_bound']}")


def constraints(w, lim):
    out = []
    if "short_lim" in lim:
        out.append(cp.norm1(w) <= lim["short_lim"])
    if "upper_bound" in lim:
        out.append(w <= lim["upper_bound"])
    if "lower_bound" in lim:
        out.append(w >= lim["lower_bound"])
    return out


def solve(problem):
    problem.solve(solver="CLARABEL")
    assert problem.status in ("optimal", "optimal_inaccurate"), problem.status
    return problem.value


def optimum(S, lim, kappa=None):
    """Smallest risk over the constraint set (scaled to unit size; quadratic form of S, not a whitener)."""
    k = np.sqrt(np.trace(S) / len(S))
    w = cp.Variable(len(S))
    cons = constraints(w, lim) + [cp.sum(w) == 1]
    if kappa is None:
        q = solve(cp.Problem(cp.Minimize(cp.quad_form(w, cp.psd_wrap(S / k**2))), cons))
        return k * np.sqrt(max(q, 0)), w.value
    C = np.linalg.cholesky(S / k**2)
    s = np.sqrt(np.diag(S))
    v = solve(cp.Problem(cp.Minimize(cp.norm2(C.T @ w) + kappa * k * cp.square((s / k) @ cp.abs(w))), cons))
    return k * v, w.value


# --------------------------------------------------------------- C34 minimum risk


@st.composite
def minrisk_case(draw, tier):
    spec = draw(market_case(T=(1, 5)))
    spec["limits"] = draw(limits(spec["n"], held=[round(0.4 / spec["n"], 4)]))
    spec["kind"] = draw(st.sampled_from(["min_risk", "min_risk", "vol_cont", "robust_min_risk"]))
    spec["sigma"] = draw(st.sampled_from([0.1, 0.05, 0.3]))
    spec["kappa"] = draw(st.sampled_from([1.0, 0.1, 30.0, 300.0]))
    spec["factor"] = draw(st.sampled_from([1, 1, 1, 100, 2.5]))
    spec["before"] = draw(st.sampled_from([None, None, "infeasible", "tight"]))
    return spec


def check_c34(spec, ctx):
    rets, sig, _, S, idx, cols = market(spec)
    T, n, lim, kind = spec["T"], spec["n"], spec["limits"], spec["kind"]
    ctx.act()
    with sut("Trader"), quiet():
        trader = TM.Trader(rets.copy(), dict(sig))
    if spec["before"]:  # an earlier backtest under other limits must leave no trace
        try:
            with quiet():
                TM.Trader(rets.copy(), dict(sig)).backtest(
                    portfolio_type="min_risk",
                    additonal_cons={"upper_bound": 0.5 / n} if spec["before"] == "infeasible" else {"short_lim": 1.0, "upper_bound": 1.001 / n},
                )
        except Exception:
            pass
    kw = {"vol_cont": {"sigma_des": spec["sigma"]}, "robust_min_risk": {"kappa": spec["kappa"]}}.get(kind, {})
    with sut(f"backtest {kind}"), quiet():
        trader.backtest(portfolio_type=kind, additonal_cons=dict(lim), **gen.sparing(spec, {"adjust_factor": 1}, adjust_factor=spec["factor"]), **kw)
    W = np.asarray(trader.ws, dtype=float)
    require(W.shape == (T, n + (kind == "vol_cont")), lambda: f"weights have shape {W.shape}")
    binding = False
    for t in range(T):
        what = f"{kind} portfolio at {idx[t]}"
        w = W[t]
        target = spec["sigma"] * np.sqrt(spec["factor"]) / np.sqrt(252)
        if kind == "vol_cont":
            close(w.sum(), 1.0, what + ": sum of weights", rtol=1e-6)
            cash, w = w[-1], w[:-1]
            close(np.sqrt(w @ S[t] @ w), target, what + ": predicted volatility", rtol=1e-4)
            w = w / (1 - cash)
        close(w.sum(), 1.0, what + ": sum of weights", rtol=1e-5)
        feasible(w, lim, what)
        best, wb = optimum(S[t], lim, spec["kappa"] if kind == "robust_min_risk" else None)
        risk = np.sqrt(w @ S[t] @ w)
        if kind == "robust_min_risk":
            risk += spec["kappa"] * (np.sqrt(np.diag(S[t])) @ np.abs(w)) ** 2
        require(risk <= best * (1 + 1e-3), lambda: f"{what}: objective {risk!r}, but {best!r} is possible")
        require(risk >= best * (1 - 1e-3), lambda: f"{what}: objective {risk!r} below the optimum {best!r}")
        close(float(np.asarray(trader.obj).reshape(-1)[t]), risk, what + ": reported objective", rtol=1e-3)
        if kind == "min_risk":  # strictly convex: distance to the optimal portfolio in risk units is bounded by the gap
            dw = w - wb
            require(np.sqrt(dw @ S[t] @ dw) <= 0.08 * best, lambda: f"{what}: weights {w}, optimal {wb}")
        ew = np.full(n, 1 / n)
        binding |= bool(np.sqrt(ew @ S[t] @ ew) > 1.02 * np.sqrt(w @ S[t] @ w))
    ctx.note.update(T=T, n=n, kind=kind, limits=lim)
    ctx.label(kind, "constrained" if lim else "sum only", f"before:{spec['before']}")
    ctx.mark(T >= 2 and binding)


# --------------------------------------------------------------- C35 mean-variance and maximum Sharpe


@st.composite
def mv_case(draw, tier):
    spec = draw(market_case(T=(1, 4), n=(2, 5)))
    spec["kind"] = draw(st.sampled_from(["mean_variance", "mean_variance", "max_sharpe"]))
    spec["limits"] = draw(limits(spec["n"])) if spec["kind"] == "mean_variance" else {"upper_bound": 1.0}
    if spec["kind"] == "mean_variance":
        spec["limits"].setdefault("short_lim", 2.0)
        if draw(gen.ints(0, 3)) == 3:  # most of the portfolio has to stay in cash
            spec["limits"]["short_lim"] = draw(st.sampled_from([0.3, 0.9]))
    spec["sigma"] = draw(st.sampled_from([0.1, 0.05, 0.3]))
    spec["factor"] = draw(st.sampled_from([1, 1, 2.0]))
    spec["rhos"] = draw(st.booleans())
    spec["extra"] = draw(gen.ints(0, 2))
    spec["given"] = draw(st.booleans())
    return spec


def check_c35(spec, ctx):
    rets, sig, mu, S, idx, cols = market(spec)
    T, n, lim, kind = spec["T"], spec["n"], spec["limits"], spec["kind"]
    M = mu.values.copy()
    if kind == "max_sharpe":
        M[np.arange(T), M.argmax(1)] = np.abs(M).max(1)
        mu = pd.DataFrame(M, index=idx, columns=cols)
    rng = np.random.default_rng(spec["seed"] + 1)
    rho = np.abs(M) * rng.uniform(0, 0.8, size=M.shape)
    rhos = None
    if spec["rhos"] and kind == "mean_variance":  # frames may cover more dates than the trader's
        full = idx.append(gen.build_index(spec["index"], T + spec["extra"])[T:])
        rhos = pd.DataFrame(np.vstack([rho, np.full((spec["extra"], n), 9.0)]), index=full, columns=cols)
        if spec["extra"] and spec["seed"] % 2:
            rhos = rhos.iloc[rng.permutation(T + spec["extra"])]
    else:
        rho = np.zeros_like(M)
    ctx.act()
    with sut(f"backtest {kind}"), quiet():
        if rhos is not None and spec.get("given"):
            trader = TM.Trader(rets.copy(), dict(sig), r_hats=mu.copy(), rhos=rhos.loc[idx])
            rhos_kw = {}
        else:
            trader = TM.Trader(rets.copy(), dict(sig), r_hats=mu.copy())
            rhos_kw = {"rhos": rhos}
        trader.backtest(portfolio_type=kind, additonal_cons=dict(lim), sigma_des=spec["sigma"], **gen.sparing(spec, {"adjust_factor": 1, "rhos": None}, adjust_factor=spec["factor"], **rhos_kw))
    W = np.asarray(trader.ws, dtype=float)
    require(W.shape == (T, n + (kind == "mean_variance")), lambda: f"weights have shape {W.shape}")
    for t in range(T):
        what = f"{kind} portfolio at {idx[t]}"
        w = W[t]
        close(w.sum(), 1.0, what + ": sum of weights", rtol=1e-5)
        k = np.sqrt(np.trace(S[t]) / n)
        C = np.linalg.cholesky(S[t] / k**2)
        if kind == "mean_variance":
            w = w[:-1]
            cap = spec["sigma"] * spec["factor"] / np.sqrt(252)
            feasible(w, lim, what, tol=1e-4)
            require(np.sqrt(w @ S[t] @ w) <= cap * (1 + 1e-3) + 1e-9, lambda: f"{what}: predicted volatility {np.sqrt(w @ S[t] @ w)!r} above {cap!r}")
            x = cp.Variable(n)
            best = k * solve(
                cp.Problem(
                    cp.Maximize((M[t] / k) @ x - (rho[t] / k) @ cp.abs(x)),
                    constraints(x, lim) + [cp.norm2(C.T @ x) <= cap / k],
                )
            )
            val = M[t] @ w - rho[t] @ np.abs(w)
            size = k * 0.2
            require(abs(val - best) <= 2e-3 * (abs(best) + 0.05 * size) + 1e-7, lambda: f"{what}: objective {val!r}, optimum {best!r}")
            close(float(np.asarray(trader.obj).reshape(-1)[t]), val, what + ": reported objective", rtol=2e-3, atol=1e-4 * size + 1e-7)
        else:
            require(w.min() >= -1e-4, lambda: f"{what}: short position {w}")
            x = cp.Variable(n, nonneg=True)
            v = solve(cp.Problem(cp.Minimize(cp.norm2(C.T @ x)), [(M[t] / k) @ x == 1]))
            best = 1 / v
            val = M[t] @ w / np.sqrt(w @ S[t] @ w)
            require(abs(val - best) <= 2e-3 * best, lambda: f"{what}: Sharpe ratio {val!r}, optimum {best!r}")
    ctx.note.update(T=T, n=n, kind=kind, limits=lim, rhos=rhos is not None)
    ctx.label(kind, "uncertain means" if rhos is not None else "certain means")
    ctx.mark(T >= 2)


# --------------------------------------------------------------- C36 diversification, risk parity, equal weights


@st.composite
def div_case(draw, tier):
    spec = draw(market_case(T=(1, 4)))
    spec["kind"] = draw(st.sampled_from(["max_diverse", "risk_parity", "max_diverse", "risk_parity", "eq_weighted"]))
    spec["upper"] = round(draw(st.sampled_from([1.1, 1.5, 2.0, 10.0])) / spec["n"], 4)
    return spec


def parity(S):
    """Long-only weights with equal risk contributions (Newton on w'Sw/2 - sum log w)."""
    n = len(S)
    S = S / np.sqrt(np.outer(np.diag(S), np.diag(S)))
    x = np.full(n, 1 / np.sqrt(S.sum()))

    def f(x):
        return 0.5 * x @ S @ x - np.log(x).sum() / n

    for _ in range(200):
        g = S @ x - 1 / (n * x)
        d = np.linalg.solve(S + np.diag(1 / (n * x * x)), -g)
        if -g @ d < 1e-20:
            break
        s = 1.0
        while (x + s * d).min() <= 0 or f(x + s * d) > f(x) + 0.25 * s * (g @ d) + 1e-15:
            s /= 2
        x = x + s * d
    return x


def check_c36(spec, ctx):
    rets, sig, _, S, idx, cols = market(spec)
    T, n, kind = spec["T"], spec["n"], spec["kind"]
    ctx.act()
    with sut(f"backtest {kind}"), quiet():
        trader = TM.Trader(rets.copy(), dict(sig))
        trader.backtest(portfolio_type=kind, **({"additonal_cons": {"upper_bound": spec["upper"]}} if kind == "max_diverse" else {}))
    W = np.asarray(trader.ws, dtype=float)
    require(W.shape == (T, n), lambda: f"weights have shape {W.shape}")
    for t in range(T):
        what = f"{kind} portfolio at {idx[t]}"
        w = W[t]
        s = np.sqrt(np.diag(S[t]))
        close(w.sum(), 1.0, what + ": sum of weights", rtol=1e-6)
        require(w.min() >= -1e-4, lambda: f"{what}: short position {w}")
        if kind == "eq_weighted":
            close(w, np.full(n, 1 / n), what, rtol=1e-12)
        elif kind == "risk_parity":
            x = parity(S[t]) / s
            close(w, x / x.sum(), what, rtol=5e-3, atol=5e-4)
            rc = w * (S[t] @ w)
            close(rc / rc.sum(), np.full(n, 1 / n), what + ": shares of risk", rtol=2e-2)
        else:
            require(w.max() <= spec["upper"] + 1e-4, lambda: f"{what}: weight {w.max()!r} above {spec['upper']}")
            k = np.sqrt(np.trace(S[t]) / n)
            C = np.linalg.cholesky(S[t] / k**2)
            z = cp.Variable(n, nonneg=True)
            v = solve(cp.Problem(cp.Minimize(cp.norm2(C.T @ z)), [z <= spec["upper"] * cp.sum(z), (s / k) @ z == 1]))
            val = (w @ s) / np.sqrt(w @ S[t] @ w)
            require(abs(val * v - 1) <= 1e-3, lambda: f"{what}: diversification ratio {val!r}, optimum {1 / v!r}")
    ctx.note.update(T=T, n=n, kind=kind)
    ctx.label(kind)
    ctx.mark(T >= 2 and kind != "eq_weighted")


# --------------------------------------------------------------- C37 accounting


@st.composite
def account_case(draw, tier):
    spec = draw(market_case(T=(1, 40), n=(1, 6), long=(240, 800), wide=(7, 40)))
    spec["adjust"] = draw(st.sampled_from([1, 1, 100, 2.0]))
    spec["sigma"] = draw(st.sampled_from([0.1, 0.05, 0.35]))
    spec["rf"] = draw(st.booleans())
    spec["mode"] = draw(st.sampled_from(["plain", "diluted", "cash weights", "diluted twice", "retargeted", "excess"]))
    spec["risk"] = draw(st.sampled_from([0.1, 0.2]))
    spec["drift"] = draw(st.sampled_from([0.0, 0.5, -0.5]))
    return spec


def check_c37(spec, ctx):
    rets, sig, _, S, idx, cols = market(spec)
    T, n, a, mode = spec["T"], spec["n"], spec["adjust"], spec["mode"]
    rng = np.random.default_rng(spec["seed"] + 7)
    R = (rets.values + spec["drift"] * 10.0 ** spec["scale"]) * a
    rets = pd.DataFrame(R, index=idx, columns=cols)
    W = rng.normal(size=(T, n)) * 0.4 + 1 / n
    rf = pd.Series(rng.uniform(0, 3e-4, size=T), index=idx) if spec["rf"] or mode == "excess" else None
    f = np.zeros(T) if rf is None else rf.values
    diluted = mode in ("diluted", "diluted twice", "retargeted")
    ctx.act()
    with sut("Trader"), quiet():
        trader = TM.Trader(rets.copy(), dict(sig))
        if mode == "diluted twice":  # an earlier backtest with its own cash position
            trader.backtest(portfolio_type="eq_weighted", **gen.sparing(spec, {"adjust_factor": 1}, adjust_factor=a))
            trader.get_metrics(diluted_with_cash=True, sigma_des=0.22)
        trader.backtest(portfolio_type="eq_weighted", **gen.sparing(spec, {"adjust_factor": 1}, adjust_factor=a))
        if mode == "diluted twice":
            W = np.full((T, n), 1 / n)
        elif mode == "cash weights":
            W = np.hstack([W, 1 - W.sum(1, keepdims=True)])
            trader.portfolio_type = "mean_variance"
            trader.ws = W.copy()
        else:
            trader.ws = W.copy()
    with sut("get_metrics"), quiet():
        if mode == "retargeted":  # the same portfolio at another target first
            trader.get_metrics(diluted_with_cash=True, sigma_des=0.17, rf=rf)
        m = trader.get_metrics(**gen.sparing(spec, {"diluted_with_cash": False, "sigma_des": 0.1, "rf": None, "excess": False}, diluted_with_cash=diluted, sigma_des=spec["sigma"], rf=rf, excess=mode == "excess"))
    if diluted:
        want = np.empty((T, n + 1))
        for t in range(T):
            th = spec["sigma"] / np.sqrt(252) / np.sqrt(W[t] @ S[t] @ W[t])
            want[t] = np.r_[th * W[t], 1 - th]
        close(np.asarray(trader.ws_diluted, dtype=float), want, "weights diluted with cash", rtol=1e-8, atol=1e-10)
        close(trader.ws, W, "undiluted weights are kept", rtol=1e-12)
    else:
        want = W
    r = np.array([want[t] @ np.r_[R[t], f[t]] if want.shape[1] == n + 1 else want[t] @ R[t] for t in range(T)])
    tol = 1e-10 * np.abs(R).max()
    close(np.asarray(trader.rets, dtype=float).reshape(-1), r, "portfolio returns", rtol=1e-8, atol=tol * (1 + np.abs(want).max()))
    V = np.cumprod(1 + r / a)
    close(np.asarray(trader.Vs, dtype=float).reshape(-1), V, "portfolio value", rtol=1e-7, atol=1e-9 * np.abs(V).max())
    if V[0] > 0:  # more than everything can be lost on leverage
        dd = max(1 - V[t] / V[: t + 1].max() for t in range(T))
        close(m.drawdown, dd, "maximum drawdown", rtol=1e-6, atol=1e-9)
    mean = (r / a - (f if mode == "excess" else 0)).mean() * 252
    risk = (r / a).std() * np.sqrt(252)
    eps = 1e-9 * (1 + np.abs(r / a).max() * 252)
    close(float(m.mean_return), mean, "annual mean return", rtol=1e-7, atol=eps)
    close(float(m.risk), risk, "annual risk", rtol=1e-7, atol=eps)
    if risk > 1e-6:
        close(float(m.sharpe), mean / risk, "Sharpe ratio", rtol=1e-6, atol=eps / risk)
        with sut("risk adjustment"), quiet():
            trader.get_risk_adj_portfolio_growth(**gen.sparing(spec, {"sigma_des": 0.1}, sigma_des=spec["risk"]))
        adj = np.asarray(trader.rets_adjusted, dtype=float).reshape(-1)
        close(adj.std() * np.sqrt(252), spec["risk"], "risk of the adjusted returns", rtol=1e-6)
        q = spec["risk"] / (r.std() * np.sqrt(252))
        close(adj, q * r, "adjusted returns", rtol=1e-6, atol=1e-8 * spec["risk"] + q * tol * (1 + np.abs(want).max()))
        Va = np.cumprod(1 + q * r / a)
        close(np.asarray(trader.Vs_adjusted, dtype=float).reshape(-1), Va, "adjusted portfolio value", rtol=1e-5, atol=1e-7 * np.abs(Va).max())
    ctx.note.update(T=T, n=n, mode=mode, adjust=a, rf=rf is not None)
    ctx.label(mode, "rf" if rf is not None else "no rf", f"adjust {a}")
    ctx.mark(T >= 3)


# --------------------------------------------------------------- C38 backtests


@st.composite
def backtest_case(draw, tier):
    spec = draw(market_case(T=(4, 9), n=(2, 4), ordered=True, long=(10, 30), wide=(5, 10)))
    spec["kind"] = draw(st.sampled_from(["eq", "min_risk", "mean_variance", "max_diverse", "risk_parity"]))
    spec["K"] = draw(gen.ints(1, 3))
    spec["lead"], spec["tail"] = draw(gen.ints(0, 2)), draw(gen.ints(0, 1))
    spec["window"] = [draw(st.booleans()), draw(st.booleans()), draw(gen.ints(0, 1)), draw(gen.ints(0, 1))]
    spec["poke"] = draw(gen.ints(0, 10))
    spec["table"] = draw(st.booleans())
    spec["prescient"] = draw(st.sampled_from([None, None, 0, 1, 2]))
    spec["unasked"] = draw(gen.seldom(st.just(False), st.just(True), 3))
    if draw(gen.ints(0, 4)) == 4:
        spec["gaps"] = draw(st.lists(st.tuples(gen.ints(0, 30), gen.ints(0, 9)), min_size=1, max_size=2))
    spec["rhos"] = draw(st.booleans())
    spec["rf"] = draw(st.sampled_from([None, None, "cash", "excess"]))
    return spec


def check_c38(spec, ctx):
    n, K, kind = spec["n"], spec["K"], spec["kind"]
    rets, _, mu, S, idx, cols = market(spec)
    T = spec["T"]
    rng = np.random.default_rng(spec["seed"] + 3)
    names = [f"P{k}" for k in range(K)]
    oracle = spec.get("prescient")
    if oracle is not None:
        oracle %= K
        names[oracle] = "PRESCIENT"
    have = list(range(min(spec["lead"], T - 3), T - spec["tail"]))  # rows with a prediction
    A = [S * rng.uniform(0.5, 2) if k == 0 else np.array([(lambda G: G @ G.T)(rng.normal(size=(n, n + 2))) * 10.0 ** (2 * spec["scale"]) / n + s * 0.2 for s in S]) for k in range(K)]
    preds = [{idx[t]: pd.DataFrame(A[k][t], index=cols, columns=cols) for t in have} for k in range(K)]
    mus = [mu * (1 + k) for k in range(K)]
    rho = np.abs(mu.values) * rng.uniform(0, 0.7, size=mu.shape) if spec.get("rhos") and kind == "mean_variance" else np.zeros(mu.shape)
    rhos = pd.DataFrame(rho, index=idx, columns=cols) if rho.any() else None
    lo = have[spec["window"][2]] if spec["window"][0] else have[0]
    hi = have[-1 - spec["window"][3]] if spec["window"][1] else have[-1]
    if hi <= lo:
        lo, hi = have[0], have[-1]
    start = idx[lo] if spec["window"][0] else None
    end = idx[hi] if spec["window"][1] else None
    if not spec["window"][0]:
        lo = have[0]
    if not spec["window"][1]:
        hi = have[-1]
    lim = {"upper_bound": round(1.6 / n, 4), "lower_bound": -0.3, "short_lim": 1.5}

    def run(returns, predictors, means):
        returns, predictors, means = returns.copy(), [dict(p) for p in predictors], [m.copy() for m in means]
        with sut(f"backtest of {kind}"), quiet():
            if kind == "eq":
                return PB.EqWeighted(returns, predictors, names, start, end).backtest()
            if kind == "min_risk":
                return PB.MinRisk(returns, predictors, names, start, end).backtest(dict(lim))
            if kind == "max_diverse":
                return PB.MaxDiverse(returns, predictors, names, start, end).backtest(dict(lim))
            if kind == "risk_parity":
                return PB.RiskParity(returns, predictors, names, start, end).backtest()
            return PB.MeanVariance(returns, predictors, names, means, start, end).backtest(dict(lim), 0.1, **({} if rhos is None else {"rhos": rhos.copy()}))

    R = rets.values.astype(float)
    for t, j in spec.get("gaps", []):
        R[t % T, j % n] = np.nan
    if sum(not np.isnan(R[t + 1]).any() for t in range(lo, hi)) < 1:
        R = rets.values.astype(float)
    rets = pd.DataFrame(R, index=idx, columns=cols)
    ctx.act()
    got = run(rets, preds, mus)
    labels_equal(list(got), names, "names")
    # predictions made at these rows trade the next row's returns
    rows = [t for t in range(lo, hi) if not np.isnan(R[t + 1]).any()]
    for k in range(K):
        t = got[names[k]]
        what = f"{kind} backtest of {names[k]}"
        frame_labels(t.returns, idx[rows], cols, what + ": traded returns")
        close(t.returns.values, R[np.array(rows) + 1], what + ": the return traded at a time is the next one", rtol=1e-12)
        W = np.asarray(t.ws, dtype=float)
        require(len(W) == len(rows), lambda: f"{what}: {len(W)} portfolios for {len(rows)} times")
        for j, row in enumerate(rows):
            C, w = A[k][row], W[j]
            at = f"{what} at {idx[row]}"
            if kind == "eq":
                close(w, np.full(n, 1 / n), at, rtol=1e-12)
            elif kind == "min_risk":
                best, _ = optimum(C, lim)
                require(abs(np.sqrt(w @ C @ w) / best - 1) <= 1e-3, lambda: f"{at}: risk {np.sqrt(w @ C @ w)!r}, optimum {best!r}")
                feasible(w, lim, at)
            elif kind == "risk_parity":
                x = parity(C) / np.sqrt(np.diag(C))
                close(w, x / x.sum(), at, rtol=1e-2, atol=1e-3)
            elif kind == "max_diverse":
                s = np.sqrt(np.diag(C))
                q = np.sqrt(np.trace(C) / n)
                z = cp.Variable(n, nonneg=True)
                v = solve(cp.Problem(cp.Minimize(cp.norm2(np.linalg.cholesky(C / q**2).T @ z)), [z <= lim["upper_bound"] * cp.sum(z), (s / q) @ z == 1]))
                val = (w @ s) / np.sqrt(w @ C @ w)
                require(abs(val * v - 1) <= 1e-3, lambda: f"{at}: diversification ratio {val!r}, optimum {1 / v!r}")
            else:
                q = np.sqrt(np.trace(C) / n)
                x = cp.Variable(n)
                m = mus[k].values[row]
                best = q * solve(cp.Problem(cp.Maximize((m / q) @ x - (rho[row] / q) @ cp.abs(x)), constraints(x, lim) + [cp.norm2(np.linalg.cholesky(C / q**2).T @ x) <= 0.1 / np.sqrt(252) / q]))
                val = m @ w[:-1] - rho[row] @ np.abs(w[:-1])
                require(abs(val - best) <= 2e-3 * (abs(best) + 0.01 * q) + 1e-7, lambda: f"{at}: objective {val!r}, optimum {best!r}")
                feasible(w[:-1], lim, at, tol=1e-4)
    # the portfolios held up to a time do not depend on returns after it
    if rows:
        cut = rows[spec["poke"] % len(rows)]
        R2 = R.copy()
        R2[cut + 1 :] = -2 * R2[cut + 1 :] + 0.01
        later = run(pd.DataFrame(R2, index=idx, columns=cols), preds, mus)
        for k in range(K):
            held = rows.index(cut) + 1
            close(later[names[k]].ws[:held], got[names[k]].ws[:held], f"portfolios of {names[k]} up to {idx[cut]} after changing later returns", rtol=1e-6, atol=1e-7)
    if spec["table"] and len(rows) >= 3:
        text = io.StringIO()
        rf = rng.uniform(0, 5e-4, size=len(rows)) if spec.get("rf") else np.zeros(len(rows))
        excess = spec.get("rf") == "excess"
        asked = oracle is not None and not spec.get("unasked")
        with sut("create_table"), contextlib.redirect_stdout(text):
            PB.create_table(got, 0.1 if kind != "mean_variance" else None, pd.Series(rf, index=idx[rows]) if spec.get("rf") else None, excess, prescient=asked)
        lines = [x for x in text.getvalue().splitlines() if "\\%" in x]
        shown = [k for k in range(K) if k != oracle] + ([oracle] if asked else [])
        require(len(lines) == len(shown), lambda: f"the table has {len(lines)} rows instead of {len(shown)}")
        for line, k in zip(lines, shown):
            W, C = np.asarray(got[names[k]].ws, dtype=float), A[k]
            if kind == "mean_variance":
                r = np.array([W[j, :-1] @ R[row + 1] + W[j, -1] * rf[j] for j, row in enumerate(rows)])
            else:
                share = np.array([0.1 / np.sqrt(252) / np.sqrt(W[j] @ C[row] @ W[j]) for j, row in enumerate(rows)])
                r = np.array([share[j] * (W[j] @ R[row + 1]) + (1 - share[j]) * rf[j] for j, row in enumerate(rows)])
            V = np.cumprod(1 + r)
            dd = max(1 - V[j] / V[: j + 1].max() for j in range(len(V)))
            cells = [x.strip().rstrip("\\").strip().rstrip("%").rstrip("\\") for x in line.split("&")]
            require(cells[0] == names[k], lambda: f"the row of {names[k]} in the table is named {cells[0]}")
            mean = (r - rf * excess).mean()
            for c, v, unit in zip(cells[1:], [100 * mean * 252, 100 * r.std() * np.sqrt(252), mean / r.std() * np.sqrt(252), 100 * dd], [0.1, 0.1, 0.1, 1]):
                require(abs(float(c) - v) <= 0.51 * unit + 1e-3 * abs(v), lambda: f"table row {line!r}: {c} should be {v!r}")
        ctx.label("table")
    ctx.note.update(T=T, n=n, K=K, kind=kind, rows=len(rows))
    if len(rows) < hi - lo:
        ctx.label("missing returns")
    ctx.label(kind, "start given" if start is not None else "whole range")
    ctx.mark(len(rows) >= 2)


BX = {"T": 3, "n": 3, "seed": 4, "scale": -2.0, "spread": 0.6, "change": 0.5, "index": "B", "cols": "abc"}
MR = {**BX, "limits": {"upper_bound": 0.6, "lower_bound": -0.1, "short_lim": 1.6}, "kind": "min_risk", "sigma": 0.1, "kappa": 30.0, "factor": 1, "before": None}
MV = {**BX, "kind": "mean_variance", "limits": {"short_lim": 1.6}, "sigma": 0.1, "factor": 1, "rhos": True, "extra": 1}
DV = {**BX, "kind": "max_diverse", "upper": 0.5}
AC = {**BX, "T": 20, "adjust": 1, "sigma": 0.1, "rf": True, "mode": "plain", "risk": 0.1, "drift": 0.0}
BT = {**BX, "T": 8, "kind": "min_risk", "K": 2, "lead": 1, "tail": 1, "window": [True, True, 1, 1], "poke": 3, "table": True, "prescient": 0, "rhos": True, "rf": "excess"}
SOLVER = ("ECOS is not installed; CLARABEL stands in. multiprocessing.Pool is replaced by a serial stand-in",)

PROPS = {
    "C34": Prop("C34", "Minimum-risk portfolios are feasible, optimal and hit their volatility", minrisk_case, patient(check_c34),
        "Random markets (2-6 assets, 1-5 days), constraint sets, robust and volatility-controlled variants, after other backtests; non-trivial: two days and a clear gain over equal weights.", 650, 7000,
        examples=[MR, {**MR, "kind": "vol_cont", "n": 2}, {**MR, "kind": "robust_min_risk"}, {**MR, "limits": {}}, {**MR, "before": "infeasible"}, {**MR, "kind": "vol_cont", "T": 1}, {**MR, "kind": "robust_min_risk", "change": 2.0, "T": 5, "kappa": 300.0}, {**MR, "factor": 100, "kind": "vol_cont"}],
        assumptions=SOLVER),
    "C35": Prop("C35", "Mean-variance and maximum Sharpe portfolios are feasible and optimal", mv_case, patient(check_c35),
        "Random markets and expected returns (2-5 assets), limits, risk targets, uncertain means; non-trivial: at least two days.", 550, 7000,
        examples=[MV, {**MV, "rhos": False}, {**MV, "kind": "max_sharpe", "limits": {"upper_bound": 1.0}}, {**MV, "factor": 2.0}],
        assumptions=SOLVER),
    "C36": Prop("C36", "Diversified, risk-parity and equal-weight portfolios are what they claim", div_case, patient(check_c36),
        "Random markets (2-6 assets), caps; non-trivial: at least two days of max_diverse or risk_parity.", 1000, 14000,
        examples=[DV, {**DV, "kind": "risk_parity"}, {**DV, "kind": "eq_weighted"}],
        assumptions=SOLVER),
    "C37": Prop("C37", "Portfolio returns, values, drawdown and metrics add up", account_case, check_c37,
        "Random weights and returns (1-40 days, 1-6 assets), cash dilution, risk-free rates, excess metrics, units, a second backtest; non-trivial: at least three days.", 2600, 28000,
        examples=[{**AC, "mode": m, "rf": f} for m in ("plain", "diluted", "cash weights", "diluted twice", "retargeted", "excess") for f in (True, False)]),
    "C38": Prop("C38", "Backtests trade each prediction against the next return only", backtest_case, patient(check_c38),
        "Random predictors (1-3), windows, portfolio types, a change of later returns, the printed table; non-trivial: at least two traded days.", 210, 2400,
        examples=[{**BT, "kind": k, "window": w} for k in ("eq", "min_risk", "mean_variance", "max_diverse", "risk_parity") for w in ([True, True, 1, 1], [False, False, 0, 0])],
        assumptions=SOLVER),
}
