"""Return forecasts, the factor model, the factor parametrization and the small analysis tools of experiments/utils."""

import sys
import types
from collections import namedtuple

import cvxpy as cp
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt import bootstrap, gen, ref
from pbt.core import Prop, close, labels_equal, require, sut
from pbt.props.p_ewma import frame_labels
from pbt.props.solver import use_available_solvers

use_available_solvers()

PCA = namedtuple("PCA", ["factors", "exposure"])


def pca(returns, n_components=10):
    """Stand-in for cvx.linalg.pca (not installed): principal components of the centred returns, signs fixed."""
    X = returns.values - returns.values.mean(0)
    _, _, Vt = np.linalg.svd(X, full_matrices=False)
    V = Vt[:n_components]
    V = V * np.where(V[np.arange(len(V)), np.abs(V).argmax(1)] < 0, -1.0, 1.0)[:, None]
    exposure = pd.DataFrame(V, columns=returns.columns)
    return PCA(returns @ np.transpose(exposure), exposure)


try:
    import cvx.linalg  # noqa: F401
except ImportError:
    _stub = types.ModuleType("cvx.linalg")
    _stub.pca = pca
    sys.modules["cvx.linalg"] = _stub

import cvx.covariance.combination as CO
import experiments.utils.ccp_regularize as CCP
import experiments.utils.experiment_utils as U
import experiments.utils.factor_model as FM
import experiments.utils.return_combination as RC
import experiments.utils.trading_model as TM

for _m in (CCP, U, FM, RC, TM, CO):
    bootstrap.assert_from_repo(_m)
FM.pca = pca

# --------------------------------------------------------------- C29 return forecasts


@st.composite
def forecast_case(draw, tier):
    memory = draw(gen.seldom(gen.ints(1, 25), gen.ints(60, 700)))
    T = memory + draw(gen.ints(0, 12))
    return {
        "T": T,
        "n": draw(gen.seldom(gen.ints(1, 3), gen.ints(4, 9))),
        "K": draw(gen.seldom(gen.ints(1, 5), gen.ints(6, 15))),
        "memory": memory,
        "alpha": draw(st.sampled_from([0.01, 1.0, 0.0001, 10.0, 3.3])),
        "seed": draw(gen.seeds),
        "scale": draw(st.sampled_from([0.0, -2.0, 1.0, -4.0])),
        "index": draw(st.sampled_from(gen.INDEX_KINDS)),
        "cols": draw(st.sampled_from(gen.COL_KINDS)),
        "pcols": draw(st.sampled_from(gen.COL_KINDS)),
        "more": [draw(gen.ints(0, 3)), draw(gen.ints(0, 3))],
        "tune": draw(st.booleans()),
        "poke": draw(gen.ints(0, 40)),
    }


def check_c29(spec, ctx):
    T, n, K, m, alpha = (spec[k] for k in ("T", "n", "K", "memory", "alpha"))
    a, b = spec["more"]
    rng = np.random.default_rng(spec["seed"])
    u = 10.0 ** spec["scale"]
    idx = gen.build_index(spec["index"], T + a + b)
    cols, pcols = gen.build_columns(spec["cols"], n), gen.build_columns(spec["pcols"], K)
    R = rng.normal(size=(T + a + b, n)) * u
    rets = pd.DataFrame(R, index=idx, columns=cols)
    P = [rng.normal(size=(T, K)) * u + 0.3 * R[a : a + T, [i]] for i in range(n)]
    preds = [pd.DataFrame(p, index=idx[a : a + T], columns=pcols) for p in P]

    def fit(returns, predictions):
        with sut("ReturnCombinator.fit"):
            return RC.ReturnCombinator().fit(returns.copy(), [p.copy() for p in predictions], m, alpha)

    ctx.act()
    hats, weights = fit(rets, preds)
    due = list(range(m, T))
    frame_labels(hats, idx[a : a + T][m:], cols, "forecasts")
    require(len(weights) == n, lambda: f"{len(weights)} weight frames for {n} assets")
    decay = 0.5 ** (np.arange(m)[::-1] / 500.0)
    decay = decay / decay.sum() * m
    scales = [np.vstack([np.full(K, np.nan), ref.wmean_fast(p**2, 250)[:-1]]) for p in P]
    for i in range(n):
        frame_labels(weights[i], idx[a : a + T][m:], pcols, f"weights of asset {cols[i]}")
        W = np.asarray(weights[i].values, dtype=float)
        for k, t in enumerate(due):
            Q, y = P[i][t - m : t], R[a + t - m : a + t, i]
            G = (Q * decay[:, None]).T @ Q + alpha * np.diag(scales[i][t])
            w = np.linalg.solve(G, (Q * decay[:, None]).T @ y)
            what = f"asset {cols[i]} at {idx[a + t]}"
            cond = np.linalg.cond(G)
            if cond < 1e8:
                close(W[k], w, "weights of " + what, rtol=1e-6, atol=1e-14 * cond * (1 + np.abs(w).max()))
                close(float(hats.iloc[k, i]), P[i][t] @ w, "forecast of " + what, rtol=1e-6, atol=(1e-8 + 1e-14 * cond) * u * (1 + np.abs(w).max()))
            close(float(hats.iloc[k, i]), P[i][t] @ W[k], "forecast uses the weights reported for " + what, rtol=1e-8, atol=1e-10 * u * (1 + np.abs(W[k]).max()))
    if due and spec["tune"] and len(due) >= 3:
        with sut("tune_alpha"):
            alphas, corrs, rmses, ws = RC.tune_alpha(rets[[cols[0]]].copy(), [preds[0].copy()], [alpha, 2 * alpha], memory=m)
        close(alphas, [alpha, 2 * alpha], "tuned alphas", rtol=0)
        f = hats.iloc[:, 0].values.astype(float)
        y = R[a + m : a + T, 0]
        close(corrs[0], np.corrcoef(f, y)[0, 1], "correlation of forecasts and returns", rtol=1e-6, atol=1e-7)
        close(rmses[0], np.sqrt(np.mean((f - y) ** 2)), "root mean squared error", rtol=1e-6)
        close(ws[0][0].values, weights[0].values, "weights returned by tune_alpha", rtol=1e-9)
        ctx.label("tuned")
    if due:  # what happens from the forecast day on cannot matter
        t = due[spec["poke"] % len(due)]
        R2, P2 = R.copy(), [p.copy() for p in P]
        R2[a + t :] = -7 * R2[a + t :] + u
        for p in P2:
            p[t + 1 :] = 5 * p[t + 1 :] - u
        hats2, _ = fit(pd.DataFrame(R2, index=idx, columns=cols), [pd.DataFrame(p, index=idx[a : a + T], columns=pcols) for p in P2])
        close(hats2.values[: t - m + 1], hats.values[: t - m + 1], f"forecasts up to {idx[a + t]} after changing later data", rtol=1e-9)
    # the simple predictors
    s = rets[cols[0]]
    hl = [1, 2.5, 21][: 1 + K % 3]
    with sut("ewma_predictors"):
        got = RC.ewma_predictors(s.copy(), hl)
    frame_labels(got, idx[1:], hl, "EWMA predictors")
    for h in hl if len(s) > 1 else []:
        close(got[h].values, ref.wmean_fast(R[:, 0], h)[:-1], f"EWMA predictor {h}", rtol=1e-8, atol=1e-10 * u)
    lags = [1, 3]
    with sut("daily_predictors"):
        got = RC.daily_predictors(s.copy(), lags)
    frame_labels(got, idx, lags, "lagged predictors")
    for lag in lags:
        close(got[lag].values, np.r_[np.full(min(lag, len(R)), np.nan), R[: max(len(R) - lag, 0), 0]], f"lagged predictor {lag}", rtol=0)
    with sut("feature_engineer"):
        parts = {unit: RC.feature_engineer(preds[0] * unit) for unit in (1.0, 1e-10)}
    for unit, got in parts.items():
        Q = P[0] * unit
        close(got.values, np.hstack([np.maximum(Q, 0), np.minimum(Q, 0)]), f"positive and negative parts of the predictions times {unit}", rtol=0)
    ctx.note.update(T=T, n=n, K=K, memory=m, alpha=alpha, due=len(due))
    ctx.mark(len(due) >= 2)
    ctx.label(f"n={n}", "K>memory" if K > m else "K<=memory")


# --------------------------------------------------------------- C30 sparse return combination


@st.composite
def lasso_case(draw, tier):
    memory = draw(gen.seldom(gen.ints(2, 20), gen.ints(50, 300)))
    return {
        "T": memory + draw(gen.ints(1, 4)),
        "K": draw(gen.seldom(gen.ints(1, 5), gen.ints(6, 12))),
        "memory": memory,
        "alpha": draw(st.sampled_from([0.1, 1.0, 5.0, 0.001, 100.0])),
        "seed": draw(gen.seeds),
        "index": draw(st.sampled_from(gen.INDEX_KINDS)),
        "pcols": draw(st.sampled_from(gen.COL_KINDS)),
        "which": draw(st.sampled_from(["function", "class"])),
        "strength": draw(st.sampled_from([0.0, 0.5, 2.0])),
    }


def lasso(Q, y, alpha):
    w = np.zeros(Q.shape[1])
    q = (Q**2).sum(0)
    for _ in range(20000):
        old = w.copy()
        for k in range(len(w)):
            rho = Q[:, k] @ (y - Q @ w + Q[:, k] * w[k])
            w[k] = np.sign(rho) * max(abs(rho) - alpha / 2, 0) / q[k]
        if np.abs(w - old).max() < 1e-13:
            break
    return w


def check_c30(spec, ctx):
    T, K, m, alpha = (spec[k] for k in ("T", "K", "memory", "alpha"))
    rng = np.random.default_rng(spec["seed"])
    idx, pcols = gen.build_index(spec["index"], T), gen.build_columns(spec["pcols"], K)
    P = rng.normal(size=(T, K))
    y = rng.normal(size=T) + spec["strength"] * P @ rng.normal(size=K)
    s, preds = pd.Series(y, index=idx), pd.DataFrame(P, index=idx, columns=pcols)
    ctx.act()
    with sut("sparse return combination"):
        if spec["which"] == "function":
            hat, W = RC.ewma_return_combination(s.copy(), preds.copy(), alpha, m)
        else:
            c = RC.ReturnCombinatorOld()
            c.build(m, K, alpha)
            hat, W = c.fit(s.copy(), preds.copy())
    frame_labels(W, idx[m:], pcols, "weights")
    labels_equal(hat.index, idx[m:], "forecast times")
    V = np.asarray(W.values, dtype=float)
    sparse = False
    for k, t in enumerate(range(m, T)):
        Q, z = P[t - m : t], y[t - m : t]
        w = lasso(Q, z, alpha)

        def f(x):
            return ((z - Q @ x) ** 2).sum() + alpha * np.abs(x).sum()

        require(f(V[k]) <= f(w) + 1e-5 * (1 + f(w)), lambda: f"weights at {idx[t]} reach {f(V[k])!r}, the optimum is {f(w)!r}")
        if np.linalg.cond(Q.T @ Q) < 1e4:
            close(V[k], w, f"weights at {idx[t]}", rtol=1e-3, atol=2e-2 * (1 + np.abs(w).max()))
        close(float(hat.iloc[k]), P[t] @ V[k], f"forecast at {idx[t]}", rtol=1e-8, atol=1e-10)
        sparse |= bool(((w == 0).any()) and (w != 0).any())
    ctx.note.update(T=T, K=K, memory=m, alpha=alpha)
    ctx.label(spec["which"], "sparse" if sparse else "dense or zero")
    ctx.mark(T > m)


# --------------------------------------------------------------- C31 factor model


@st.composite
def factor_case(draw, tier):
    k = draw(gen.ints(1, 3))
    memory = draw(gen.ints(10 + 3 * k, 24 + 3 * k))
    return {
        "k": k,
        "memory": memory,
        "update": draw(gen.ints(1, 14)),
        "T": memory + draw(gen.ints(1, 22)),
        "n": k + draw(gen.ints(1, 4)),
        "pairs": draw(st.sampled_from([[[5, 10]], [[5, 10], [10, 30]], [[2, 4], [8, 8], [20, 40]], [[21, 10], [5, 63]]])),
        "seed": draw(gen.seeds),
        "scale": draw(st.sampled_from([0.0, -2.0, -5.0, 3.0])),
        "noise": draw(st.sampled_from([0.0, 1.5])),
        "index": draw(st.sampled_from(["D", "B", "range", "gapint", "irregular", "str", "text"])),
        "cols": draw(st.sampled_from(gen.COL_KINDS)),
        "poke": draw(gen.ints(0, 60)),
    }


def check_c31(spec, ctx):
    k, m, up, T, n = (spec[x] for x in ("k", "memory", "update", "T", "n"))
    rng = np.random.default_rng(spec["seed"])
    X = rng.normal(size=(T, k)) * np.linspace(3, 1, k) @ rng.normal(size=(k, n))
    X = X + 0.5 * 10.0 ** (-spec.get("noise", 0.0) * rng.uniform(size=n)) * rng.normal(size=(T, n))
    X = X * 10.0 ** spec["scale"]
    idx, cols = gen.build_index(spec["index"], T), gen.build_columns(spec["cols"], n)
    rets = pd.DataFrame(X, index=idx, columns=cols)
    pairs = [tuple(p) for p in spec["pairs"]]

    def run(frame):
        with sut("construct_cmiewma_factor_model"):
            return list(FM.construct_cmiewma_factor_model(frame.copy(), k, pairs, **gen.sparing(spec, {"update_frequency": 20, "memory": 250}, update_frequency=up, memory=m)))

    ctx.act()
    got = run(rets)
    want = []  # (row, exposure, factor covariance, diagonal)
    for t in range(m, T, up):
        end = min(t + up - 1, T - 1)
        V = pca(rets.iloc[t - m : t], n_components=k).exposure.values
        F = X[: end + 1] @ V.T
        res = (X[: end + 1] - F @ V) ** 2
        diag = ref.wmean_fast(res, 21)
        sig = {}
        for j, (hv, hc) in enumerate(pairs):
            sig[j] = {
                idx[w["row"]]: pd.DataFrame(w["cov"] + (0.05 * np.diag(np.diag(w["cov"])) if j == 0 else 0))
                for w in ref.iewma(F, hv, hc, k, 2 * k)
                if w["row"] >= t - 10
            }
        frame = pd.DataFrame(F, index=idx[: end + 1])
        for r in CO.from_sigmas(sig, frame).solve(window=10):
            row = idx.get_loc(r.time)
            want.append((row, V, r.covariance.values, diag[row]))
    labels_equal([g.time for g in got], [idx[w[0]] for w in want], "model times")
    full = {}
    for g, (row, V, C, d) in zip(got, want):
        what = f"factor model at {idx[row]}"
        labels_equal(g.exposure.columns, cols, what + ": exposure")
        close(g.exposure.values, V, what + ": exposure", rtol=1e-9, atol=1e-12)
        labels_equal(g.diagonal.index, cols, what + ": idiosyncratic variances")
        close(g.diagonal.values, d, what + ": idiosyncratic variances", rtol=1e-7)
        close(g.factor_covariance.values, C, what + ": factor covariance", rtol=1e-3, atol=5e-3 * np.sqrt(np.outer(np.diag(C), np.diag(C))))
        full[g.time] = V.T @ np.asarray(g.factor_covariance.values, dtype=float) @ V + np.diag(d)
    with sut("from_factor_to_full_covariance"):
        cov = FM.from_factor_to_full_covariance(got)
    labels_equal(sorted(cov, key=list(idx).index), sorted(full, key=list(idx).index), "full covariance times")
    for t, S in full.items():
        frame_labels(cov[t], cols, cols, f"full covariance at {t}")
        close(cov[t].values, S, f"full covariance at {t}", rtol=1e-7, atol=1e-10 * np.abs(S).max())
    with sut("factor_log_likelihood"):
        ll = FM.factor_log_likelihood(rets.copy(), got)
    labels_equal(ll.index, [g.time for g in got], "likelihood times")
    for x, g, (row, V, C, d) in zip(ll.values, got, want):
        S = V.T @ np.asarray(g.factor_covariance.values, dtype=float) @ V + np.diag(d)
        close(float(x), ref.gaussian_loglik(X[row + 1], S, np.zeros(n)) if row + 1 < T else np.nan, f"log-likelihood of the return after {g.time}", rtol=1e-7, atol=1e-6)
    # causality: a model dated t is unaffected by returns after t
    t0 = want[spec["poke"] % len(want)][0]
    Y = X.copy()
    Y[t0 + 1 :] = -3.0 * Y[t0 + 1 :][:, ::-1] + 10.0 ** spec["scale"]
    later = run(pd.DataFrame(Y, index=idx, columns=cols))
    labels_equal([g.time for g in later], [g.time for g in got], "model times after changing later returns")
    for g, h, (row, V, C, d) in zip(got, later, want):
        if row > t0:
            break
        what = f"model at {g.time} after changing returns past {idx[t0]}"
        close(h.exposure.values, g.exposure.values, what, rtol=1e-9, atol=1e-12)
        close(h.diagonal.values, g.diagonal.values, what, rtol=1e-9)
        close(h.factor_covariance.values, g.factor_covariance.values, what, rtol=1e-3, atol=5e-3 * np.diag(C).max())
    ctx.note.update(T=T, n=n, k=k, memory=m, update=up, models=len(want))
    ctx.mark(len(want) >= 3)
    ctx.label("several updates" if T - m > up else "one update", f"k={k}")


# --------------------------------------------------------------- C32 factor parametrization


@st.composite
def ccp_case(draw, tier):
    n = draw(gen.seldom(gen.ints(2, 8), gen.ints(9, 40)))
    return {
        "n": n,
        "r": draw(gen.ints(1, max(1, n - 1))),
        "seed": draw(gen.seeds),
        "vol": draw(st.sampled_from([0.0, -1.0, 1.0])),
        "level": draw(st.sampled_from([0.0, 0.0, -2.0, -4.0, 3.0])),
        "iterate": draw(gen.ints(0, 9)) == 9 and n < 9,
        "exact": draw(gen.ints(0, 2)) == 2,
        "two": draw(st.booleans()),
    }


def check_c32(spec, ctx):
    n, r = spec["n"], spec["r"]
    rng = np.random.default_rng(spec["seed"])
    v = 10.0 ** (spec["vol"] * rng.uniform(0, 1, size=n) + spec.get("level", 0.0))
    F = rng.normal(size=(n, r)) * v[:, None]
    d = rng.uniform(0.2, 2.0, size=n) * v**2
    if spec["exact"]:
        S = F @ F.T + np.diag(d)
    else:
        A = rng.normal(size=(n, n + 2)) * v[:, None]
        S = A @ A.T / n + 0.1 * np.diag(v**2)
    M = F @ F.T + np.diag(d)

    def nll(C):
        return np.linalg.slogdet(C)[1] + np.trace(np.linalg.solve(C, S))

    cls = CCP._State2 if spec["two"] else CCP._State
    ctx.act()
    with sut("construction"):
        state = cls(S.copy(), F.copy(), d.copy())
    with sut("build"):
        F1, d1 = state.build()
    vv = np.outer(v, v)
    close(d1, d, "idiosyncratic variances rebuilt from the parametrization", rtol=1e-9)
    close(np.asarray(F1) @ np.asarray(F1).T, F @ F.T, "common part rebuilt from the parametrization", rtol=1e-7, atol=1e-8 * vv * np.abs(M / vv).max())
    E, G = np.diag(state.ek), np.asarray(state.Gk)
    close(np.linalg.inv(E - G @ G.T), M, "inverse of E - GG'", rtol=1e-6, atol=1e-8 * vv * np.abs(M / vv).max())
    with sut("objective"):
        obj = state.objective()
    close(float(obj), nll(M), "objective against the Gaussian negative log-likelihood", rtol=1e-7, atol=1e-6)
    e = np.asarray(state.ek, dtype=float)
    if all(hasattr(CCP, f) for f in ("_common_factor", "_grad_G", "_grad_e")):
        with sut("gradients"):
            cf = CCP._common_factor(e.copy(), G.copy())
            gG, ge = CCP._grad_G(cf), CCP._grad_e(e.copy(), G.copy(), cf)
        # gradients of -logdet(E - GG')
        close(gG, 2 * M @ G, "gradient in G", rtol=1e-6, atol=1e-7 * np.abs(M @ G).max())
        close(ge, -np.diag(M), "gradient in e", rtol=1e-6, atol=1e-8 * np.abs(M).max())
    if spec["iterate"] and not spec["two"] and n <= 5 and not spec.get("level"):
        state = CCP._State(S.copy(), F.copy(), d.copy())
        with sut("iterate"):
            state.construct_problem()
            best = nll(M)
            for _ in range(2):
                Gk = np.array(state.Gk)
                state.iterate()
                F2, d2 = state.build()
                # the step minimises the function with its concave part linearised at Gk: both gradients vanish
                M2 = np.asarray(F2) @ np.asarray(F2).T + np.diag(d2)
                close(np.diag(M2) / np.diag(S), np.ones(n), "variances after an iteration over given variances", rtol=2e-3)
                close(v[:, None] ** -1 * (M2 @ state.Gk), v[:, None] ** -1 * (S @ Gk), "stationarity in G after an iteration", rtol=0, atol=2e-3 * max(1.0, np.abs(v[:, None] ** -1 * (S @ Gk)).max()))
                new = nll(np.asarray(F2) @ np.asarray(F2).T + np.diag(d2))
                require(new <= best + 1e-4 * (1 + abs(best)), f"an iteration raised the negative log-likelihood from {best!r} to {new!r}")
                if spec["exact"]:
                    close(new, nll(S), "an exact model stays optimal", rtol=1e-4, atol=1e-4)
                best = new
        ctx.label("iterated")
    ctx.note.update(n=n, r=r, exact=spec["exact"])
    ctx.label("exact" if spec["exact"] else "general")
    ctx.mark()


# --------------------------------------------------------------- C33 small tools


@st.composite
def tools_case(draw, tier):
    return {
        "T": draw(gen.seldom(gen.ints(2, 40), gen.ints(41, 900))),
        "n": draw(gen.seldom(gen.ints(1, 6), gen.ints(7, 40))),
        "seed": draw(gen.seeds),
        "index": draw(st.sampled_from(gen.INDEX_KINDS)),
        "cols": draw(st.sampled_from(gen.COL_KINDS)),
        "devs": draw(st.sampled_from([2, 1.0, 0.5, 3])),
        "lamda": draw(st.sampled_from([0.05, 0.0, 1, 2.5])),
        "years": draw(gen.seldom(gen.ints(1, 4), gen.ints(5, 12))),
        "edge": draw(gen.ints(0, 24)),
        "ties": draw(st.booleans()),
    }


def check_c33(spec, ctx):
    T, n = spec["T"], spec["n"]
    rng = np.random.default_rng(spec["seed"])
    idx, cols = gen.build_index(spec["index"], T), gen.build_columns(spec["cols"], n)
    ctx.act()
    # turnover
    W = rng.normal(size=(T, n))
    W = np.where(rng.uniform(size=W.shape) < 0.2, 0.0, W)  # assets not held
    W[:, 0] += 1e-3 * (np.abs(W).sum(1) == 0)
    if spec["seed"] % 3 == 0:
        W = np.abs(W) / np.abs(W).sum(1, keepdims=True)
    with sut("turnover"):
        got = U.turnover(W.copy())
    want = 0.0
    for t in range(1, T):
        want += np.abs(W[t] - W[t - 1]).sum() / np.abs(W[t - 1]).sum()
    close(float(got), 25200 * want / (T - 1), "annual turnover in percent", rtol=1e-9)
    # ecdf
    x = rng.integers(-3, 4, size=T).astype(float) if spec["ties"] else rng.normal(size=T)
    with sut("ecdf"):
        a, b = U.ecdf(x.copy())
    close(a, np.sort(x), "ecdf support", rtol=0)
    close(b, np.arange(1, T + 1) / T, "ecdf levels", rtol=1e-12)
    # stacked upper triangles
    A = rng.normal(size=(T, n, n))
    A = A + A.transpose(0, 2, 1)
    rows = np.array([[S[i, j] for i in range(n) for j in range(i, n)] for S in A])
    with sut("from_row_matrix_to_covariance"):
        got = U.from_row_matrix_to_covariance(rows.copy(), n)
        one = U.from_row_to_covariance(rows[-1].copy(), n)
    close(got, A, "matrices from stacked upper triangles", rtol=0)
    close(one, A[-1], "matrix from one upper triangle", rtol=0)
    # diagonal loading
    S = {t: pd.DataFrame(A[k], index=cols, columns=cols) for k, t in enumerate(idx)}
    with sut("add_to_diagonal"):
        got = U.add_to_diagonal(dict(S), spec["lamda"])
    labels_equal(list(got), list(idx), "times after add_to_diagonal")
    for k, t in enumerate(idx):
        frame_labels(got[t], cols, cols, f"loaded matrix at {t}")
        close(got[t].values, A[k] + spec["lamda"] * np.diag(np.diag(A[k])), f"loaded matrix at {t}", rtol=1e-12, atol=1e-15)
        close(S[t].values, A[k], f"matrix given to add_to_diagonal at {t}", rtol=0)
    # uncertainty of the mean: n_devs standard deviations known the day before
    X = rng.normal(size=(T, n))
    if spec["ties"]:
        X[rng.random(X.shape) < 0.1] = np.nan
        X[: rng.integers(0, T), 0] = np.nan
    R = pd.DataFrame(X, index=idx, columns=cols)
    with sut("construct_rho"):
        got = TM.construct_rho(R.copy(), **gen.sparing(spec, {"n_devs": 2}, n_devs=spec["devs"]))
    frame_labels(got, idx, cols, "uncertainty")
    want = np.zeros((T, n))
    b = ref.decay(125)
    for t in range(2, T):
        for j in range(n):
            known = ~np.isnan(X[:t, j])
            if known.sum() > 1:
                w = b ** np.arange(t - 1, -1, -1.0)[known]
                w = w / w.sum()
                Y = X[:t, j][known]
                want[t, j] = np.sqrt((w @ (Y - w @ Y) ** 2) / (1 - (w**2).sum()))
    close(got.values, spec["devs"] * want, "uncertainty", rtol=1e-7, atol=1e-9)
    # yearly Sharpe ratios over years with more than 100 days
    days = pd.bdate_range("2011-03-01", periods=90 + 230 * spec["years"])
    first, last = (days[days.year == y] for y in (days.year[0], days.year[-1]))
    if spec.get("edge", 0) and days.year[0] < days.year[-1]:  # years at the threshold
        last = pd.bdate_range(f"{last.year[0]}-01-01", periods=98 + spec.get("edge", 0) % 5)
        days = first[-(98 + spec.get("edge", 0) // 5) :].append(days[(days.year > first.year[0]) & (days.year < last.year[0])]).append(last)
    r = rng.normal(size=(len(days), 1)) * 0.01 + 0.0004
    trader = types.SimpleNamespace(rets=r, returns=pd.DataFrame(r, index=days))
    with sut("yearly_SR"):
        sr = U.yearly_SR(trader, plot=False)
    years = [y for y in sorted(set(days.year)) if (days.year == y).sum() > 100]
    labels_equal([t.year for t in sr.index], years, "years")
    close(sr.values, [r[days.year == y].mean() / r[days.year == y].std(ddof=1) * np.sqrt(252) for y in years], "yearly Sharpe ratios", rtol=1e-8)
    ctx.note.update(T=T, n=n, years=years)
    ctx.mark(T >= 4 and n >= 2)


FX = {"T": 30, "n": 2, "K": 3, "memory": 20, "alpha": 0.01, "seed": 3, "scale": -2.0, "index": "B", "cols": "abc", "pcols": "int", "more": [2, 1], "tune": True, "poke": 3}
LX = {"T": 14, "K": 3, "memory": 12, "alpha": 5.0, "seed": 3, "index": "B", "pcols": "int", "which": "class", "strength": 0.5}
MX = {"k": 2, "memory": 20, "update": 7, "T": 40, "n": 5, "pairs": [[5, 10], [10, 30]], "seed": 3, "scale": -2.0, "index": "D", "cols": "abc", "poke": 9}
CX = {"n": 4, "r": 2, "seed": 2, "vol": 0.0, "iterate": True, "exact": True, "two": False}
TX = {"T": 20, "n": 3, "seed": 2, "index": "D", "cols": "abc", "devs": 2, "lamda": 0.05, "years": 3, "ties": False}

PROPS = {
    "C29": Prop("C29", "Return forecasts are weighted ridge fits of the past only", forecast_case, check_c29,
        "Random returns and predictors (1-3 assets, 1-5 predictors, windows 1-25); non-trivial: at least two forecasts.", 600, 9000,
        examples=[FX, {**FX, "memory": 1, "T": 6}, {**FX, "n": 1, "K": 5, "memory": 3}]),
    "C30": Prop("C30", "Sparse return forecasts solve the lasso on the past window", lasso_case, check_c30,
        "Random returns and predictors, windows 2-20, penalties 0.001-100, both entry points; non-trivial: at least one forecast.", 420, 6500,
        examples=[LX, {**LX, "which": "function"}, {**LX, "alpha": 100.0}]),
    "C31": Prop("C31", "Factor model covariances are causal and rebuild from their parts", factor_case, check_c31,
        "Random factor returns (1-3 factors, 2-7 assets), windows, update frequencies, half-life pairs, a change of later returns; non-trivial: at least three models.", 36, 480,
        examples=[MX, {**MX, "update": 30}, {**MX, "k": 1, "update": 3, "T": 27}, {**MX, "memory": 250, "update": 20, "T": 285, "seed": 4}, {**MX, "k": 8, "n": 40, "memory": 60, "update": 10, "T": 90}, {**MX, "memory": 16, "update": 2, "T": 140}],
        assumptions=("cvx.linalg.pca is not installed; a principal-components stand-in is used",)),
    "C32": Prop("C32", "Factor parametrization is faithful and its iteration never worsens the fit", ccp_case, check_c32,
        "Random factor models and covariances (2-8 assets), exact and inexact; non-trivial: every case.", 4500, 40000,
        examples=[CX, {**CX, "exact": False}, {**CX, "two": True}],
        assumptions=("MOSEK is not installed; CLARABEL stands in",)),
    "C33": Prop("C33", "Turnover, ECDF, stacked covariances, loadings and yearly Sharpe ratios", tools_case, check_c33,
        "Random weights, samples, stacked matrices, returns and years; non-trivial: at least four times and two assets.", 1100, 13000,
        examples=[TX, {**TX, "T": 2}, {**TX, "n": 1}]),
}
