"""The estimators of experiments/utils: vectorised and low-rank iterated EWMA, rolling window, smoothing, likelihoods."""

from collections import namedtuple

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt import bootstrap, gen, ref
from pbt.core import Prop, close, labels_equal, require, sut
from pbt.props.p_ewma import describe, frame_labels, hl

import experiments.utils.experiment_utils as U
import experiments.utils.iterated_ewma_vec as V
import experiments.utils.low_rank_ewma as LR

for _m in (U, V, LR):
    bootstrap.assert_from_repo(_m)

CONT = ("normal", "t", "regime", "factor", "drift")
LowRank = namedtuple("LowRank", ["F", "d"])

IT = {"min_periods_vola": 20, "min_periods_cov": 20, "mean": False, "clip_at": None}


def leading(R, r):
    """Variance-preserving rank-r approximation of a correlation matrix, and the eigenvalue gap it rests on."""
    n = len(R)
    lam, Q = np.linalg.eigh((R + R.T) / 2)
    if r >= n:
        return R, np.inf
    W = (Q[:, n - r :] * lam[n - r :]) @ Q[:, n - r :].T
    np.fill_diagonal(W, 1.0)
    return W, float(lam[n - r] - lam[n - r - 1])


# --------------------------------------------------------------- C24 vectorised iterated EWMA


@st.composite
def vec_case(draw, tier, low_rank):
    hi = 60 if tier == "quick" else 140
    spec = draw(
        gen.frames(
            gen.lengths(6, 30, hi, long=(150, 500), odds=30),
            n=gen.seldom(st.sampled_from([2, 3, 4, 5, 6, 8] + ([] if low_rank else [1])), gen.ints(21, 45), 20),
            edits=("big", "negbig", "zero") if low_rank else ("big", "negbig"),
            styles=CONT,
            integral=False,
        )
    )
    T, n = spec["T"], spec["n"]
    spec["hv"], spec["hc"] = hl(draw(gen.halflives), T), hl(draw(gen.halflives), T)
    spec["mpv"] = draw(gen.ints(0, max(1, T // 3)))
    spec["mpc"] = draw(gen.ints(0, max(1, T // 3)))
    spec["clip"] = draw(gen.clips)
    spec["mean"] = draw(st.booleans())
    if low_rank:
        spec["rank"] = draw(gen.ints(1, n - 1))
        spec["mu"] = [draw(st.one_of(st.none(), gen.halflives)) for _ in range(2)]
        spec["mu"] = [None if h is None else hl(h, T) for h in spec["mu"]]
        if draw(gen.ints(0, 3)) == 3:  # no trade in one asset on the first days of the second stage
            a = max(spec["mpv"] - 1, 0)
            spec["quiet"] = [min(a, T - 2), min(a + draw(gen.ints(1, 4)), T), draw(gen.ints(0, n - 1))]
    else:
        spec["rank"] = draw(st.sampled_from([None, None] + list(range(1, n + 1))))
    return spec


def check_c24(spec, ctx):
    df = gen.build_frame(spec)
    least = 2 if spec["mean"] else 1
    mpv, mpc = max(spec["mpv"], least), max(spec["mpc"], least)
    want = ref.iewma(df.values, spec["hv"], spec["hc"], mpv, mpc, clip=spec["clip"], mean=spec["mean"])
    if spec["rank"] and any(w["fuzzy"].any() or not np.isfinite(w["corr"]).all() for w in want):
        spec = {**spec, "rank": None}  # an asset without variation has no correlation to take eigenvectors of
    ctx.act()
    with sut("vectorised iterated_ewma"):
        got = V.iterated_ewma(
            df.copy(),
            spec["hv"],
            spec["hc"],
            **gen.sparing(
                spec,
                {**IT, "low_rank": None},
                min_periods_vola=spec["mpv"],
                min_periods_cov=spec["mpc"],
                mean=spec["mean"],
                low_rank=spec["rank"],
                clip_at=spec["clip"],
            ),
        )
    means = None
    if spec["mean"]:
        means, got = got.mean, got.covariance
        labels_equal(list(means), list(got), "times of the means")
    describe(ctx, spec, halflives=[spec["hv"], spec["hc"]], clip=spec["clip"], mean=spec["mean"], rank=spec["rank"], estimates=len(want))
    labels_equal(list(got), [df.index[w["row"]] for w in want], "times")
    judged = 0
    top = np.abs(df.values).max(0)
    tiny = 1e-14 * np.outer(top, top)  # rounding left over from the largest observation
    for w in want:
        t = df.index[w["row"]]
        what = f"vectorised estimate at {t}"
        frame_labels(got[t], df.columns, df.columns, what)
        v = np.outer(w["vola"], w["vola"])
        ok = ~(w["fuzzy"][:, None] | w["fuzzy"][None, :])
        S = np.asarray(got[t].values, dtype=float)
        slack = w["slack"] * (1 + 0.1 * w["ratio"])
        if spec["rank"] is None:
            close(S[ok], w["cov"][ok], what, rtol=1e-7, atol=(1e-9 + slack[ok]) * v[ok] + tiny[ok])
            judged += 1
        elif ok.all():
            close(np.diag(S), w["vola"] ** 2, what + ": variances", rtol=1e-7, atol=np.diag(tiny))
            R, gap = leading(w["corr"], spec["rank"])
            if gap > 1e-6:
                close(S, R * v, what, rtol=1e-6, atol=(1e-9 + (1e-13 + slack.max()) * (1 + 1 / gap)) * spec["n"] * v + tiny)
                judged += 1
        if means is not None:
            labels_equal(means[t].index, df.columns, what + ": mean")
            close(means[t].values, w["mean"], what + ": mean", rtol=1e-7, atol=1e-9 * w["vola"] + 1e-11 * top)
    ctx.mark(judged >= 2)
    ctx.label("mean" if spec["mean"] else "zero mean", "clip" if spec["clip"] else "no clip", "low rank" if spec["rank"] else "full")


# --------------------------------------------------------------- C25 low-rank iterated EWMA


def low_rank_reference(X, spec):
    """Textbook recursion with dense eigendecompositions. Yields row, mean, vola, F F', d (correlation units), trusted."""
    c, mean, r = spec["clip"], spec["mean"], spec["rank"]
    T, n = X.shape
    mu1, mu2 = (spec["mu"][0] or spec["hv"]), (spec["mu"][1] or spec["hc"])
    m1 = np.zeros_like(X)
    if mean:
        m1 = ref.wmean_fast(X, mu1)
        X = X - m1
        X[0] = 0.0
    var = ref.clipped_variance(X, spec["hv"], spec["mpv"], c) if c else ref.wmean_fast(X**2, spec["hv"])
    vola = np.sqrt(var)
    rows = np.arange(ref.first_row(spec["mpv"]), T)
    with np.errstate(all="ignore"):
        Z = X[rows] / vola[rows]
    if c:
        Z = np.clip(Z, -c, c)
    keep = ~np.isnan(Z).all(axis=1)
    Z, rows = Z[keep], rows[keep]
    if np.isnan(Z).any():
        return [], "asset without volatility"
    m2 = np.zeros_like(Z)
    if mean and len(Z):
        m2 = ref.wmean_fast(Z, mu2)
        Z = Z - m2
        Z[0] = 0.0
    b = ref.decay(spec["hc"])
    trusted = True
    out = []
    for k in range(len(rows)):
        if k == 0:
            P, d = np.outer(Z[0], Z[0]), np.zeros(n)
        else:
            new = (1 - b) / (1 - b ** (k + 1))
            A = (1 - new) * P + new * np.outer(Z[k], Z[k])
            d = (1 - new) * d
            s = np.sqrt(np.diag(A))
            unmoved = (s == 0) & (not mean)  # demeaning leaves rounding errors in place of zeros
            if unmoved.all() or not ((s > 1e-9) | unmoved).all():
                return out, "degenerate correlation"
            C = A / np.outer(np.where(s > 0, s, 1), np.where(s > 0, s, 1))
            lam, Q = np.linalg.eigh((C + C.T) / 2)
            lo, hi = lam[n - r - 1], lam[n - r]
            trusted = trusted and (hi - lo > 1e-5 or hi < 1e-12)
            lam = np.maximum(lam[n - r :], 0)
            W = (Q[:, n - r :] * lam) @ Q[:, n - r :].T
            d = np.maximum(d + (1 - np.diag(W)) * s**2, 0)  # 0 for an asset that has not moved yet
            P = W * np.outer(s, s)
        if k >= ref.first_row(spec["mpc"]):
            v = vola[rows[k]]
            with np.errstate(all="ignore"):
                q = v / np.sqrt(np.diag(P) + d)
            out.append((int(rows[k]), m1[rows[k]] + v * m2[k], v, P * np.outer(q, q), d * q**2, trusted))
    return out, None


def check_c25(spec, ctx):
    df = gen.build_frame(spec)
    n, r = spec["n"], spec["rank"]
    if "quiet" in spec:
        a, b, j = spec["quiet"]
        X = df.values.astype(float)
        X[a:b, j] = 0.0
        df = pd.DataFrame(X, index=df.index, columns=df.columns)
    want, odd = low_rank_reference(df.values.astype(float), spec)
    if odd:
        ctx.label("skipped: " + odd)
        return
    ctx.act()
    with sut("low_rank_iterated_ewma"):
        got = list(
            LR.low_rank_iterated_ewma(
                df.copy(),
                spec["hv"],
                spec["hc"],
                r,
                **gen.sparing(
                    spec,
                    {**IT, "mu_halflife1": None, "mu_halflife2": None},
                    min_periods_vola=spec["mpv"],
                    min_periods_cov=spec["mpc"],
                    mean=spec["mean"],
                    mu_halflife1=spec["mu"][0],
                    mu_halflife2=spec["mu"][1],
                    clip_at=spec["clip"],
                ),
            )
        )
    describe(ctx, spec, rank=r, halflives=[spec["hv"], spec["hc"]], clip=spec["clip"], mean=spec["mean"], estimates=len(want))
    zero = [w[0] for w in want if not np.isfinite(np.diag(w[3])).any()]  # the very first row in mean mode has no variance yet
    labels_equal([g.time for g in got if g.time not in {df.index[k] for k in zero}], [df.index[w[0]] for w in want if w[0] not in zero], "times")
    by = {g.time: g for g in got}
    judged = 0
    top = np.abs(df.values).max(0)
    tiny = 1e-14 * np.outer(top, top)
    for row, mean, vola, P, d, trusted in want:
        if row in zero:
            continue
        t = df.index[row]
        g = by[t]
        what = f"low-rank estimate at {t}"
        labels_equal(g.covariance.F.index, df.columns, what + ": F")
        labels_equal(g.covariance.d.index, df.columns, what + ": d")
        F, dd = np.asarray(g.covariance.F.values, dtype=float), np.asarray(g.covariance.d.values, dtype=float)
        require(F.shape == (n, r), lambda: f"{what}: F has shape {F.shape}, expected {(n, r)}")
        close(g.volatility.values, vola, what + ": volatility", rtol=1e-7, atol=1e-7 * top * (vola < 1e-6 * top))
        labels_equal(g.mean.index, df.columns, what + ": mean")
        close(g.mean.values, mean if spec["mean"] else np.zeros(n), what + ": mean", rtol=1e-7, atol=1e-9 * vola + 1e-11 * np.abs(df.values).max(0))
        still = np.isnan(np.diag(P))
        if still.any():
            ctx.label("asset without movement")
        require((dd[~still] >= 0).all(), lambda: f"{what}: negative idiosyncratic variance {dd}")
        close((F**2).sum(1) + dd, np.where(still, np.nan, vola**2), what + ": variances are the squared volatilities", rtol=1e-7, atol=np.diag(tiny))
        vv = np.outer(vola, vola)
        if trusted:
            close(F @ F.T, P, what + ": common part", rtol=1e-5, atol=1e-6 * vv + tiny)
            close(dd, d, what + ": idiosyncratic part", rtol=1e-5, atol=1e-6 * vola**2 + np.diag(tiny))
            judged += 1
    ctx.mark(judged >= 2)
    ctx.label("mean" if spec["mean"] else "zero mean", "clip" if spec["clip"] else "no clip")


# --------------------------------------------------------------- C26 rolling window


@st.composite
def rolling_case(draw, tier):
    hi = 60 if tier == "quick" else 150
    spec = draw(gen.frames(gen.lengths(1, 30, hi, long=(200, 1200), odds=30), edits=("zero", "big", "negbig", "zerorow", "zerohead")))
    T = spec["T"]
    spec["memory"] = draw(st.one_of(gen.ints(1, max(1, T // 3)), gen.ints(1, T + 5), st.sampled_from([1, 2, T, T + 1])))
    spec["mp"] = draw(st.one_of(gen.ints(0, max(1, T // 2)), st.sampled_from([0, 1, 2, spec["memory"], None]), gen.ints(0, T + 3)))
    return spec


def check_c26(spec, ctx):
    df = gen.build_frame(spec)
    T, m, mp = spec["T"], spec["memory"], spec["mp"]
    kw = {} if mp is None else {"min_periods": mp}
    ctx.act()
    with sut("rolling_window"):
        got = U.rolling_window(df.copy(), m, **kw)
    first = max(20 if mp is None else mp, 1) - 1
    X = df.values.astype(float)
    labels_equal(list(got), list(df.index[first:]), "times")
    top = np.abs(X).max(axis=0) if T else np.zeros(spec["n"])
    for t in range(first, T):
        W = X[max(0, t - m + 1) : t + 1]
        G = got[df.index[t]]
        what = f"rolling window covariance at {df.index[t]}"
        frame_labels(G, df.columns, df.columns, what)
        close(G.values, W.T @ W / len(W), what, rtol=1e-9, atol=1e-13 * (t + 1) * np.outer(top, top))
    describe(ctx, spec, memory=m, min_periods=mp, estimates=max(T - first, 0))
    ctx.mark(T - first >= 2 and T >= 2)
    ctx.label("window full" if T > m else "window never full", "empty result" if T <= first else "estimates")


# --------------------------------------------------------------- C27 likelihoods


@st.composite
def lik_case(draw, tier):
    n = draw(gen.seldom(st.sampled_from([1, 2, 3, 4, 6]), st.sampled_from([40, 130, 300]), 14))
    T = draw(gen.seldom(gen.ints(2, 14), gen.ints(60, 200), 40)) if n < 40 else draw(gen.ints(2, 4))
    return {
        "T": T,
        "n": n,
        "seed": draw(gen.seeds),
        "scale": draw(st.sampled_from([[0.0], [-2.0], [-4.0, -1.0], [2.0]])) if n < 40 else [draw(st.sampled_from([-2.0, -3.0, 2.5]))],
        "index": draw(st.sampled_from(gen.INDEX_KINDS)),
        "cols": draw(st.sampled_from(gen.COL_KINDS)),
        "means": draw(st.booleans()),
        "rank": draw(gen.ints(1, n)) if n < 40 else draw(gen.ints(1, 5)),
        "skip": draw(st.lists(gen.ints(0, T - 1), max_size=3)),
        "factor": draw(st.sampled_from([1, 1.0, 100, 0.01, 7.5])),
        "reverse": draw(gen.ints(0, 3)) == 3,
        "em": draw(gen.ints(0, 24)) == 24,
        "whole": draw(gen.ints(0, 9)) == 9,
    }


def check_c27(spec, ctx):
    T, n = spec["T"], spec["n"]
    rng = np.random.default_rng(spec["seed"])
    vol = np.array([10.0 ** spec["scale"][j % len(spec["scale"])] for j in range(n)])
    idx, cols = gen.build_index(spec["index"], T), gen.build_columns(spec["cols"], n)
    B = [rng.normal(size=(n, max(1, n // 3))) for _ in range(T)]
    d = [rng.uniform(0.2, 1.5, size=n) for _ in range(T)]
    S = np.array([(F @ F.T + np.diag(e)) * np.outer(vol, vol) for F, e in zip(B, d)])
    R = rng.normal(size=(T, n)) * vol
    if spec.get("whole"):  # whole numbers, as integers
        R = np.rint(2 * R).astype(int)
    M = rng.normal(size=(T, n)) * vol * 0.3
    rets = pd.DataFrame(R, index=idx, columns=cols)
    means = pd.DataFrame(M, index=idx, columns=cols) if spec["means"] else None
    mm = M if spec["means"] else np.zeros_like(M)
    rows = [k for k in range(T) if k not in set(spec["skip"])] or [T - 1]
    if spec["reverse"]:
        rows = rows[::-1]
    cov = {idx[k]: pd.DataFrame(S[k], index=cols, columns=cols) for k in rows}
    low = {
        idx[k]: LowRank(pd.DataFrame(B[k] * vol[:, None], index=cols, columns=range(B[k].shape[1])), pd.Series(d[k] * vol**2, index=cols))
        for k in rows
    }
    due = [k for k in rows if k + 1 < T]
    # covariance of time k predicts the return of time k+1
    want = [ref.gaussian_loglik(R[k + 1], S[k], mm[k]) for k in due]
    tol = dict(rtol=1e-8, atol=1e-7 * n)
    ctx.act()
    with sut("log_likelihood_regularized"):
        got = U.log_likelihood_regularized(rets, cov, means=means)
    labels_equal(got.index, [idx[k] for k in due], "likelihood times")
    close(got.values, want, "log-likelihood of the next return", **tol)
    with sut("log_likelihood_low_rank"):
        got = U.log_likelihood_low_rank(rets, low, means=means)
    labels_equal(got.index, [idx[k] for k in due], "low-rank likelihood times")
    close(got.values, want, "log-likelihood of a low-rank model", **tol)
    f = spec["factor"]
    al = dict(means=mm) if spec["means"] else {}
    want2 = [ref.gaussian_loglik(f * R[k], f * f * S[k], f * mm[k]) for k in range(T)]
    for name in ("log_likelihood", "log_likelihood_sequential"):
        with sut(name):
            got = getattr(U, name)(R.copy(), S.copy(), **gen.sparing(spec, {"scale": 1}, scale=f), **al)
        close(got, want2, name + " row by row", **tol)
    with sut("log_likelihood_regularized with rank"):
        got = U.log_likelihood_regularized(rets, cov, means=means, r=spec["rank"])
    labels_equal(got.index, [idx[k] for k in due], "regularized likelihood times")
    for k in due:
        s = np.sqrt(np.diag(S[k]))
        A, gap = leading(S[k] / np.outer(s, s), spec["rank"])
        if gap > 1e-4 and np.linalg.eigvalsh(A)[0] > 1e-4:
            close(float(got.loc[idx[k]]), ref.gaussian_loglik(R[k + 1], A * np.outer(s, s), mm[k]), f"regularized log-likelihood at {idx[k]}", rtol=1e-6, atol=1e-5 * n)
    if spec.get("em") and 2 <= n < 40 and spec["rank"] < n:
        from cvx.covariance.regularization import em_regularize_covariance, regularize_covariance

        with sut("em_low_rank_log_likelihood"):
            got = U.em_low_rank_log_likelihood(rets, dict(cov), spec["rank"])
            model = dict(em_regularize_covariance(dict(cov), dict(regularize_covariance(dict(cov), r=spec["rank"], low_rank_format=True))))
        labels_equal(got.index, [idx[k] for k in due], "times of the likelihoods after EM")
        for k in due:
            F, e = np.asarray(model[idx[k]].F, dtype=float), np.asarray(model[idx[k]].d, dtype=float).reshape(-1)
            if (e > 1e-6 * np.diag(S[k])).all():
                close(float(got.loc[idx[k]]), ref.gaussian_loglik(R[k + 1], F @ F.T + np.diag(e), np.zeros(n)), f"log-likelihood of the EM model at {idx[k]}", rtol=1e-6, atol=1e-5 * n)
    with sut("MSE"):
        got = U.MSE(rets, cov)
    labels_equal(got.index, [idx[k] for k in rows], "MSE times")
    close(got.values, [((S[k] - np.outer(R[k + 1], R[k + 1])) ** 2).sum() if k + 1 < T else np.nan for k in rows], "squared error of the next return's outer product", rtol=1e-9)
    ctx.note.update(T=T, n=n, due=len(due), means=spec["means"], factor=f)
    ctx.mark(len(due) >= 1 and bool(np.isfinite(want).all()))
    ctx.label("n>=40" if n >= 40 else "n<40", "means" if spec["means"] else "zero mean", f"index:{spec['index']}")


# --------------------------------------------------------------- C28 smoothing and realized covariances


@st.composite
def smooth_case(draw, tier):
    T = draw(gen.lengths(1, 15, 40, long=(100, 700)))
    return {
        "T": T,
        "n": draw(gen.seldom(st.sampled_from([2, 3, 1, 4]), gen.ints(5, 40))),
        "seed": draw(gen.seeds),
        "halflife": hl(draw(gen.halflives), T),
        "index": draw(st.sampled_from(gen.INDEX_KINDS)),
        "cols": draw(st.sampled_from(gen.COL_KINDS)),
        "kind": draw(st.sampled_from(["frames", "arrays", "vectors", "intraday"])),
        "clip": draw(st.one_of(st.none(), st.sampled_from([1.5, 4.0, 0.7]))),
        "mp": draw(gen.ints(1, 6)),
        "per_day": draw(gen.ints(2, 7)),
        "repeats": draw(gen.ints(0, 3)) == 3,
        "single": draw(gen.ints(0, 3)) == 3,
        "scale": draw(st.sampled_from([0.0, -3.0, 2.0])),
    }


def smooth_reference(Y, h, clip, mp):
    b = ref.decay(h)
    out = [Y[0]]
    for k in range(1, len(Y)):
        y = Y[k]
        if clip and k + 1 >= mp + 2:
            y = np.minimum(y, clip * out[-1])
        new = (1 - b) / (1 - b ** (k + 1))
        out.append(out[-1] + new * (y - out[-1]))
    return out


def check_c28(spec, ctx):
    T, n, h = spec["T"], spec["n"], spec["halflife"]
    rng = np.random.default_rng(spec["seed"])
    idx, cols = gen.build_index(spec["index"], T), gen.build_columns(spec["cols"], n)
    u = 10.0 ** spec["scale"]
    if spec["kind"] == "intraday":
        m = [(1 if spec.get("single") else 2) + int(k) for k in rng.integers(0, spec["per_day"], size=T)]
        X = rng.normal(size=(sum(m), n)) * u + 0.4 * u
        if spec.get("repeats"):  # intervals without trades, and equal ones
            X[rng.random(len(X)) < 0.25] = 0.0
            again = np.flatnonzero(rng.random(len(X)) < 0.25)
            X[again] = X[np.maximum(again - 1, 0)]
        rets = pd.DataFrame(X, index=idx.repeat(m), columns=cols)
        parts = np.split(X, np.cumsum(m)[:-1])
        Y = [(P - P.mean(0)).T @ (P - P.mean(0)) for P in parts]
        ctx.act()
        with sut("realized_ewma"):
            got = list(U.realized_ewma(rets.copy(), h))
        with sut("realized_volas"):
            vol = list(U.realized_volas(rets.copy()))
        labels_equal([t for t, _ in vol], list(idx), "days of the realized volatilities")
        for (t, v), P in zip(vol, parts):
            labels_equal(v.index, cols, f"realized volatility at {t}")
            close(v.values, np.sqrt((P**2).sum(0)), f"realized volatility at {t}", rtol=1e-9)
        want = smooth_reference(Y, h, None, None)
    else:
        clip = spec["clip"] if spec["kind"] == "vectors" else None
        if spec["kind"] == "vectors":
            Y = [np.abs(rng.standard_t(2.5, size=n)) * u for _ in range(T)]
        else:
            Y = [(lambda G: G @ G.T * u * u)(rng.normal(size=(n, n + 1))) for _ in range(T)]
        data = {t: (pd.DataFrame(y, index=cols, columns=cols) if spec["kind"] == "frames" else y.copy()) for t, y in zip(idx, Y)}
        ctx.act()
        with sut("ewma of a sequence"):
            got = list(V.ewma(data, h, **gen.sparing(spec, {"clip_at": None, "min_periods": None}, clip_at=clip, min_periods=spec["mp"] if clip else None)))
        want = smooth_reference(Y, h, clip, spec["mp"])
        ctx.label("clip" if clip else "no clip")
        for t, y in zip(idx, Y):
            close(np.asarray(data[t]), y, f"input at {t} is left alone", rtol=0)
    labels_equal([t for t, _ in got], list(idx[1:]), "times")
    for (t, g), w in zip(got, want[1:]):
        if spec["kind"] in ("frames", "intraday"):
            frame_labels(g, cols, cols, f"smoothed at {t}")
        close(np.asarray(g, dtype=float), w, f"smoothed at {t}", rtol=1e-8, atol=1e-11 * np.max(np.abs(w)))
    ctx.note.update(T=T, n=n, halflife=h, kind=spec["kind"])
    ctx.mark(T >= 3)
    ctx.label("kind:" + spec["kind"])


EXV = {"T": 40, "n": 4, "seed": 5, "style": "normal", "index": "D", "cols": "abc", "scale": [-2.0], "hv": 10, "hc": 21, "mpv": 5, "mpc": 5, "clip": None, "mean": False, "rank": None}
EXL = {**EXV, "rank": 2, "mu": [None, None]}

PROPS = {
    "C24": Prop(
        "C24",
        "Vectorised iterated EWMA equals the iterated estimator",
        lambda tier: vec_case(tier, False),
        check_c24,
        "Random frames with jumps, half-lives, warm-ups, clip levels, mean on/off, rank option; non-trivial: at least two estimates compared in full.",
        1400,
        20000,
        examples=[EXV, {**EXV, "mean": True, "clip": 2.0}, {**EXV, "rank": 2}, {**EXV, "mpv": 0, "mpc": 0, "mean": True, "rank": 4}, {**EXV, "T": 300, "clip": 3.0, "edits": [[150, 1, "big"], [152, 2, "negbig"]]}],
    ),
    "C25": Prop(
        "C25",
        "Low-rank iterated EWMA keeps variances and follows the truncated recursion",
        lambda tier: vec_case(tier, True),
        check_c25,
        "Random frames, half-lives, warm-ups, clip levels, means, ranks 1..n-1; non-trivial: at least two estimates compared in full.",
        620,
        7000,
        examples=[EXL, {**EXL, "mean": True, "clip": 2.0, "mu": [5, 50]}, {**EXL, "n": 8, "rank": 1}, {**EXL, "n": 8, "rank": 7}],
    ),
    "C26": Prop(
        "C26",
        "Rolling window covariance averages exactly the last memory returns",
        rolling_case,
        check_c26,
        "Random frames (1-60 rows, some 200-1200), windows 1..T+5, warm-ups; non-trivial: at least two estimates.",
        3150,
        30000,
        examples=[{k: v for k, v in {**EXV, "T": 30, "memory": m, "mp": mp}.items()} for m in (1, 5, 30, 40) for mp in (None, 0, 12)],
    ),
    "C27": Prop(
        "C27",
        "Log-likelihoods score the next return under the Gaussian prediction",
        lik_case,
        check_c27,
        "Random Gaussian predictions (1-6 assets, some 40-300), subsets and orders of times, units, means, scales, ranks; non-trivial: at least one due prediction with a finite score.",
        920,
        9000,
        examples=[
            {"T": 6, "n": 3, "seed": 1, "scale": [-2.0], "index": "D", "cols": c, "means": m, "rank": 2, "skip": [2], "factor": 100, "reverse": False, "em": c == "abc"}
            for c in ("abc", "int", "intdesc")
            for m in (True, False)
        ]
        + [{"T": 3, "n": 300, "seed": 1, "scale": [-2.0], "index": "B", "cols": "abc", "means": False, "rank": 5, "skip": [], "factor": 1, "reverse": False}],
    ),
    "C28": Prop(
        "C28",
        "Smoothing and realized covariances are weighted averages of their inputs",
        smooth_case,
        check_c28,
        "Random sequences of matrices, arrays and vectors (with the cap), and intraday returns with uneven days; non-trivial: at least three times.",
        2200,
        28000,
        examples=[
            {"T": 12, "n": 3, "seed": 2, "halflife": 5, "index": "D", "cols": "abc", "kind": k, "clip": c, "mp": 2, "per_day": 4, "scale": 0.0}
            for k in ("frames", "arrays", "vectors", "intraday")
            for c in (None, 1.5)
        ],
    ),
}
