"""Low rank plus diagonal regularization and its EM refinement."""

from collections import namedtuple

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt import bootstrap, gen
from pbt.core import Prop, close, labels_equal, require, sut

import cvx.covariance.regularization as G

bootstrap.assert_from_repo(G)

Start = namedtuple("Start", ["F", "d"])


@st.composite
def cov_case(draw, tier, full_rank=False, nmax=None):
    nmax = nmax or (12 if tier == "quick" else 30)
    n = draw(gen.seldom(st.sampled_from([3, 4, 2, 5, 6, 1, 8, nmax, nmax - 3]), gen.ints(21, 90), 20))
    spec = {
        "n": n,
        "m": draw(gen.ints(1, 4)),
        "seed": draw(gen.seeds),
        "kind": draw(st.sampled_from(["factor", "sample", "dense"] + ([] if full_rank else ["deficient", "identity", "negative"]))),
        "scale": draw(st.sampled_from([[0.0], [-2.0], [-2.0, 0.5, -4.0], [2.0, -1.0], [-5.0], [4.0]])),
        "index": draw(st.sampled_from(gen.INDEX_KINDS)),
        "cols": draw(st.sampled_from(gen.COL_KINDS)),
        "r": draw(st.sampled_from([1] + list(range(1, n)) * 3 + [n])),
        "time_order": draw(st.sampled_from(["up", "down"])),
        "row_labels": draw(st.sampled_from(["same", "same", "default"])),
    }
    return spec


def covariances(spec):
    n = spec["n"]
    rng = np.random.default_rng(spec["seed"])
    vol = np.array([10.0 ** spec["scale"][j % len(spec["scale"])] for j in range(n)]) * np.exp(0.3 * rng.normal(size=n))
    times = list(gen.build_index(spec["index"], spec["m"]))
    if spec["time_order"] == "down":
        times = times[::-1]
    cols = gen.build_columns(spec["cols"], n)
    out = {}
    for t in times:
        if spec["kind"] == "factor":
            F = rng.normal(size=(n, max(1, n // 3)))
            S = F @ F.T + np.diag(rng.uniform(0.3, 2.0, n))
        elif spec["kind"] == "sample":
            X = rng.normal(size=(2 * n + 3, n)) @ rng.normal(size=(n, n)) + 0.3 * rng.normal(size=(2 * n + 3, n))
            S = X.T @ X / len(X) + 0.05 * np.eye(n)
        elif spec["kind"] == "deficient":
            X = rng.normal(size=(max(1, n // 2), n))
            S = X.T @ X / len(X)
        elif spec["kind"] == "identity":
            S = np.diag(rng.uniform(0.5, 2.0, n))
        elif spec["kind"] == "negative":
            X = rng.normal(size=(n + 2, n)) - 3 * rng.normal(size=(n + 2, 1)) * (-1) ** np.arange(n)
            S = X.T @ X / len(X)
        else:
            X = rng.normal(size=(n, n + 3))
            S = X @ X.T / n + 0.1 * np.eye(n)
        S = (S + S.T) / 2 * np.outer(vol, vol)
        out[t] = pd.DataFrame(S, index=cols, columns=cols)
    return out, times, cols


def corr_of(S):
    s = np.sqrt(np.diag(S))
    R = S / np.outer(s, s)
    return s, (R + R.T) / 2


def check_c20(spec, ctx):
    sig, times, cols = covariances(spec)
    n, r = spec["n"], spec["r"]
    ctx.act()
    with sut("regularize_covariance"):
        got = list(G.regularize_covariance(sig, r))
    labels_equal([t for t, _ in got], times, "times")
    gaps = []
    for t, X in got:
        what = f"regularized covariance at {t}"
        labels_equal(X.index, cols, what + " rows")
        labels_equal(X.columns, cols, what + " columns")
        S = sig[t].values
        s, R = corr_of(S)
        V = np.asarray(X.values, dtype=float)
        ss = np.outer(s, s)
        close(np.diag(V), s**2, what + ": variances", rtol=1e-9)
        close(V, V.T, what + ": symmetry", rtol=1e-9, atol=1e-10 * ss)
        H = (V + V.T) / 2 / ss
        require(np.linalg.eigvalsh(H)[0] >= -1e-9 * n, lambda: f"{what}: not positive semidefinite ({np.linalg.eigvalsh(H)[0]!r})")
        lam, Q = np.linalg.eigh(R)
        gap = lam[n - r] - lam[n - r - 1] if r < n else np.inf
        gaps.append(float(min(gap, 1e9)))
        if r == n:
            close(V, S, what + ": full rank changes nothing", rtol=1e-8, atol=1e-9 * ss)
        elif gap > 1e-6:
            W = (Q[:, n - r :] * lam[n - r :]) @ Q[:, n - r :].T
            np.fill_diagonal(W, 1.0)
            close(V, W * ss, what, rtol=1e-7, atol=(1e-10 + 1e-13 / gap) * n * ss)
            ctx.mark()
        else:
            ctx.label("tied eigenvalues")
    ctx.note.update(n=n, r=r, kind=spec["kind"], gap=gaps)
    ctx.label("kind:" + spec["kind"], "r=n" if r == n else "r=1" if r == 1 else "1<r<n")


def check_c21(spec, ctx):
    sig, times, cols = covariances(spec)
    n, r = spec["n"], spec["r"]
    ctx.act()
    with sut("regularize_covariance"):
        got = list(G.regularize_covariance(sig, r, low_rank_format=True))
        full = dict(G.regularize_covariance(sig, r))
    labels_equal([t for t, _ in got], times, "times")
    for t, lr in got:
        what = f"low rank format at {t}"
        labels_equal(lr.F.index, cols, what + ": F rows")
        labels_equal(lr.d.index, cols, what + ": d")
        F, d = np.asarray(lr.F.values, dtype=float), np.asarray(lr.d.values, dtype=float)
        require(F.shape == (n, r), lambda: f"{what}: F has shape {F.shape}, expected {(n, r)}")
        s, R = corr_of(sig[t].values)
        ss = np.outer(s, s)
        require(np.isfinite(F).all() and np.isfinite(d).all(), lambda: f"{what}: missing values")
        require((d >= -1e-9 * s**2).all(), lambda: f"{what}: negative idiosyncratic variance {d}")
        V = F @ F.T + np.diag(d)
        close(np.diag(V), s**2, what + ": variances", rtol=1e-8)
        lam = np.linalg.eigvalsh(R)
        gap = lam[n - r] - lam[n - r - 1] if r < n else np.inf
        if gap > 1e-6:
            close(V, full[t].values, what + " against the full format", rtol=1e-7, atol=(1e-9 + 1e-13 / gap) * n * ss)
            # the columns of F, in asset units removed, are orthogonal with squared norms = leading eigenvalues
            U = F / s[:, None]
            close(U.T @ U, np.diag(np.maximum(lam[::-1][:r], 0)), what + ": factor scale and order", rtol=1e-6, atol=1e-7 * n)
            ctx.mark(r < n)
    ctx.note.update(n=n, r=r, kind=spec["kind"])
    ctx.label("kind:" + spec["kind"], "r=n" if r == n else "r=1" if r == 1 else "1<r<n")


# ------------------------------------------------------------------ C22 EM


@st.composite
def em_case(draw, tier):
    spec = draw(cov_case(tier, full_rank=True, nmax=10 if tier == "quick" else 20))
    n = spec["n"] = max(spec["n"], 2)
    spec["r"] = draw(gen.ints(1, max(1, n - 1)))
    spec["start"] = draw(st.sampled_from(["regularized", "random", "exact", "own"]))
    spec["extra"] = draw(st.booleans())
    return spec


def em(S, F, d, steps=5):
    k = F.shape[1]
    for _ in range(steps):
        V = F @ F.T + np.diag(d)
        B = np.linalg.solve(V, F).T  # posterior mean coefficient, k x n
        Css = np.eye(k) - B @ F + B @ S @ B.T
        Csx = B @ S
        F = np.linalg.solve(Css, Csx).T
        d = np.diag(S - F @ Csx).copy()
    return F, d


def gauss(S, F, d):
    V = F @ F.T + np.diag(d)
    return -np.linalg.slogdet(V)[1] - np.trace(np.linalg.solve(V, S))


def check_c22(spec, ctx):
    sig, times, cols = covariances(spec)
    n, r = spec["n"], spec["r"]
    rng = np.random.default_rng(spec["seed"] + 1)
    start = {}
    exact = spec["start"] == "exact"
    for t in times:
        S = sig[t].values
        s = np.sqrt(np.diag(S))
        if spec["start"] in ("regularized", "own"):
            _, R = corr_of(S)
            lam, Q = np.linalg.eigh(R)
            U = Q[:, n - r :] * np.sqrt(lam[n - r :])
            d = np.maximum(1 - (U**2).sum(1), 0.02)
            F = s[:, None] * U
            d = d * s**2
        else:
            F = s[:, None] * rng.normal(size=(n, r)) * 0.5
            d = s**2 * rng.uniform(0.3, 1.2, n)
        start[t] = Start(F=pd.DataFrame(F, index=cols), d=pd.Series(d, index=cols))
        if exact:
            sig[t] = pd.DataFrame(F @ F.T + np.diag(d), index=cols, columns=cols)
    ctx.act()
    if spec["start"] == "own":
        with sut("regularize_covariance"):
            own = dict(G.regularize_covariance(sig, r, low_rank_format=True))
        ok = {t: (own[t].d.values > 1e-3 * np.diag(sig[t].values)).all() for t in times}
        start = {t: own[t] if ok[t] else start[t] for t in times}
    given = dict(start)
    if spec["extra"]:
        given = {"unused": start[times[0]], **{t: start[t] for t in times[::-1]}}
    with sut("em_regularize_covariance"):
        got = list(G.em_regularize_covariance(sig, given))
    labels_equal([t for t, _ in got], times, "times")
    for t, lr in got:
        what = f"EM result at {t}"
        S = sig[t].values
        s = np.sqrt(np.diag(S))
        ss = np.outer(s, s)
        F0, d0 = np.asarray(start[t].F.values, dtype=float), np.asarray(start[t].d.values, dtype=float)
        labels_equal(lr.F.index, cols, what + ": F rows")
        labels_equal(lr.d.index, cols, what + ": d")
        F, d = np.asarray(lr.F.values, dtype=float), np.asarray(lr.d.values, dtype=float)
        require(F.shape == (n, r), lambda: f"{what}: F has shape {F.shape}, expected {(n, r)}")
        require((d > 0).all(), lambda: f"{what}: idiosyncratic variance {d}")
        Fs, ds = F / s[:, None], d / s**2
        Ss = S / ss
        l0, l1 = gauss(Ss, F0 / s[:, None], d0 / s**2), gauss(Ss, Fs, ds)
        require(l1 >= l0 - 1e-8 * (1 + abs(l0)), lambda: f"{what}: log-likelihood fell from {l0!r} to {l1!r}")
        Fr, dr = em(Ss, F0 / s[:, None], d0 / s**2)
        if dr.min() > 1e-4 and np.linalg.cond(Fr.T @ Fr + np.eye(r)) < 1e8:
            close(Fs @ Fs.T + np.diag(ds), Fr @ Fr.T + np.diag(dr), what + ": five EM steps", rtol=1e-6, atol=1e-7)
            close(Fs, Fr, what + ": loadings after five EM steps", rtol=1e-5, atol=1e-6)
        else:
            ctx.label("near-singular")
        if exact:
            close(Fs @ Fs.T + np.diag(ds), Ss, what + ": an exact model stays fixed", rtol=1e-7, atol=1e-8)
            ctx.label("fixed point")
        ctx.mark(exact or l1 > l0 + 1e-6)
    ctx.note.update(n=n, r=r, kind=spec["kind"], start=spec["start"])
    ctx.label("kind:" + spec["kind"], "start:" + spec["start"])


EXV = {"n": 5, "m": 2, "seed": 3, "kind": "factor", "scale": [-2.0], "index": "D", "cols": "abc", "r": 2, "time_order": "up", "row_labels": "same"}
EXS = [EXV, {**EXV, "r": 5}, {**EXV, "n": 1, "r": 1}, {**EXV, "kind": "deficient", "r": 4}, {**EXV, "n": 40, "r": 7, "kind": "sample"}, {**EXV, "kind": "negative"}, {**EXV, "n": 60, "r": 59, "kind": "dense"}]

PROPS = {
    "C20": Prop(
        "C20",
        "Regularization keeps variances and the leading correlation structure",
        lambda tier: cov_case(tier),
        check_c20,
        "Random covariance sequences (factor, sample, dense, rank-deficient, diagonal, negatively correlated; 1-12 assets; different units), ranks 1..n; non-trivial: a rank below n with a distinct leading eigenspace.",
        3600,
        20000,
        examples=EXS,
    ),
    "C21": Prop(
        "C21",
        "Low rank format and full format describe the same covariance",
        lambda tier: cov_case(tier),
        check_c21,
        "As C20; F F' + diag(d) against the full format, factor order and scale against eigenvalues; non-trivial: a rank below n with a distinct leading eigenspace.",
        3200,
        18000,
        examples=EXS,
    ),
    "C22": Prop(
        "C22",
        "EM refinement never lowers the likelihood and matches five exact EM steps",
        em_case,
        check_c22,
        "Random positive definite covariances, ranks 1..n-1, starts from the regularization, at random, and exact models; non-trivial: the likelihood rises or the start is an exact fixed point.",
        660,
        7000,
        examples=[{**EXV, "start": s, "extra": True} for s in ("regularized", "random", "exact", "own")],
    ),
}
