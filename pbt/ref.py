"""Reference models, written from the documentation and the paper in plain numpy; they share no code with /repo."""

import numpy as np


def decay(halflife):
    return 2.0 ** (-1.0 / halflife)


def wmean(Y, halflife):
    """Bias-corrected exponentially weighted average, O(T^2), by definition. Y: (T, ...) without NaN."""
    Y = np.asarray(Y, dtype=float)
    T = Y.shape[0]
    b = decay(halflife)
    out = np.empty_like(Y)
    for t in range(T):
        w = b ** np.arange(t, -1, -1.0)
        w = w / w.sum()
        out[t] = np.tensordot(w, Y[: t + 1], axes=(0, 0))
    return out


def wmean_fast(Y, halflife):
    """Same average by the ratio of two running sums (used where O(T^2) is too slow)."""
    Y = np.asarray(Y, dtype=float)
    b = decay(halflife)
    num = np.zeros_like(Y[0]) if len(Y) else None
    den = 0.0
    out = np.empty_like(Y)
    for t in range(Y.shape[0]):
        num = b * num + Y[t]
        den = b * den + 1.0
        out[t] = num / den
    return out


def clipped_variance(X, halflife, min_periods, clip):
    """EWMA of squares; from the (min_periods+2)-th observation on a square enters capped at clip^2 times the last estimate."""
    X = np.asarray(X, dtype=float)
    b = decay(halflife)
    T = X.shape[0]
    out = np.empty_like(X)
    if T == 0:
        return out
    v = X[0] ** 2
    out[0] = v
    mass = 1.0
    for t in range(1, T):
        y = X[t] ** 2
        if clip and t >= min_periods + 1:
            y = np.minimum(y, clip * clip * v)
        mass = b * mass + 1.0
        v = v + (y - v) / mass
        out[t] = v
    return out


def first_row(min_periods):
    return max(int(min_periods) - 1, 0)


def iewma(X, vola_h, cov_h, mp_vola, mp_cov, clip=None, mean=False, mu1=None, mu2=None):
    """Iterated EWMA (paper, section 2.5). X: (T, n), NaN already handled by the caller.

    Returns list of dicts: row, mean, cov, vola."""
    X = np.asarray(X, dtype=float)
    T, n = X.shape
    mu1 = mu1 or vola_h
    mu2 = mu2 or cov_h
    if T == 0:
        return []
    m1 = np.zeros_like(X)
    if mean:
        m1 = wmean_fast(X, mu1)
        X = X - m1
        X[0] = 0.0  # the first observation is its own mean
    if clip:
        var = clipped_variance(X, vola_h, mp_vola, clip)
    else:
        var = wmean_fast(X**2, vola_h)
    vola = np.sqrt(var)
    rows = np.arange(first_row(mp_vola), T)
    if len(rows) == 0:
        return []
    with np.errstate(all="ignore"):
        Z = X[rows] / vola[rows]
    if clip:
        Z = np.clip(Z, -clip, clip)  # NaN stays NaN
    keep = ~np.isnan(Z).all(axis=1)
    Z, rows = Z[keep], rows[keep]
    if len(rows) == 0:
        return []
    Z = np.where(np.isnan(Z), 0.0, Z)
    with np.errstate(all="ignore"):
        ratio = np.nan_to_num(np.abs(m1[rows] / vola[rows]), nan=0.0, posinf=0.0).max()
    m2 = np.zeros_like(Z)
    zmax = np.abs(Z).max()
    if mean:
        m2 = wmean_fast(Z, mu2)
        Z = Z - m2
        Z[0] = 0.0
    C = wmean_fast(np.einsum("ti,tj->tij", Z, Z), cov_h)
    res = []
    for k in range(first_row(mp_cov), len(rows)):
        d = np.diagonal(C[k]).copy()
        fuzzy = (d > 0) & (d < 1e-18) if mean else np.zeros(n, dtype=bool)
        if mean and clip:
            fuzzy |= d < 1e-18
        d[d == 0] = np.nan
        s = np.sqrt(d)
        corr = C[k] / np.outer(s, s)
        v = vola[rows[k]]
        res.append(
            {
                "row": int(rows[k]),
                "mean": m1[rows[k]] + v * m2[k] if mean else np.zeros(n),
                "cov": np.outer(v, v) * corr,
                "vola": v,
                "corr": corr,
                "fuzzy": fuzzy,
                "ratio": ratio,  # size of the means in volatilities: what adding and subtracting a mean costs in digits
                # rounding of a correlation after centring: what is left of Z can be far smaller than Z was
                "slack": 1e-14 * zmax * (1 / s[:, None] + 1 / s[None, :]) if mean else np.zeros((n, n)),
            }
        )
    return res


# ---------------------------------------------------------------- combination


def whiteners(S):
    """Lower-triangular L with L L' = S^-1 and positive diagonal."""
    return np.linalg.cholesky(np.linalg.inv(S))


def window_data(L, nu, R, rows):
    """L: (K, T, n, n) predictions made at row s for row s+1; rows: the return rows in the window.

    Returns A (n*w, K) diagonals and B (n*w, K) whitened innovations."""
    K = L.shape[0]
    A = np.array([[np.diag(L[k, s - 1]) for s in rows] for k in range(K)]).reshape(K, -1).T
    B = np.array([[L[k, s - 1].T @ R[s] - nu[k, s - 1] for s in rows] for k in range(K)]).reshape(K, -1).T
    return A, B


def loglik(A, B, w):
    with np.errstate(all="ignore"):
        return np.log(A @ w).sum() - 0.5 * ((B @ w) ** 2).sum()


def simplex_optimum(A, B):
    """Maximises sum log(A w) - |B w|^2/2 over the simplex with a barrier Newton method (K is small)."""
    K = A.shape[1]
    P = B.T @ B
    w = np.full(K, 1.0 / K)
    if K == 1:
        return np.ones(1)
    t = 1.0
    while True:
        for _ in range(80):
            Aw = A @ w
            Q = A / Aw[:, None]
            g = Q.sum(0) - P @ w + 1 / (t * w)
            H = -(Q.T @ Q) - P - np.diag(1 / (t * w * w))
            M = np.block([[H, np.ones((K, 1))], [np.ones((1, K)), np.zeros((1, 1))]])
            d = np.linalg.solve(M, np.r_[-g, 0.0])[:K]
            dec = g @ d
            if not dec > 1e-13:
                break
            s = 1.0
            neg = d < 0
            if neg.any():
                s = min(1.0, 0.99 * np.min(-w[neg] / d[neg]))

            def phi(x):
                return np.log(A @ x).sum() - 0.5 * ((B @ x) ** 2).sum() + np.log(x).sum() / t

            p0 = phi(w)
            while s > 1e-12 and not phi(w + s * d) >= p0 + 1e-4 * s * dec:
                s *= 0.5
            if s <= 1e-12:
                break
            w = w + s * d
            w = w / w.sum()
        if K / t < 1e-9:
            return w
        t *= 20


def certificate(A, B, w):
    """Upper bound on the suboptimality of w in the simplex (concave objective)."""
    g = (A / (A @ w)[:, None]).sum(0) - B.T @ (B @ w)
    return float(g.max() - g @ w)


def blend(L, nu, w):
    """Prediction from weights: covariance and mean. L: (K, n, n), nu: (K, n)."""
    Lw = np.tensordot(w, L, axes=(0, 0))
    nuw = np.tensordot(w, nu, axes=(0, 0))
    cov = np.linalg.inv(Lw @ Lw.T)
    mean = np.linalg.solve(Lw.T, nuw)
    return cov, mean


def gaussian_loglik(r, S, m):
    n = len(r)
    sign, ld = np.linalg.slogdet(S)
    x = np.linalg.solve(S, r - m)
    return -0.5 * (n * np.log(2 * np.pi) + ld + (r - m) @ x)
