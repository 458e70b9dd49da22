"""EWMA volatility, winsorization, centring, iterated EWMA."""

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt import bootstrap, gen, ref
from pbt.core import Prop, close, fail, labels_equal, require, sut

import cvx.covariance.ewma as E

bootstrap.assert_from_repo(E)

CONT = ("normal", "t", "regime", "factor", "drift")

VOL = {"min_periods": 0, "clip_at": None}
CEN = {"min_periods": 0, "mean_adj": False}


def hl(x, T):
    """Half-life kept large enough that weights do not underflow over the history."""
    return x if x >= T / 250 else type(x)(np.ceil(T / 250))


def describe(ctx, spec, **kw):
    ctx.note.update({"rows": spec["T"], "assets": spec["n"], "index": spec["index"], **kw})
    ctx.label(f"index:{spec['index']}", f"cols:{spec['cols']}")
    if spec["T"] >= 100:
        ctx.label("T>=100")
    if spec["n"] >= 6:
        ctx.label("n>=6")
    if spec["n"] == 1:
        ctx.label("n=1")


def frame_labels(df, index, cols, what):
    require(isinstance(df, pd.DataFrame), lambda: f"{what}: not a DataFrame but {type(df).__name__}")
    labels_equal(df.index, index, what + " rows")
    if len(index):
        labels_equal(df.columns, cols, what + " columns")


def scale_of(X):
    s = np.nanmax(np.abs(X), axis=0) if len(X) else np.zeros(X.shape[1])
    return np.where(np.isfinite(s), s, 0.0)


# --------------------------------------------------------------- C01 / C02 volatility


@st.composite
def vol_case(draw, tier, clip=False):
    hi = 80 if tier == "quick" else 160
    T = gen.lengths(0, 30, hi, 400 if tier == "quick" else 900, long=(400, 1500))
    spec = draw(gen.frames(T, n=gen.seldom(st.sampled_from([2, 3, 1, 4, 5, 6, 9, 14]), gen.ints(15, 120)), edits=("zero", "big", "negbig", "zerorow", "zerohead", "zerocol", "headrows0")))
    spec["halflife"] = hl(draw(gen.halflives), spec["T"])
    spec["mp"] = draw(gen.min_periods(spec["T"]))
    if clip:
        spec["clip"] = draw(gen.clips.filter(lambda c: c is not None))
        spec["blow"] = [draw(gen.ints(0, max(spec["T"] - 1, 0))), draw(gen.ints(0, spec["n"] - 1)), draw(st.sampled_from([3.0, 50.0, 1e4]))]
        if draw(st.booleans()):
            spec["spikes"] = draw(st.lists(gen.ints(0, max(spec["T"] - 1, 0)), min_size=1, max_size=4))
    return spec


def check_c01(spec, ctx):
    df = gen.build_frame(spec)
    h, mp = spec["halflife"], spec["mp"]
    ctx.act()
    with sut("volatility"):
        got = E.volatility(df, h, **gen.sparing(spec, VOL, min_periods=mp))
    X = df.values.astype(float)
    first = ref.first_row(mp)
    rows = range(first, len(df))
    frame_labels(got, df.index[first:], df.columns, "volatility")
    describe(ctx, spec, halflife=h, min_periods=mp, estimates=len(rows))
    if not rows:
        ctx.label("short history")
        return
    want = np.sqrt((ref.wmean if len(X) <= 120 else ref.wmean_fast)(X**2, h))[first:]
    close(got.values, want, "volatility", rtol=1e-8, atol=1e-12 * scale_of(X) * 2.0**-100)
    ctx.mark(len(rows) >= 3 and np.ptp(want) > 0)
    ctx.label("warm-up" if first else "no warm-up", "non-integer half-life" if h != int(h) else "integer half-life")
    if (want == 0).any():
        ctx.label("zero volatility")


def check_c02(spec, ctx):
    df = gen.build_frame(spec)
    h, mp, c = spec["halflife"], spec["mp"], spec["clip"]
    X = df.values.astype(float)
    for i in spec.get("spikes", []) if len(X) else []:
        X[i % len(X)] *= 30.0
    if spec.get("dtype") == "int":
        X = np.rint(X)
    df = pd.DataFrame(X, index=df.index, columns=df.columns)
    ctx.act()
    with sut("volatility with winsorization"):
        got = E.volatility(df, h, **gen.sparing(spec, VOL, min_periods=mp, clip_at=c))
    first = ref.first_row(mp)
    frame_labels(got, df.index[first:], df.columns, "winsorized volatility")
    describe(ctx, spec, halflife=h, min_periods=mp, clip=c, estimates=max(len(df) - first, 0))
    if len(df) <= first:
        ctx.label("short history")
        return
    var = ref.clipped_variance(X, h, mp, c)
    close(got.values, np.sqrt(var)[first:], "winsorized volatility", rtol=1e-8, atol=1e-12 * scale_of(X) * 2.0**-100)
    active = (X[1:] ** 2 > c * c * var[:-1])[mp:]
    ctx.mark(active.any() and (var[first:] > 0).any())
    ctx.label("cap active" if active.any() else "cap idle")
    if (X[1 : mp + 1] ** 2 > c * c * var[: len(X[1 : mp + 1])]).any():
        ctx.label("outlier before the cap applies")
    # an observation above the cap can be made larger without any effect
    i, j, k = spec["blow"]
    if i >= mp + 1 and X[i, j] ** 2 > c * c * var[i - 1, j]:
        ctx.label("outlier enlarged")
        Y = X.copy()
        Y[i, j] *= k
        with sut("volatility with winsorization"):
            alt = E.volatility(pd.DataFrame(Y, index=df.index, columns=df.columns), h, min_periods=mp, clip_at=c)
        close(alt.values, got.values, f"volatility after enlarging the outlier in row {i}", rtol=1e-9)


# --------------------------------------------------------------- C03 center and clip


@st.composite
def center_case(draw, tier):
    T = gen.lengths(0, 30, 80, 300, long=(300, 1300))
    spec = draw(gen.frames(T, edits=("zero", "big", "negbig", "zerorow", "zerocol")))
    spec["halflife"] = hl(draw(gen.halflives), spec["T"])
    spec["mp"] = draw(gen.min_periods(spec["T"]))
    spec["adj"] = draw(st.booleans())
    spec["clip"] = draw(gen.clips)
    spec["holes"] = draw(st.lists(st.tuples(gen.ints(0, 400), gen.ints(-1, 12)), max_size=5))
    return spec


def check_c03(spec, ctx):
    df = gen.build_frame(spec)
    X = df.values.astype(float)
    h, mp, T = spec["halflife"], spec["mp"], len(df)
    ctx.act()
    describe(ctx, spec, halflife=h, min_periods=mp, mean_adj=spec["adj"], clip=spec["clip"])
    with sut("center"):
        c, m = E.center(df, h, **gen.sparing(spec, CEN, min_periods=mp, mean_adj=spec["adj"]))
    if not spec["adj"]:
        ctx.label("inactive")
        frame_labels(c, df.index, df.columns, "centred returns")
        frame_labels(m, df.index, df.columns, "mean")
        close(c.values, X, "returns (no centring)", rtol=0)
        close(m.values, np.zeros_like(X), "mean (no centring)", rtol=0)
    else:
        first = ref.first_row(mp)
        ctx.label("active")
        if T > first:
            want = (ref.wmean if T <= 120 else ref.wmean_fast)(X, h)
            frame_labels(m, df.index[first:], df.columns, "EWMA mean")
            frame_labels(c, df.index[first:], df.columns, "centred returns")
            tol = 1e-10 * scale_of(X)
            close(m.values, want[first:], "EWMA mean", rtol=1e-9, atol=tol)
            close(c.values, (X - want)[first:], "centred returns", rtol=1e-9, atol=tol)
            ctx.mark(T - first >= 3)
        else:
            ctx.label("short history")
            require(len(c) == 0, f"{len(c)} centred rows although the mean never warms up")
            require(len(m) == 0, f"{len(m)} mean rows although the mean never warms up")
    # clip on data with holes
    Y = X.copy()
    for i, j in spec["holes"]:
        if T:
            if j < 0:
                Y[i % T, :] = np.nan
            else:
                Y[i % T, j % Y.shape[1]] = np.nan
    data = pd.DataFrame(Y, index=df.index, columns=df.columns)
    cl = spec["clip"]
    with sut("clip"):
        got = E.clip(data, clip_at=cl)
    keep = ~np.isnan(Y).all(axis=1)
    want = Y[keep] if cl is None else np.clip(Y[keep], -cl, cl)
    frame_labels(got, df.index[keep], df.columns, "clipped data")
    close(got.values, want, "clipped data", rtol=1e-15)
    if cl is not None and (np.abs(Y[keep]) > cl).any():
        ctx.label("clip active")
        ctx.mark()
    if (~keep).any():
        ctx.label("empty rows dropped")


# --------------------------------------------------------------- iterated EWMA: shared


@st.composite
def iewma_case(draw, tier, edits=("zero", "big", "negbig", "zerorow", "zerohead", "headrows0", "zerocol"), mean=None, lo=1, mid=30, hi=None, rare=None, styles=None, clip=None, nmax=10, warm=False, odds=25):
    hi = hi or (70 if tier == "quick" else 130)
    rare = rare or (260 if tier == "quick" else 700)
    m = draw(st.booleans()) if mean is None else mean
    spec = draw(
        gen.frames(
            gen.lengths(lo, mid, hi, rare, long=(280, 1100), odds=odds),
            n=gen.seldom(st.sampled_from([2, 3, 1, 4, 5, 2, 3, min(6, nmax), nmax, max(nmax - 3, 2)]), gen.ints(nmax + 1, 80), odds=30),
            edits=edits,
            styles=styles or (CONT if m else CONT + ("lattice",)),
            integral=not m and styles is None,
        )
    )
    T = spec["T"]
    spec["vola_h"] = hl(draw(gen.halflives), T)
    spec["cov_h"] = hl(draw(gen.halflives), T)
    spec["mp_vola"] = draw(gen.min_periods(T))
    spec["mp_cov"] = draw(gen.min_periods(T))
    if warm:  # keep at least a few results
        spec["mp_vola"] = min(spec["mp_vola"], max(T // 3, 1))
        spec["mp_cov"] = min(spec["mp_cov"], max(T // 3, 1))
    spec["clip"] = draw(gen.clips) if clip is None else clip
    spec["mean"] = m
    spec["mu1"] = spec["mu2"] = None
    if m:
        spec["mu1"] = draw(st.one_of(st.none(), gen.halflives.map(lambda x: hl(x, T))))
        spec["mu2"] = draw(st.one_of(st.none(), gen.halflives.map(lambda x: hl(x, T))))
    if not m and "zerohead" in edits and T >= 8 and draw(gen.ints(0, 9)) == 9:  # an asset goes quiet: its weight decays to almost nothing
        spec["vola_h"], spec["cov_h"] = (draw(st.sampled_from([0.3, 0.5, 1, 2.5, 5])) for _ in range(2))
        span = min(T - 1, int(250 * min(spec["vola_h"], spec["cov_h"])))
        spec.setdefault("edits", []).append([draw(gen.ints(span // 2, span)), draw(gen.ints(0, spec["n"] - 1)), "zerotail"])
    spec["stray"] = draw(gen.seldom(st.just(0), gen.ints(1, 2), odds=8))
    if draw(gen.ints(0, 5)) == 5:
        spec["defaults"] = True  # leave the warm-up lengths at their documented default
        spec["mp_vola"] = spec["mp_cov"] = 20
    return spec


def kwargs_of(spec):
    kw = {"vola_halflife": spec["vola_h"], "cov_halflife": spec["cov_h"]}
    if not spec.get("defaults"):
        kw.update(min_periods_vola=spec["mp_vola"], min_periods_cov=spec["mp_cov"])
    if spec["clip"] is not None:
        kw["clip_at"] = spec["clip"]
    if spec["mean"]:
        kw["mean"] = True
    if spec["mu1"] is not None:
        kw["mu_halflife1"] = spec["mu1"]
    if spec["mu2"] is not None:
        kw["mu_halflife2"] = spec["mu2"]
    return kw


def run(df, spec, **extra):
    with sut("iterated_ewma"):
        return list(E.iterated_ewma(df, **{**kwargs_of(spec), **extra}))


def reference(X, spec):
    X = np.where(np.isnan(X), 0.0, X)
    return ref.iewma(X, spec["vola_h"], spec["cov_h"], spec["mp_vola"], spec["mp_cov"], spec["clip"], spec["mean"], spec["mu1"], spec["mu2"])


def square_labels(S, cols, what):
    require(isinstance(S, pd.DataFrame), lambda: f"{what}: not a DataFrame but {type(S).__name__}")
    labels_equal(S.index, cols, what + " rows")
    labels_equal(S.columns, cols, what + " columns")


def compare_results(got, want, df, mean, what, means=True):
    labels_equal([g.time for g in got], [df.index[w["row"]] for w in want], f"{what}: result times")
    X = df.values.astype(float)
    sc = scale_of(X)
    for g, w in zip(got, want):
        t = f"{what} at {g.time}"
        square_labels(g.covariance, df.columns, f"{t}: covariance")
        labels_equal(g.volatility.index, df.columns, f"{t}: volatility")
        labels_equal(g.mean.index, df.columns, f"{t}: mean")
        v = w["vola"]
        close(g.volatility.values, v, f"{t}: volatility", rtol=1e-7, atol=1e-12 * sc * 2.0**-100)
        vv = np.outer(v, v)
        G, W = np.asarray(g.covariance.values, dtype=float), w["cov"].copy()
        if mean and w["fuzzy"].any():  # z-scores that cancel to rounding noise: the correlation is undefined there
            f = w["fuzzy"][:, None] | w["fuzzy"][None, :]
            W = np.where(f, 0.0, W)
            G = np.where(f, 0.0, G)
        close(G, W, f"{t}: covariance", rtol=1e-7 if mean else 1e-9, atol=((1e-8 if mean else 1e-10) + np.nan_to_num(w["slack"])) * vv)
        if means:
            if mean:
                close(g.mean.values, w["mean"], f"{t}: mean", rtol=1e-7, atol=1e-9 * sc)
            else:
                close(g.mean.values, np.zeros(len(df.columns)), f"{t}: mean", rtol=0)


def iewma_labels(ctx, spec, got):
    describe(ctx, spec, results=len(got), **{k: spec[k] for k in ("vola_h", "cov_h", "mp_vola", "mp_cov", "clip", "mean")})
    ctx.label("no result" if not got else "results", "clip" if spec["clip"] else "no clip", "mean" if spec["mean"] else "no mean")
    if spec["mu1"] or spec["mu2"]:
        ctx.label("own mean half-lives")
    if spec.get("defaults"):
        ctx.label("default warm-up")
    if spec["mp_vola"] != spec["mp_cov"]:
        ctx.label("different warm-ups")
    if got and np.isnan(got[-1].covariance.values.astype(float)).any():
        ctx.label("asset without data")


def check_reference(spec, ctx):
    df = gen.build_frame(spec)
    ctx.act()
    extra = {}
    if spec.get("stray"):  # arguments that must not matter here
        extra = {"nan_to_num": False} if spec["mean"] or spec["stray"] == 2 else {"mu_halflife1": 3.0, "mu_halflife2": 40}
    got = run(df, spec, **extra)
    want = reference(df.values.astype(float), spec)
    compare_results(got, want, df, spec["mean"], "iterated_ewma")
    iewma_labels(ctx, spec, got)
    ctx.mark(len(got) >= 2 and spec["n"] >= 2)


def check_c06(spec, ctx):
    """Prefix and changed-future runs agree with the full run on every time they share."""
    df = gen.build_frame(spec)
    T = len(df)
    cut = 1 + spec["cut"] % max(T - 1, 1)
    pre = df.iloc[:cut]
    fut = df.copy().astype(float)
    rng = np.random.default_rng(spec["seed"] + 1)
    if cut < T:
        block = rng.normal(size=(T - cut, spec["n"])) * (scale_of(df.values.astype(float)) + 1.0) * 37.0
        if spec["future"] == "nan":
            block[rng.random(block.shape) < 0.5] = np.nan
            block[:, 0] = np.nan
        elif spec["future"] == "zero":
            block[:] = 0.0
        elif spec["future"] == "negate":
            block = -df.values[cut:].astype(float)
        fut.iloc[cut:] = block
    noise = {df.index[w["row"]]: w["fuzzy"] for w in reference(df.values.astype(float), spec)} if spec["mean"] else {}
    ctx.act()
    full = run(df, spec)
    sc = scale_of(df.values[:cut].astype(float))
    seen = 0
    for other, what in ((run(pre, spec), "run on the history up to then"), (run(fut, spec), "run with a different future")):
        known = {g.time: g for g in other}
        past = [g for g in full if df.index.get_loc(g.time) < cut]
        labels_equal([g.time for g in other if df.index.get_loc(g.time) < cut], [g.time for g in past], f"{what}: result times")
        for g in past:
            o = known[g.time]
            v = np.asarray(g.volatility.values, dtype=float)
            close(o.volatility.values, v, f"{what}: volatility at {g.time}", rtol=1e-9)
            close(o.mean.values, g.mean.values, f"{what}: mean at {g.time}", rtol=1e-9, atol=1e-10 * sc)
            A, B = np.asarray(o.covariance.values, dtype=float), np.asarray(g.covariance.values, dtype=float)
            if spec["mean"]:  # z-scores that cancel to rounding noise: the correlation is undefined there
                f = noise.get(g.time, np.ones(spec["n"], dtype=bool))
                f = f[:, None] | f[None, :]
                A, B = np.where(f, 0.0, A), np.where(f, 0.0, B)
            close(A, B, f"{what}: covariance at {g.time}", rtol=1e-8, atol=1e-9 * np.outer(v, v))
            seen += 1
    mp, h, c = spec["mp_vola"], spec["vola_h"], spec["clip"]
    with sut("volatility"):
        a, b, d = (E.volatility(x, h, min_periods=mp, clip_at=c) for x in (df, pre, fut.fillna(0.0)))
    k = max(cut - ref.first_row(mp), 0)
    labels_equal(b.index, a.index[:k], "volatility of the prefix: rows")
    if k:
        close(b.values, a.values[:k], "volatility of the prefix", rtol=1e-9)
        close(d.values[:k], a.values[:k], "volatility with a different future", rtol=1e-9)
    with sut("center"):
        a, b, d = (E.center(x, h, min_periods=mp, mean_adj=True) for x in (df, pre, fut.fillna(0.0)))
    for x, y, z, what in ((a[0], b[0], d[0], "centred returns"), (a[1], b[1], d[1], "EWMA mean")):
        if k:
            close(y.values, x.values[:k], what + " of the prefix", rtol=1e-9, atol=1e-10 * sc)
            close(z.values[:k], x.values[:k], what + " with a different future", rtol=1e-9, atol=1e-10 * sc)
    iewma_labels(ctx, spec, full)
    ctx.note.update(cut=cut, compared=seen)
    ctx.label("future:" + spec["future"])
    ctx.mark(seen >= 2 and cut < T)


@st.composite
def causal_case(draw, tier):
    spec = draw(iewma_case(tier, styles=CONT, lo=2, mid=40, rare=150 if tier == "quick" else 300, warm=True, odds=9))
    a = ref.first_row(spec["mp_vola"]) + ref.first_row(spec["mp_cov"])
    spec["cut"] = draw(st.one_of(gen.ints(min(a + 1, spec["T"]), spec["T"]), gen.ints(min(a + 1, spec["T"]), spec["T"]), gen.ints(0, spec["T"])))
    spec["future"] = draw(st.sampled_from(["noise", "nan", "zero", "negate"]))
    return spec


def check_c07(spec, ctx):
    df = gen.build_frame(spec)
    ctx.act()
    got = run(df, spec)
    n = spec["n"]
    bad = 0
    for g in got:
        t = f"covariance at {g.time}"
        square_labels(g.covariance, df.columns, t)
        labels_equal(g.volatility.index, df.columns, f"volatility at {g.time}")
        S = np.asarray(g.covariance.values, dtype=float)
        v = np.asarray(g.volatility.values, dtype=float)
        require((v >= 0).all(), lambda: f"volatility at {g.time} is negative or missing: {v}")
        vv = np.outer(v, v)
        close(S.T, S, f"{t}: symmetry", rtol=1e-10, atol=1e-10 * vv)
        dead = np.isnan(np.diag(S))
        require((np.isnan(S) == (dead[:, None] | dead[None, :])).all(), lambda: f"{t}: missing entries are not whole rows and columns")
        bad += int(dead.any())
        a = ~dead
        if not a.any():
            continue
        close(np.diag(S)[a], v[a] ** 2, f"{t}: diagonal against squared volatility", rtol=1e-9)
        a = a & (v > 0)
        R = S[np.ix_(a, a)] / vv[np.ix_(a, a)]
        require(np.abs(R).max(initial=0) <= 1 + 1e-9, lambda: f"{t}: correlation {np.abs(R).max()!r} outside [-1, 1]")
        if a.any():
            ev = np.linalg.eigvalsh((R + R.T) / 2)[0]
            require(ev >= -1e-9 * n, lambda: f"{t}: not positive semidefinite, correlation eigenvalue {ev!r}")
    iewma_labels(ctx, spec, got)
    ctx.mark(len(got) >= 2 and n >= 2)


@st.composite
def valid_case(draw, tier):
    return draw(
        iewma_case(
            tier,
            edits=("zero", "big", "negbig", "zerorow", "zerohead", "headrows0", "zerocol", "nan", "nanhead", "nantail", "nancol", "nanrow"),
            rare=400 if tier == "quick" else 1000,
            nmax=20,
            styles=CONT,
        )
    )


# --------------------------------------------------------------- C08 equivariance


@st.composite
def equi_case(draw, tier):
    spec = draw(iewma_case(tier, styles=CONT, edits=("big", "negbig", "zero"), lo=4, mid=35, rare=120, warm=True))
    spec["edits"] = [e for e in spec["edits"] if e[2] != "zero" or e[0] % spec["T"] > 0]
    spec["factors"] = [round(draw(st.floats(0.01, 90.0)), 4) * draw(st.sampled_from([1, 1, -1])) for _ in range(3)]
    spec["perm"] = draw(st.permutations(list(range(spec["n"]))))
    spec["subset"] = draw(st.lists(gen.ints(0, spec["n"] - 1), min_size=1, max_size=spec["n"], unique=True))
    return spec


def check_c08(spec, ctx):
    df = gen.build_frame(spec)
    n = spec["n"]
    ctx.act()
    base = run(df, spec)
    f = np.array([spec["factors"][j % 3] for j in range(n)])
    perm, sub = list(spec["perm"]), list(spec["subset"])
    relab = pd.DataFrame(df.values, index=gen.build_index("gapint", len(df)), columns=[f"new{j}" for j in range(n)])
    variants = [
        ("rescaled assets", df * f, np.arange(n), f, df.index, df.columns),
        ("permuted assets", df.iloc[:, perm], np.array(perm), np.ones(n), df.index, df.columns[perm]),
        ("sub-universe", df.iloc[:, sub], np.array(sub), np.ones(len(sub)), df.index, df.columns[sub]),
        ("relabelled", relab, np.arange(n), np.ones(n), relab.index, relab.columns),
    ]
    for what, x, pick, k, index, cols in variants:
        got = run(x, spec)
        pos = {t: i for i, t in enumerate(df.index)}
        labels_equal([g.time for g in got], [index[pos[b.time]] for b in base], f"{what}: result times")
        sc = scale_of(df.values.astype(float))[pick] * np.abs(k)
        for g, b in zip(got, base):
            v = np.asarray(b.volatility.values, dtype=float)[pick] * np.abs(k)
            t = f"{what} at {g.time}"
            square_labels(g.covariance, cols, f"{t}: covariance")
            close(g.volatility.values, v, f"{t}: volatility", rtol=1e-8)
            close(g.mean.values, np.asarray(b.mean.values, dtype=float)[pick] * k, f"{t}: mean", rtol=1e-8, atol=1e-9 * sc)
            W = np.asarray(b.covariance.values, dtype=float)[np.ix_(pick, pick)] * np.outer(k, k)
            G = np.asarray(g.covariance.values, dtype=float)
            if spec["mean"] and spec["clip"]:  # see compare_results: cancellation to rounding noise
                f0 = ~np.isfinite(G) | ~np.isfinite(W)
                G, W = np.where(f0, 0, G), np.where(f0, 0, W)
            close(G, W, f"{t}: covariance", rtol=1e-7, atol=1e-8 * np.outer(v, v))
    iewma_labels(ctx, spec, base)
    ctx.label("subset" if len(sub) < n else "whole universe", "negative factor" if (f < 0).any() else "positive factors")
    ctx.mark(len(base) >= 2 and n >= 2)


# --------------------------------------------------------------- C09 missing values


@st.composite
def missing_case(draw, tier):
    spec = draw(
        iewma_case(
            tier,
            styles=CONT,
            edits=("nan", "nan", "nanrow", "nanhead", "nantail", "nancol", "headrowsnan", "big"),
            lo=3,
            mid=40,
            rare=150,
            warm=True,
        )
    )
    if not any("nan" in e[2] for e in spec["edits"]):
        spec["edits"].append([draw(gen.ints(0, spec["T"] - 1)), draw(gen.ints(0, spec["n"] - 1)), draw(st.sampled_from(["nan", "nanhead", "nancol", "nantail"]))])
    return spec


def check_c09(spec, ctx):
    df = gen.build_frame(spec)
    X = df.values.astype(float)
    ctx.act()
    got = run(df, spec)
    zero = run(df.fillna(0.0), spec)
    labels_equal([g.time for g in got], [z.time for z in zero], "missing against zero returns: result times")
    sc = scale_of(np.nan_to_num(X))
    for g, z in zip(got, zero):
        v = np.asarray(z.volatility.values, dtype=float)
        close(g.volatility.values, v, f"missing against zero returns: volatility at {g.time}", rtol=1e-9)
        close(g.mean.values, z.mean.values, f"missing against zero returns: mean at {g.time}", rtol=1e-9, atol=1e-10 * sc)
        close(g.covariance.values, z.covariance.values, f"missing against zero returns: covariance at {g.time}", rtol=1e-8, atol=1e-9 * np.outer(v, v))
    compare_results(got, reference(X, spec), df, spec["mean"], "iterated_ewma with missing returns")
    # assets without any data do not disturb the others
    dead = np.array([not np.nan_to_num(X[:, j]).any() for j in range(X.shape[1])])
    if dead.any() and not dead.all():
        alive = run(df.loc[:, ~dead], spec)
        ctx.label("asset without any data")
        labels_equal([g.time for g in got], [a.time for a in alive], "without the empty assets: result times")
        for g, a in zip(got, alive):
            v = np.asarray(a.volatility.values, dtype=float)
            G = np.asarray(g.covariance.values, dtype=float)
            require(np.isnan(G[dead]).all() and np.isnan(G[:, dead]).all(), lambda: f"asset without data has a covariance at {g.time}")
            close(G[np.ix_(~dead, ~dead)], a.covariance.values, f"without the empty assets: covariance at {g.time}", rtol=1e-8, atol=1e-9 * np.outer(v, v))
            close(np.asarray(g.volatility.values)[~dead], v, f"without the empty assets: volatility at {g.time}", rtol=1e-9)
    # replacement switched off: a missing return concerns its own asset only, and only from then on
    if not np.isnan(X).any(axis=0).all():
        first = np.where(np.isnan(X).any(axis=0), np.isnan(X).argmax(axis=0), len(X))
        raw = run(df, spec, nan_to_num=False)
        labels_equal([g.time for g in raw], [z.time for z in zero], "missing returns left in: result times")
        for g, z in zip(raw, zero):
            ok = first > df.index.get_loc(g.time)
            v = np.asarray(z.volatility.values, dtype=float)[ok]
            close(np.asarray(g.volatility.values)[ok], v, f"missing returns left in: volatility at {g.time}", rtol=1e-9)
            close(np.asarray(g.mean.values)[ok], np.asarray(z.mean.values)[ok], f"missing returns left in: mean at {g.time}", rtol=1e-9, atol=1e-10 * sc[ok])
            close(np.asarray(g.covariance.values)[np.ix_(ok, ok)], np.asarray(z.covariance.values)[np.ix_(ok, ok)], f"missing returns left in: covariance at {g.time}", rtol=1e-8, atol=1e-9 * np.outer(v, v))
            G, lost = np.asarray(g.covariance.values, dtype=float), ~ok
            require(np.isnan(np.asarray(g.volatility.values, dtype=float)[lost]).all(), lambda: f"missing returns left in: the asset still has a volatility at {g.time}")
            require(np.isnan(G[lost]).all() and np.isnan(G[:, lost]).all(), lambda: f"missing returns left in: the asset still has covariances at {g.time}")
        ctx.label("missing returns left in")
    iewma_labels(ctx, spec, got)
    ctx.note["missing"] = int(np.isnan(X).sum())
    ctx.mark(len(got) >= 1 and np.isnan(X).any())


# --------------------------------------------------------------- C10 report times


@st.composite
def schedule_case(draw, tier):
    spec = draw(iewma_case(tier, styles=CONT, edits=("big", "nan", "nantail", "nancol"), lo=0, mid=45, hi=60, rare=90))
    if "edits" in spec:  # the first asset always has data, so no row is empty
        spec["edits"] = [e for e in spec["edits"] if e[1] % spec["n"] != 0 or e[2] == "big"]
    return spec


def check_c10(spec, ctx):
    df = gen.build_frame(spec)
    ctx.act()
    got = run(df, spec)
    a, b = ref.first_row(spec["mp_vola"]), ref.first_row(spec["mp_cov"])
    start = a + b
    if spec["mean"] and a == 0:
        start += 1  # the first observation equals its own mean: no volatility yet
        if spec["clip"] and spec["mp_vola"] == 0:
            start = None  # everything after a zero estimate is capped at zero
    if start is not None:
        labels_equal([g.time for g in got], list(df.index[start:]), "result times")
        ctx.mark(len(got) >= 1 and start > 0)
    with sut("iterated_ewma, read lazily"):
        it = iter(E.iterated_ewma(df, **kwargs_of(spec)))
        lazily = []
        for _ in range(len(got)):
            lazily.append(next(it).time)
        end = next(it, None)
    require(end is None, "a second run yields more results")
    labels_equal(lazily, [g.time for g in got], "second run: result times")
    with sut("volatility"):
        v = E.volatility(df.fillna(0.0), spec["vola_h"], min_periods=spec["mp_vola"])
    labels_equal(v.index, df.index[a:], "volatility times")
    iewma_labels(ctx, spec, got)
    if start is not None and start >= len(df):
        ctx.label("history too short")
    if start is not None and len(df) == start + 1:
        ctx.label("history just long enough")


BASE = {"seed": 7, "style": "normal", "index": "D", "cols": "abc", "scale": [-2.0]}
ITER = {"vola_h": 10, "cov_h": 21, "mp_vola": 20, "mp_cov": 20, "clip": None, "mean": False, "mu1": None, "mu2": None, "edits": []}


def _ex(**kw):
    return {**BASE, **ITER, "T": 60, "n": 4, **kw}


IEX = [
    _ex(),
    _ex(T=38),
    _ex(T=39),
    _ex(T=1, mp_vola=0, mp_cov=0),
    _ex(T=1, mp_vola=1, mp_cov=1, n=1),
    _ex(clip=4.2, edits=[[30, 1, "big"], [31, 1, "negbig"], [5, 2, "big"]]),
    _ex(clip=3.0, mp_vola=5, mp_cov=2, style="t", T=200),
    _ex(mp_vola=0, mp_cov=0, edits=[[3, 0, "headrows0"]]),
    _ex(T=400, n=12, mp_vola=20, mp_cov=20, defaults=True),
    _ex(T=0),
    _ex(edits=[[0, 2, "zerocol"], [25, 1, "zerohead"]]),
    _ex(T=45, n=110, mp_vola=3, mp_cov=3),
    _ex(T=1100, n=2, vola_h=250, cov_h=500),
    _ex(T=70, n=3, vola_h=5, cov_h=0.5, mp_vola=2, mp_cov=2, edits=[[55, 1, "zerotail"]]),
]
MEX = [
    _ex(mean=True),
    _ex(mean=True, mu1=5, mu2=63.5),
    _ex(mean=True, mu1=100, mu2=None, clip=4.2, edits=[[33, 0, "big"]]),
    _ex(mean=True, mu1=None, mu2=3, style="drift", mp_vola=2, mp_cov=3),
    _ex(mean=True, T=39),
    _ex(mean=True, mp_vola=0, mp_cov=0, T=5),
    _ex(mean=True, T=45, n=110, mp_vola=3, mp_cov=3),
    _ex(mean=True, T=1100, n=2, vola_h=250, cov_h=500),
]


def _with(specs, **kw):
    return [{**s, **kw} for s in specs]


PROPS = {
    "C01": Prop(
        "C01",
        "EWMA volatility is the bias-corrected weighted RMS of the returns",
        lambda tier: vol_case(tier),
        check_c01,
        "Random return frames (0-400 rows, 1-14 assets, 12 kinds of index, outliers, zero cells/rows/columns), half-lives from 0.1 to 2000, warm-ups from 0 to longer than the history; non-trivial: at least 3 estimates that are not all equal.",
        1800,
        9000,
        examples=[{**BASE, "T": 30, "n": 3, "halflife": 10, "mp": 0, "edits": []}, {**BASE, "T": 5, "n": 1, "halflife": 2, "mp": 6, "edits": []}, {**BASE, "T": 0, "n": 2, "halflife": 2, "mp": 0, "edits": []}, {**BASE, "T": 700, "n": 30, "halflife": 63, "mp": 20, "edits": []}],
    ),
    "C02": Prop(
        "C02",
        "Winsorized volatility caps each update relative to the last estimate",
        lambda tier: vol_case(tier, clip=True),
        check_c02,
        "Random return frames with outliers and winsorization levels 0.3-8; non-trivial: the cap binds at least once after warm-up and the estimates are not all zero.",
        1680,
        9000,
        examples=[{**BASE, "T": 40, "n": 3, "halflife": 10, "mp": m, "clip": c, "blow": [30, 1, 50.0], "edits": [[30, 1, "big"], [m, 0, "big"], [m + 1, 2, "negbig"]]} for m in (0, 1, 2, 10, 20) for c in (2, 4.2)],
    ),
    "C03": Prop(
        "C03",
        "Centring subtracts the EWMA mean; clipping limits values and drops empty rows",
        center_case,
        check_c03,
        "Random frames, half-lives, warm-ups, active/inactive centring, clip levels, missing cells and rows; non-trivial: centring is active on at least 3 rows or the clip binds.",
        1400,
        7000,
    ),
    "C04": Prop(
        "C04",
        "Iterated EWMA covariance equals volatility times EWMA correlation of z-scores",
        lambda tier: iewma_case(tier, mean=False),
        check_reference,
        "Random return frames (up to 260 rows, 10 assets), half-life pairs, warm-ups, winsorization, zero returns and empty assets, zero-mean mode; every covariance, volatility, mean and label compared with a reference written from the definition; non-trivial: at least 2 results for at least 2 assets.",
        650,
        4000,
        examples=IEX,
    ),
    "C05": Prop(
        "C05",
        "Mean-adjusted iterated EWMA centres twice with its own half-lives",
        lambda tier: iewma_case(tier, mean=True),
        check_reference,
        "As C04 with mean adjustment, with and without separate mean half-lives; non-trivial: at least 2 results for at least 2 assets.",
        490,
        3500,
        examples=MEX,
    ),
    "C06": Prop(
        "C06",
        "Estimates at a time use no later return",
        causal_case,
        check_c06,
        "A random history, a random cut, and either the truncated history or a different future (noise, missing, zero, negated); non-trivial: at least 2 shared results and a non-empty future.",
        180,
        2500,
        examples=_with(IEX[:1] + MEX[:2] + IEX[5:7], cut=45, future="noise"),
    ),
    "C07": Prop(
        "C07",
        "Every reported covariance is a valid, labelled covariance matrix",
        valid_case,
        check_c07,
        "Random histories up to 400 rows and 20 assets with outliers, zero and missing returns, both mean modes; non-trivial: at least 2 matrices of at least 2 assets.",
        430,
        3500,
        examples=IEX + MEX,
    ),
    "C08": Prop(
        "C08",
        "Iterated EWMA is equivariant to asset scale, order, selection and labels",
        equi_case,
        check_c08,
        "Random history plus four transformed runs (per-asset factors including negative ones, permuted columns, a sub-universe, new labels); non-trivial: at least 2 results for at least 2 assets.",
        170,
        2000,
        examples=_with([IEX[0], MEX[1], IEX[6]], factors=[3.7, -0.02, 45.0], perm=[3, 1, 0, 2], subset=[2, 0]),
    ),
    "C09": Prop(
        "C09",
        "Missing returns count as zero and only empty assets get no covariance",
        missing_case,
        check_c09,
        "Random histories with missing cells, rows, heads, tails and whole assets, against the zero-filled run, the reference and a run without the empty assets; non-trivial: something is missing and something is reported.",
        270,
        2500,
        examples=_with(IEX[:1] + MEX[:1], edits=[[0, 1, "nancol"], [30, 2, "nanhead"], [20, 0, "nantail"], [10, 3, "nan"]]),
    ),
    "C10": Prop(
        "C10",
        "Results start exactly when both warm-ups are filled, one per time",
        schedule_case,
        check_c10,
        "Random history lengths (0-90) and warm-up pairs, including histories one short, just long enough and empty; non-trivial: a positive warm-up and at least one result.",
        540,
        6000,
        examples=[_ex(T=t, mp_vola=a, mp_cov=b) for t in (0, 1, 2, 4, 5, 6, 38, 39, 40) for a, b in ((20, 20), (3, 3), (1, 5), (0, 0))] + MEX,
    ),
}
