"""Generators of JSON-able case descriptions, and builders that turn them into pandas/numpy inputs.

Every random choice is drawn by Hypothesis. Bulk noise is expanded from a drawn integer seed, so a case is a pure
function of its description and replays from JSON.
"""

import datetime as dt

import numpy as np
import pandas as pd
from hypothesis import strategies as st


def ints(lo, hi):
    """Uniform on lo..hi. (Hypothesis' own integers() return the end points about a third of the time.)"""
    return st.sampled_from(range(lo, hi + 1))


INDEX_KINDS = ["B", "D", "tz", "min", "range", "gapint", "str", "month", "date", "period", "irregular", "text"]
COL_KINDS = ["abc", "shuffled", "int", "intdesc", "mixed"]


def build_index(kind, T):
    if kind == "B":
        return pd.date_range("2019-12-30", periods=T, freq="B", name="Date")
    if kind == "D":
        return pd.date_range("2000-02-25", periods=T, freq="D")
    if kind == "tz":
        return pd.date_range("2021-03-20", periods=T, freq="D", tz="America/New_York")
    if kind == "min":
        return pd.date_range("2022-01-03 09:30", periods=T, freq="min")
    if kind == "range":
        return pd.RangeIndex(T)
    if kind == "gapint":
        return pd.Index([10 + 4 * i + (i % 3) for i in range(T)], name="step")
    if kind == "str":
        return pd.Index([f"t{i:05d}" for i in range(T)])
    if kind == "text":  # day-first dates as read from a file: their alphabetical order is not theirs
        return pd.Index([d.strftime("%d/%m/%Y") for d in pd.date_range("2017-03-24", periods=T)], name="Datum")
    if kind == "month":
        return pd.date_range("1950-01-31", periods=T, freq="ME")
    if kind == "date":
        return pd.Index([dt.date(2015, 1, 1) + dt.timedelta(days=i) for i in range(T)])
    if kind == "period":
        return pd.period_range("1990-01", periods=T, freq="M")
    if kind == "irregular":
        days = np.cumsum([1 + (i * 7) % 5 for i in range(T)])
        return pd.DatetimeIndex([pd.Timestamp("2010-01-01") + pd.Timedelta(days=int(k)) for k in days])
    raise ValueError(kind)


def build_columns(kind, n):
    if kind == "abc":
        return pd.Index([f"A{i:03d}" for i in range(n)])
    if kind == "shuffled":
        names = [f"S{(i * 7 + 3) % (101 if n <= 100 else 1009):03d}" for i in range(n)]
        return pd.Index(names, name="asset")
    if kind == "int":
        return pd.RangeIndex(n)
    if kind == "intdesc":
        return pd.Index([n - i for i in range(n)])
    if kind == "mixed":
        return pd.Index(["zz", "b", "aa", "X", "m1", "k", "c", "Y", "q", "r", "t", "W"][:n] if n <= 12 else [f"c{i}" for i in range(n)])
    raise ValueError(kind)


def build_values(spec):
    T, n = spec["T"], spec["n"]
    rng = np.random.default_rng(spec["seed"])
    style = spec.get("style", "normal")
    if style == "lattice":
        X = rng.integers(-4, 5, size=(T, n)).astype(float)
    elif style == "t":
        X = rng.standard_t(2.5, size=(T, n))
    elif style == "regime":
        X = rng.normal(size=(T, n)) * np.where((np.arange(T) // 7) % 2, 4.0, 0.5)[:, None]
    elif style == "factor":
        X = rng.normal(size=(T, 1)) * rng.normal(size=(1, n)) + 0.3 * rng.normal(size=(T, n))
    elif style == "drift":
        X = rng.normal(size=(T, n)) + 1.5 * np.sin(np.arange(T) / 5.0)[:, None] + 0.7
    else:
        X = rng.normal(size=(T, n))
    scale = np.array([10.0 ** spec["scale"][j % len(spec["scale"])] for j in range(n)])
    X = X * scale
    for e in spec.get("edits", []):
        i, j = e[0] % T, e[1] % n
        k = e[2]
        if k == "nan":
            X[i, j] = np.nan
        elif k == "zero":
            X[i, j] = 0.0
        elif k == "big":
            X[i, j] = (25.0 + 0.01 * i) * scale[j]
        elif k == "negbig":
            X[i, j] = -(40.0 + 0.01 * i) * scale[j]
        elif k == "nanrow":
            X[i, :] = np.nan
        elif k == "zerorow":
            X[i, :] = 0.0
        elif k == "nanhead":
            X[:i, j] = np.nan
        elif k == "zerohead":
            X[:i, j] = 0.0
        elif k == "nantail":
            X[T - i :, j] = np.nan
        elif k == "zerotail":
            X[T - i :, j] = 0.0
        elif k == "nancol":
            X[:, j] = np.nan
        elif k == "zerocol":
            X[:, j] = 0.0
        elif k == "headrows0":
            X[:i, :] = 0.0
        elif k == "headrowsnan":
            X[:i, :] = np.nan
        else:
            raise ValueError(k)
    return X


def build_frame(spec):
    X = build_values(spec)
    index = build_index(spec.get("index", "D"), spec["T"])
    cols = build_columns(spec.get("cols", "abc"), spec["n"])
    if spec.get("dtype") == "int":
        return pd.DataFrame(np.rint(X).astype(np.int64), index=index, columns=cols)
    if spec.get("order") == "F":
        X = np.asfortranarray(X)
    df = pd.DataFrame(X, index=index, columns=cols)
    if spec.get("order") == "cols":  # one block per column, as left behind by column-wise construction
        df = pd.DataFrame({c: df[c] for c in cols}, index=index)
        df.columns = cols
    return df


def sparing(spec, defaults, **kw):
    """In every other case, leave out the arguments that equal their documented default."""
    if spec["seed"] % 2:
        return kw
    return {k: v for k, v in kw.items() if not (k in defaults and (v is defaults[k] or (defaults[k] is not None and v is not None and v == defaults[k])))}


seeds = st.integers(0, 2**31 - 1)

halflives = st.one_of(
    st.sampled_from([1, 2, 3, 5, 10, 21, 63, 125, 250, 500]),
    st.sampled_from([0.5, 0.1, 1.0, 2.5, 10.0, 1000.0]),
    st.floats(0.3, 40.0, allow_nan=False).map(lambda x: round(x, 3)),
    st.floats(40.0, 2000.0, allow_nan=False).map(lambda x: round(x, 1)),
)

clips = st.one_of(
    st.none(),
    st.sampled_from([4.2, 3.0, 3, 2, 1.0, 1, 12, 20.0]),
    st.floats(0.3, 8.0, allow_nan=False).map(lambda x: round(x, 3)),
)


def seldom(usual, unusual, odds=25):
    """`unusual` once in `odds` draws; shrinks to `usual`."""
    return ints(0, odds - 1).flatmap(lambda i: unusual if i == odds - 1 else usual)


def lengths(lo, mid, hi, rare=None, long=None, odds=25):
    opts = [ints(lo, min(mid, hi)), ints((lo + mid) // 2, hi), ints((lo + mid) // 2, hi)]
    if rare:
        opts.append(ints(hi, rare))
    if long:
        return seldom(st.one_of(*opts), ints(*long), odds)
    return st.one_of(*opts)


def min_periods(T):
    low = ints(0, max(1, T // 4))
    return st.one_of(st.sampled_from([0, 1, 2, 3]), low, low, ints(0, max(1, T // 2)), ints(0, T + 2))


@st.composite
def frames(
    draw,
    T,
    n=st.sampled_from([2, 3, 1, 4, 5, 6]),
    edits=("zero", "big", "negbig"),
    max_edits=6,
    styles=("normal", "t", "lattice", "regime", "factor", "drift"),
    index=tuple(INDEX_KINDS),
    cols=tuple(COL_KINDS),
    integral=True,
    scale=st.sampled_from([-2.0, -4.0, 0.0, 2.0, -7.0, 5.0]),
    per_asset_scale=True,
):
    n = draw(n)
    T = draw(T)
    if n > 24:
        T = min(T, 90)
    spec = {
        "T": T,
        "n": n,
        "seed": draw(seeds),
        "style": draw(st.sampled_from(styles)),
        "index": draw(st.sampled_from(index)),
        "cols": draw(st.sampled_from(cols)),
    }
    if per_asset_scale and draw(st.booleans()):
        spec["scale"] = draw(st.lists(st.floats(-4, 2).map(lambda x: round(x, 2)), min_size=1, max_size=3))
    else:
        spec["scale"] = [draw(scale)]
    if integral and draw(ints(0, 9)) == 9:
        spec["dtype"] = "int"
        spec["style"] = "lattice"
        spec["scale"] = [0.0]
    elif draw(ints(0, 4)) == 4:
        spec["order"] = draw(st.sampled_from(["F", "cols"]))
    if edits and T > 0 and spec.get("dtype") != "int":
        k = draw(ints(0, max_edits))
        spec["edits"] = [
            [draw(ints(0, max(0, T - 1))), draw(ints(0, n - 1)), draw(st.sampled_from(list(edits)))]
            for _ in range(k)
        ]
    return spec
