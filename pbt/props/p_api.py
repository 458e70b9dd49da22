"""Histories of calls over the whole core API: inputs stay untouched, equal calls give equal answers."""

import copy

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt import gen
from pbt.core import Prop, close, labels_equal, require, sut
from pbt.props.combo import C, Case, collect
from pbt.props.p_ewma import E
from pbt.props.p_regularization import G

OPS = ["volatility", "center", "clip", "iewma", "from_ewmas", "from_sigmas", "solve", "regularize", "lowrank", "em"]


@st.composite
def api_case(draw, tier):
    n = draw(st.sampled_from([2, 3, 1, 4]))
    K = draw(st.sampled_from([2, 1, 3]))
    spec = {
        "n": n,
        "K": K,
        "T": draw(gen.ints(2 * n + 8, 26)),
        "seed": draw(gen.seeds),
        "index": draw(st.sampled_from(["D", "B", "range", "str", "tz"])),
        "cols": draw(st.sampled_from(gen.COL_KINDS)),
        "keys": draw(st.sampled_from(["str", "int", "tuple"])),
        "scale": [-2.0],
        "means": draw(st.sampled_from([None, "series", "array"])),
        "holes": draw(st.lists(st.tuples(gen.ints(0, 25), gen.ints(0, 3)), max_size=4)),
    }
    ops = []
    for _ in range(draw(gen.ints(3, 10 if tier == "quick" else 16))):
        name = draw(st.sampled_from(OPS))
        arg = {
            "h": draw(st.sampled_from([5, 10, 21, 2.5])),
            "g": draw(st.sampled_from([10, 21, 63])),
            "clip": draw(st.sampled_from([None, 2.0, 4.2])),
            "mean": draw(st.booleans()),
            "nan": draw(st.booleans()),
            "r": draw(gen.ints(1, n)),
            "mp": draw(gen.ints(1, 4)),
        }
        ops.append([name, arg])
    again = draw(st.lists(gen.ints(0, len(ops) - 1), min_size=1, max_size=4))
    spec["ops"] = ops + [ops[i] for i in again]
    return spec


def snap(x):
    """Deep, comparable image of an argument."""
    if isinstance(x, pd.DataFrame):
        return ("frame", list(x.index), list(x.columns), x.values.copy(), x.index.name, x.columns.name, [str(d) for d in x.dtypes])
    if isinstance(x, pd.Series):
        return ("series", list(x.index), x.values.copy(), x.name)
    if isinstance(x, np.ndarray):
        return ("array", x.copy())
    if isinstance(x, dict):
        return ("dict", [(k, snap(v)) for k, v in x.items()])
    if isinstance(x, tuple) and hasattr(x, "_fields"):
        return ("named", [(f, snap(getattr(x, f))) for f in x._fields])
    if isinstance(x, (list, tuple)):
        return ("seq", [snap(v) for v in x])
    if isinstance(x, (bool, int, float, str, type(None), np.generic)):
        return ("atom", x)
    return ("atom", repr(x))


def same(a, b, what, tol):
    require(type(a) is type(b), lambda: f"{what}: {type(a).__name__} became {type(b).__name__}")
    if isinstance(a, (tuple, list)):
        require(len(a) == len(b), lambda: f"{what}: size {len(a)} became {len(b)}")
        for i, (x, y) in enumerate(zip(a, b)):
            same(x, y, what, tol)
    elif isinstance(a, np.ndarray):
        if a.dtype == object or b.dtype == object:
            require(a.shape == b.shape and all(u is v or u == v or (u != u and v != v) for u, v in zip(a.flat, b.flat)), what)
        else:
            scale = np.nanmax(np.abs(a), initial=0) if a.size and a.dtype.kind == "f" else 0
            close(b, a, what, rtol=tol, atol=tol * scale if np.isfinite(scale) else 0)
    elif isinstance(a, (float, np.floating)) and tol:
        require(a == b or (a != a and b != b) or abs(a - b) <= tol * (1 + abs(a)), lambda: f"{what}: {a!r} became {b!r}")
    else:
        require(a == b or (a != a and b != b), lambda: f"{what}: {a!r} became {b!r}")


def stream(it, live):
    """Drains a generator; each item is compared with its image at delivery once the generator has moved on."""
    out = []
    for x in it:
        live.append((x, snap(x)))
        out.append(x)
    return out


def check_c23(spec, ctx):
    case = Case(spec)
    df = case.returns
    hole = df.copy()
    for i, j in spec["holes"]:
        hole.iloc[i % len(df), j % spec["n"]] = np.nan
    sig, means = case.sigmas(), case.means()
    k0 = case.keys[0]
    rng = np.random.default_rng(spec["seed"])
    n = spec["n"]
    starts = {}
    for r in range(1, n + 1):
        starts[r] = {}
        for t, S in sig[k0].items():
            s = np.sqrt(np.diag(S.values))
            starts[r][t] = G.LowRankDiag(F=pd.DataFrame(0.4 * s[:, None] * rng.normal(size=(n, r)), index=S.columns), d=pd.Series(0.7 * s**2, index=S.columns))
    pairs = [(5, 21), (10, 63), (21, 63)][: spec["K"]]
    times = {"list": list(case.index[9:]), "index": case.index[9:].copy(), "array": np.array(list(case.index[9:]), dtype=object)}
    inputs = {"times": times, "returns": df, "returns with holes": hole, "sigmas": sig, "means": means, "starts": starts, "pairs": pairs}
    before = {k: snap(v) for k, v in inputs.items()}
    comb = None
    delivered = []
    seen = {}
    repeats = 0
    ctx.act()
    for step, (name, a) in enumerate(spec["ops"]):
        X = hole if a["nan"] and name in ("clip", "iewma", "from_ewmas") else df
        what = f"step {step} ({name})"
        tol = 1e-12
        live = []
        with sut(what):
            if name == "volatility":
                out = E.volatility(X, a["h"], min_periods=a["mp"], clip_at=a["clip"])
            elif name == "center":
                out = E.center(X, a["h"], min_periods=a["mp"], mean_adj=a["mean"])
            elif name == "clip":
                out = E.clip(X, a["clip"])
            elif name == "iewma":
                out = stream(E.iterated_ewma(X, a["h"], a["g"], a["mp"], a["mp"], mean=a["mean"], clip_at=a["clip"]), live)
            elif name == "from_ewmas":
                c = C.from_ewmas(X, pairs, min_periods_vola=2, min_periods_cov=2 * n + 1, clip_at=a["clip"], mean=a["mean"])
                out = (c.sigmas, c.means)
            elif name == "from_sigmas":
                comb = C.from_sigmas(sig, df, means)
                out = (comb.K, list(comb.assets))
            elif name == "solve":
                comb = comb or C.from_sigmas(sig, df, means)
                out = collect(comb.solve(window=4 + a["mp"], times=times[("list", "index", "array")[a["r"] % 3]]), what)
                tol = 1e-3
            elif name == "regularize":
                out = stream(G.regularize_covariance(sig[k0], a["r"]), live)
            elif name == "lowrank":
                out = [(t, x.F.values @ x.F.values.T, x.d) for t, x in stream(G.regularize_covariance(sig[k0], a["r"], low_rank_format=True), live)]
                tol = 1e-9
            else:
                out = stream(G.em_regularize_covariance(sig[k0], starts[a["r"]]), live)
        for k, v in inputs.items():
            same(before[k], snap(v), f"{what}: input '{k}' changed", 0)
        for x, image in live + delivered:
            same(image, snap(x), f"{what}: a result delivered earlier changed", 0)
        delivered = live[:: max(len(live) // 3, 1)] + delivered[:12]
        key = repr((name, sorted(a.items(), key=str), comb is None if name == "solve" else 0))
        image = snap(out)
        if name == "solve":
            key = repr((name, a["mp"]))
            if any(r is None for r in out):
                continue
            image = [(r.time, r.weights.values.copy()) for r in out]
        if key in seen:
            repeats += 1
            same(seen[key], image, f"{what}: repeated call gives another answer", 5e-3 if name == "solve" else tol)
        else:
            seen[key] = image
    ctx.note.update(operations=[o[0] for o in spec["ops"]], repeats=repeats)
    for o in spec["ops"]:
        ctx.label("op:" + o[0])
    ctx.mark(repeats >= 1 and len({o[0] for o in spec["ops"]}) > 1)


PROPS = {
    "C23": Prop(
        "C23",
        "Calls never change their inputs and repeated calls give the same answer",
        api_case,
        check_c23,
        "Random histories of 4-14 calls over the whole core API on shared inputs, some calls repeated later; all inputs compared bit by bit after every call; non-trivial: at least one repeated call and two different operations.",
        70,
        900,
    ),
}
