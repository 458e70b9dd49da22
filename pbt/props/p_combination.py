"""Combining expert covariances: weights, blend, schedule, causality, histories, faults."""

import json

import cvxpy
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import Prop, Violation, close, fail, labels_equal, require, sut
from pbt.props import p_ewma
from pbt.props.combo import SAFE_INDEX, C, Case, Oracle, case_labels, collect, combos, drop_failed, min_window, quiet, tolerance, windows


def results_for(case, oracle, window, what="solve", comb=None):
    comb = comb or case.build()
    res = collect(comb.solve(window=window, **case.spec.get("kw", {})), what)
    due = oracle.rows(window)
    require(len(res) == len(due), lambda: f"{what}: {len(res)} results, {len(due)} are due")
    pairs = drop_failed(res, oracle, window, due)
    for row, r in pairs:
        require(r.time == oracle.index[row], lambda: f"{what}: result for {r.time!r} where {oracle.index[row]!r} is due")
    return pairs


# ------------------------------------------------------------------ C11, C12


@st.composite
def solve_case(draw, tier, **kw):
    spec = draw(combos(tier, **kw))
    lo = min_window(spec)
    spec["T"] = max(spec["T"], lo + 2)
    spec["window"] = draw(windows(spec))
    if draw(gen.ints(0, 3)) == 3:
        spec["kw"] = draw(st.sampled_from([{"solver": "CLARABEL"}, {"verbose": False}, {"warm_start": False}, {"ignore_dpp": True}]))
    return spec


def check_c11(spec, ctx):
    case = Case(spec)
    oracle = case.oracle()
    w = spec["window"]
    ctx.act()
    pairs = results_for(case, oracle, w)
    interior = corner = 0
    for row, r in pairs:
        oracle.shape(r, f"result at {r.time}")
        best = oracle.weights(r, w, f"result at {r.time}")
        interior += int(spec["K"] > 1 and best.min() > 1e-3)
        corner += int(spec["K"] > 1 and best.min() < 1e-6)
    case_labels(ctx, spec, window=w, results=len(pairs), interior=interior, corner=corner)
    ctx.label("window " + ("none" if not w else "capped" if w >= spec["T"] else "given"))
    if interior:
        ctx.label("interior optimum")
    if corner:
        ctx.label("optimum with a zero weight")
    ctx.mark(spec["K"] > 1 and pairs)


def check_c12(spec, ctx):
    case = Case(spec)
    oracle = case.oracle()
    w = spec["window"]
    ctx.act()
    pairs = results_for(case, oracle, w)
    mixed = 0
    for row, r in pairs:
        what = f"result at {r.time}"
        oracle.shape(r, what)
        oracle.blend(r, what)
        S = np.asarray(r.covariance.values, dtype=float)
        sd = np.sqrt(np.diag(S))
        require(np.isfinite(sd).all() and (sd > 0).all(), lambda: f"{what}: variances {np.diag(S)}")
        close(S.T, S, what + ": symmetry", rtol=1e-9, atol=1e-9 * np.outer(sd, sd))
        require(np.linalg.eigvalsh(S / np.outer(sd, sd))[0] > 0, lambda: f"{what}: covariance not positive definite")
        mixed += int((np.asarray(r.weights.values) > 0.05).sum() > 1)
    case_labels(ctx, spec, window=w, results=len(pairs), mixed=mixed)
    ctx.label("mixed weights" if mixed else "one expert takes all")
    ctx.mark(mixed > 0)


# ------------------------------------------------------------------ C13 schedule


@st.composite
def schedule_case(draw, tier):
    spec = draw(solve_case(tier, lo=4))
    T = spec["T"]
    first = min(spec["window"] or T - 1, T - 1)
    a = draw(st.one_of(gen.ints(1, T - 1), gen.ints(first, T - 1), gen.ints(1, first)))
    b = draw(st.one_of(st.just(T - 1), gen.ints(a, T - 1), gen.ints(a, min(T - 1, a + 2))))
    spec["times"] = [a, b]
    spec["times_as"] = draw(st.sampled_from(["index", "list", "tuple", "array", "iter", "series"]))
    return spec


def make_times(index, kind):
    if kind == "index":
        return index
    if kind == "list":
        return list(index)
    if kind == "tuple":
        return tuple(index)
    if kind == "array":
        return np.array(list(index), dtype=object)
    if kind == "iter":
        return iter(list(index))
    return pd.Series(list(index))


def check_c13(spec, ctx):
    case = Case(spec)
    oracle = case.oracle()
    w = spec["window"]
    a, b = spec["times"]
    ctx.act()
    comb = case.build()
    full = {r.time: r for _, r in results_for(case, oracle, w, "solve at all times", comb)}
    times = make_times(case.index[a : b + 1], spec["times_as"])
    got = collect(comb.solve(window=w, times=times), "solve at given times")
    if spec["times_as"] != "iter":
        labels_equal(list(times), list(case.index[a : b + 1]), "the caller's times after solving")
    due = [r for r in oracle.rows(w) if a <= r <= b]
    require(len(got) == len(due), lambda: f"solve at given times: {len(got)} results, {len(due)} are due")
    for row, r in drop_failed(got, oracle, w, due):
        require(r.time == case.index[row], lambda: f"result for {r.time!r} where {case.index[row]!r} is due")
        if r.time in full:
            oracle.full(full[r.time], w, f"full solve at {r.time}")
            same_solution(oracle, row, w, full[r.time], r, f"given times against all times at {r.time}")
    case_labels(ctx, spec, window=w, times=[a, b], due=len(due), available=len(oracle.rows(w)))
    ctx.label("times as " + spec["times_as"])
    first = oracle.window(w)
    ctx.label("starts before the window fills" if a < first else "starts at the first result" if a == first else "starts later")
    if b == spec["T"] - 1:
        ctx.label("ends at the last time")
    if not due:
        ctx.label("nothing due")
    ctx.mark(len(due) >= 1 and (a > first or b < spec["T"] - 1 or a < first))


def same_solution(oracle, row, window, a, b, what, loose=1.0):
    """Two results for the same window: equally good weights, each with its own consistent blend."""
    A, B, best, fbest = oracle.optimum(row, window)
    tol = loose * tolerance(fbest)
    for r in (a, b):
        w = np.maximum(np.asarray(r.weights.values, dtype=float), 0)
        f = ref.loglik(A, B, w / w.sum())
        require(abs(f - fbest) <= tol, lambda: f"{what}: weights {np.asarray(a.weights)} and {np.asarray(b.weights)} differ")
        oracle.blend(r, what)


# ------------------------------------------------------------------ C14 causality and locality


@st.composite
def local_case(draw, tier):
    spec = draw(combos(tier, lo=6, Tmax=14 if tier == "quick" else 24, big=False))
    lo = min_window(spec)
    spec["T"] = max(spec["T"], lo + 4)
    spec["window"] = draw(gen.ints(lo, max(lo, spec["T"] - 3)))
    if draw(gen.ints(0, 4)) == 4:  # long history: what matters is a small part of it
        spec["T"] += draw(gen.ints(20, 70))
        spec["window"] = draw(gen.ints(lo, lo + 4))
        spec["at"] = draw(gen.ints(spec["window"], spec["T"] - 1))
        spec["ask"] = draw(gen.ints(0, 2))
        spec["jolt"] = draw(st.lists(gen.ints(0, 12), min_size=1, max_size=3))
        spec["size"] = draw(st.sampled_from([0.05, 300.0, 1e-3]))
    else:
        spec["at"] = draw(gen.ints(spec["window"], spec["T"] - 1))
        if draw(gen.ints(0, 2)) == 2:
            spec["ask"] = draw(gen.ints(0, 2))
        spec["size"] = draw(st.sampled_from([1.0, 10.0, 0.1, 1e-3, 300.0]))
        spec["jolt"] = draw(st.lists(gen.ints(0, 12), max_size=2))
    return spec


def check_c14(spec, ctx):
    """Everything outside the window's returns, their predictions and today's predictions is replaced by noise."""
    case = Case(spec)
    oracle = case.oracle()
    w, t = spec["window"], spec["at"]
    T, K, n = case.T, case.K, case.n
    other = Case({**spec, "seed": (spec["seed"] + 1) % 2**31})
    for k in spec["jolt"]:
        s = t - k % w
        case.R[s] *= 12.0
    case.returns.iloc[spec.get("lead", 0) : spec.get("lead", 0) + T] = case.R
    base_returns = case.returns.copy()
    oracle = case.oracle()
    oracle.R = case.R.copy()
    use_r = range(t - w + 1, t + 1)
    use_p = range(t - w, t + 1)
    f = spec["size"]
    for s in range(T):
        if s not in use_r:
            case.R[s] = other.R[s] * f
        if s not in use_p:
            case.S[:, s] = other.S[:, s] * f * f
            case.mu[:, s] = other.mu[:, s] * f
    lead = spec.get("lead", 0)
    ret = other.returns * f
    ret.iloc[lead : lead + T] = case.R
    base = Case(spec)
    base.returns = base_returns
    times = None
    if "ask" in spec:
        times = list(base.index[max(t - spec["ask"], 1) : min(t + spec["ask"], T - 1) + 1])
        ctx.label("asked around that time")
    ctx.act()
    # the altered history may contain a window the solver gives up on; only the result at `t` is compared
    a = {r.time: r for r in collect(base.build().solve(window=w, times=times), "solve") if r is not None}.get(base.index[t])
    case.returns = ret
    comb = case.build()
    b = {r.time: r for r in collect(comb.solve(window=w, times=times), "solve with other data outside the window") if r is not None}.get(base.index[t])
    case_labels(ctx, spec, window=w, at=t)
    ctx.label("future replaced" if t < T - 1 else "last time", "older past replaced" if t > w else "first time")
    if T > 30:
        ctx.label("long history")
    if a is None or b is None:
        from pbt.props.combo import solvable

        A, B = oracle.problem(t, w)
        require(not solvable(A, B), lambda: f"no result at {base.index[t]} although the solver handles that problem")
        ctx.label("solver gave up")
        return
    oracle.shape(b, f"result at {b.time}")
    oracle.full(a, w, f"result at {a.time}")
    what = f"result at {b.time} after replacing the data it may not depend on"
    oracle.weights(b, w, what)
    same_solution(oracle, t, w, a, b, what)
    ctx.mark(K > 1 and (t < T - 1 or t > w))


# ------------------------------------------------------------------ C15 from_ewmas


@st.composite
def pipeline_case(draw, tier):
    n = draw(gen.seldom(st.sampled_from([2, 3, 1, 4]), gen.ints(5, 9)))
    K = draw(st.sampled_from([2, 3, 1, 4]))
    pairs = []
    for k in range(K):  # well separated half-lives; the covariance half-life is long enough for full rank
        v = draw(st.sampled_from([[5, 21], [10, 63], [21, 125], [63, 250]][k]))
        pairs.append([v, draw(st.sampled_from([x for x in (10, 21, 63, 125, 12.5, 250) if x >= 2 * n]))])
    twist = draw(gen.ints(0, 9))
    if twist == 9 and n > 1:  # one volatility half-life for all experts
        pairs = [[pairs[0][0], 2 * n * 4**k + k] for k in range(K)]
    elif twist == 8:
        factor = draw(gen.ints(101, 140)) / 100
        pairs = [[round(v * factor, 3), round(c * factor, 3)] for v, c in pairs]
    elif twist == 7:
        pairs.reverse()
    mpv = draw(st.sampled_from([2, 1, 5, 12, 20]))
    mpc = draw(gen.ints(2 * n + 2, 2 * n + 12))
    window = draw(st.one_of(gen.ints(-(-K // n) + 2, 12), st.sampled_from([None, 40])))
    extra = draw(gen.ints(-(-K // n) + 3, 14 if tier == "quick" else 40))
    T = mpv + mpc + extra
    spec = {
        "T": T,
        "n": n,
        "seed": draw(gen.seeds),
        "style": draw(st.sampled_from(["normal", "t", "regime", "factor"])),
        "index": draw(st.sampled_from(SAFE_INDEX)),
        "cols": draw(st.sampled_from(gen.COL_KINDS)),
        "scale": [draw(st.sampled_from([-2.0, 0.0, -3.0]))],
        "pairs": pairs,
        "mpv": mpv,
        "mpc": mpc,
        "window": window,
        "clip": draw(st.sampled_from([None, None, 4.2, 2.0])),
        "mean": draw(st.booleans()),
        "pair_as": draw(st.sampled_from(["tuple", "list"])),
    }
    kinds = ["nan", "zero", "big", "negbig"]
    spec["edits"] = [
        [draw(gen.ints(0, T - 1)), draw(gen.ints(0, n - 1)), draw(st.sampled_from(kinds))] for _ in range(draw(gen.ints(0, 4)))
    ]
    if draw(gen.ints(0, 4)) == 4:
        spec["edits"].append([draw(gen.ints(1, mpv)), draw(gen.ints(0, n - 1)), "nanhead"])
    return spec


def check_c15(spec, ctx):
    df = gen.build_frame(spec)
    X = np.nan_to_num(df.values)
    mats, rows = [], None
    for v, c in spec["pairs"]:
        r = ref.iewma(X, v, c, spec["mpv"], spec["mpc"], spec["clip"], spec["mean"])
        mats.append(r)
        rows = [x["row"] for x in r] if rows is None else rows
        assert rows == [x["row"] for x in r]
    S = np.array([[x["cov"] for x in r] for r in mats])
    mu = np.array([[x["mean"] for x in r] for r in mats])
    if not len(rows) or not np.isfinite(S).all() or any(np.linalg.cond(x["corr"]) > 1e6 or not (x["vola"] > 0).all() for r in mats for x in r):
        ctx.label("skipped: singular expert")
        return
    keys = [f"{v}-{c}" for v, c in spec["pairs"]]
    index = df.index[rows]
    oracle = Oracle(S, mu, X[rows], index, df.columns, keys)
    w = spec["window"]
    if oracle.T < 2 or oracle.window(w) * spec["n"] < len(keys) + spec["n"]:
        ctx.label("skipped: too few rows")
        return
    due = oracle.rows(w)
    for row in due:
        A, B = oracle.problem(row, w)
        if np.linalg.cond(B.T @ B) > 1e9:
            ctx.label("skipped: nearly equal experts")
            return
    kw = gen.sparing(spec, {"min_periods_vola": 20, "min_periods_cov": 20}, min_periods_vola=spec["mpv"], min_periods_cov=spec["mpc"])
    if spec["clip"]:
        kw["clip_at"] = spec["clip"]
    if spec["mean"]:
        kw["mean"] = True
    pairs = [tuple(p) if spec["pair_as"] == "tuple" else list(p) for p in spec["pairs"]]
    ctx.act()
    with sut("from_ewmas"):
        comb = C.from_ewmas(df, pairs, **kw)
    labels_equal(comb.sigmas.keys(), keys, "experts")
    require(comb.K == len(keys), f"K is {comb.K}, there are {len(keys)} experts")
    labels_equal(comb.assets, df.columns, "assets")
    for k, key in enumerate(keys):
        labels_equal(comb.sigmas[key].keys(), index, f"expert {key}: times")
        for i, t in enumerate(index):
            sd = np.sqrt(np.diag(S[k, i]))
            close(comb.sigmas[key][t].values, S[k, i], f"expert {key} at {t}: covariance", rtol=1e-7, atol=1e-8 * np.outer(sd, sd))
            close(comb.means[key][t], mu[k, i], f"expert {key} at {t}: mean", rtol=1e-7, atol=1e-8 * (sd + np.abs(X).max(0)))
    got = collect(comb.solve(window=w), "solve after from_ewmas")
    require(len(got) == len(due), lambda: f"{len(got)} results, {len(due)} are due")
    pairs_ = drop_failed(got, oracle, w, due)
    for row, r in pairs_:
        require(r.time == index[row], lambda: f"result for {r.time!r} where {index[row]!r} is due")
        oracle.shape(r, f"result at {r.time}")
        oracle.weights(r, w, f"result at {r.time}")
        oracle.blend(r, f"result at {r.time}", scale=1e-6)
    ctx.note.update(n=spec["n"], K=spec["K"] if "K" in spec else len(keys), rows=spec["T"], window=w, results=len(pairs_), mean=spec["mean"], clip=spec["clip"])
    ctx.label("missing returns" if np.isnan(df.values).any() else "complete returns", "mean" if spec["mean"] else "no mean", "clip" if spec["clip"] else "no clip", f"K={len(keys)}")
    ctx.mark(len(pairs_) >= 1 and len(keys) > 1)


# ------------------------------------------------------------------ C16 histories on one combinator


@st.composite
def history_case(draw, tier):
    spec = draw(combos(tier, Tmax=9, Kmax=4, nmax=4, lo=5, big=False))
    lo = min_window(spec)
    spec["T"] = max(spec["T"], lo + 3)
    T = spec["T"]
    ops = []
    for i in range(draw(gen.ints(4, 9 if tier == "quick" else 16))):
        kind = "open" if i == 0 else draw(st.sampled_from(["open", "next", "open", "next", "next", "drain", "close", "read", "fail"]))
        if kind == "open":
            a = draw(gen.ints(lo, T - 1))
            ops.append(["open", draw(st.sampled_from([lo, lo + 1, lo + 2, None, T - 2, T + 3])), draw(st.sampled_from([None, [a, T - 1], [a, draw(gen.ints(a, T - 1))]]))])
        elif kind in ("next", "drain", "close"):
            ops.append([kind, draw(gen.ints(0, 5))])
        elif kind == "fail":
            ops.append(["fail", draw(st.sampled_from([lo, T - 1]))])
        else:
            ops.append(["read"])
    spec["ops"] = ops
    return spec


def check_c16(spec, ctx):
    case = Case(spec)
    oracle = case.oracle()
    ctx.act()
    comb = case.build()
    opened = []  # [generator, due rows, position, window]
    steps = interleaved = 0
    last = None
    delivered = []  # (result, its numbers when it was delivered)

    def unchanged():
        for r, w, m, S in delivered:
            for now, then, name in ((r.weights, w, "weights"), (r.mean, m, "mean"), (r.covariance, S, "covariance")):
                close(now, then, f"{name} of the result delivered for {r.time}, after later steps", rtol=0)

    def advance(g):
        nonlocal steps, interleaved, last
        with sut("solve"), quiet():
            r = next(g[0], "end")
        if g[2] >= len(g[1]):
            require(r == "end" if isinstance(r, str) else False, lambda: f"one result too many: {r!r}")
            return False
        require(not isinstance(r, str), f"solve(window={g[3]}) ended before the result due at {case.index[g[1][g[2]]]}")
        row = g[1][g[2]]
        g[2] += 1
        steps += 1
        interleaved += int(last is not None and last is not g)
        last = g
        if r is None:
            A, B = oracle.problem(row, g[3])
            from pbt.props.combo import solvable

            require(not solvable(A, B), f"no result at {case.index[row]} although the solver handles that problem")
            return True
        require(r.time == case.index[row], lambda: f"result for {r.time!r} where {case.index[row]!r} is due")
        oracle.full(r, g[3], f"step {steps} of the history: window {g[3]}, result at {r.time}")
        delivered.append((r, *(np.asarray(x, dtype=float).copy() for x in (r.weights, r.mean, r.covariance))))  # np.array(Series) may not copy
        return True

    for op in spec["ops"] + [["drain", i] for i in range(6)] + [["read"]]:
        if op[0] == "open":
            _, w, rng = op
            times = None if rng is None else list(case.index[rng[0] : rng[1] + 1])
            due = [r for r in oracle.rows(w) if rng is None or rng[0] <= r <= rng[1]]
            with sut("solve"):
                opened.append([iter(comb.solve(window=w, times=times)), due, 0, w])
        elif op[0] in ("next", "drain") and opened:
            g = opened[op[1] % len(opened)]
            if g[0] is not None:
                while advance(g) and op[0] == "drain":
                    pass
        elif op[0] == "close" and opened:
            g = opened[op[1] % len(opened)]
            if g[0] is not None and hasattr(g[0], "close"):
                g[0].close()
                g[0] = None
                ctx.label("abandoned half-way")
        elif op[0] == "fail":
            res = collect(comb.solve(window=op[1], solver="NO_SUCH_SOLVER"), "solve with a solver that is not there")
            due = oracle.rows(op[1])
            require(len(res) == len(due) and all(r is None for r in res), lambda: f"missing solver: expected {len(due)} empty results, got {[type(r).__name__ for r in res]}")
            ctx.label("solver failure in between")
        elif op[0] == "read":
            require(comb.K == case.K, f"K is {comb.K}")
            labels_equal(comb.assets, case.columns, "assets")
            labels_equal(comb.sigmas.keys(), case.keys, "experts")
            close(comb.returns.values, case.returns.values, "returns", rtol=0)
            for k, key in enumerate(case.keys):
                for t, x in comb.sigmas[key].items():
                    close(x.values, case.S[k, oracle.pos[t]], f"sigmas[{key!r}][{t}]", rtol=0)
                    close(comb.means[key][t], case.mu[k, oracle.pos[t]], f"means[{key!r}][{t}]", rtol=0)
        unchanged()
    case_labels(ctx, spec, operations=len(spec["ops"]), solved=steps, switches=interleaved)
    if interleaved:
        ctx.label("interleaved solves")
    if len(opened) > 1:
        ctx.label("several solves")
    ctx.mark(len(opened) > 1 and steps > 2)


# ------------------------------------------------------------------ C17 equivariance


@st.composite
def equi_case(draw, tier):
    spec = draw(solve_case(tier, Tmax=10, big=False))
    spec["factors"] = [round(draw(st.floats(0.02, 50.0)), 4) * draw(st.sampled_from([1, 1, -1])) for _ in range(3)]
    spec["perm"] = draw(st.permutations(list(range(spec["K"]))))
    spec["shift"] = draw(st.sampled_from([0.5, -3.0]))
    return spec


def check_c17(spec, ctx):
    case = Case(spec)
    oracle = case.oracle()
    w = spec["window"]
    n, K = case.n, case.K
    ctx.act()
    base = {row: r for row, r in results_for(case, oracle, w)}
    for row, r in base.items():
        oracle.full(r, w, f"result at {r.time}")
    # (a) asset units
    f = np.array([spec["factors"][j % 3] for j in range(n)])
    sc = Case(spec)
    sc.S = sc.S * np.outer(f, f)
    sc.mu = sc.mu * f
    sc.R = sc.R * f
    sc.returns = sc.returns * f
    scaled = {row: r for row, r in results_for(sc, sc.oracle(), w, "solve in other asset units")}
    # (b) expert order and names
    perm = list(spec["perm"])
    pc = Case(spec)
    pc.S, pc.mu, pc.keys = pc.S[perm], pc.mu[perm], [f"renamed {i}" for i in range(K)]
    permuted = {row: r for row, r in results_for(pc, pc.oracle(), w, "solve with reordered experts")}
    for row, r in base.items():
        A, B, best, fbest = oracle.optimum(row, w)
        for other, inv, what, D in ((scaled, np.arange(K), "other asset units", f), (permuted, np.argsort(perm), "reordered experts", np.ones(n))):
            if row not in other:
                continue
            o = other[row]
            x = np.asarray(o.weights.values, dtype=float)[inv]
            xp = np.maximum(x, 0)
            g = ref.loglik(A, B, xp / xp.sum())
            require(g >= fbest - tolerance(fbest), lambda: f"{what}: weights at {r.time} are {x}, originally {np.asarray(r.weights)}")
            cov, mean = ref.blend(oracle.L[:, row], oracle.nu[:, row], x)
            sd = np.sqrt(np.diag(cov))
            close(o.covariance.values / np.outer(D, D), cov, f"{what}: covariance at {r.time}", rtol=1e-6, atol=1e-6 * np.outer(sd, sd))
            close(o.mean.values / D, mean, f"{what}: mean at {r.time}", rtol=1e-6, atol=1e-6 * (np.abs(oracle.mu[:, row]).max(0) + sd))
    # (c) one expert is returned unchanged
    k = perm[0]
    with sut("from_sigmas with one expert"):
        single = C.from_sigmas({"only": case.sigmas()[case.keys[k]]}, case.returns, None if case.means() is None else {"only": case.means()[case.keys[k]]})
    for r in collect(single.solve(window=w), "solve with one expert"):
        if r is None:
            continue
        s = oracle.pos[r.time]
        require(abs(float(r.weights.iloc[0]) - 1) <= 1e-5, lambda: f"one expert: weight {float(r.weights.iloc[0])!r}")
        sd = np.sqrt(np.diag(case.S[k, s]))
        close(r.covariance.values, case.S[k, s], f"one expert: covariance at {r.time}", rtol=1e-4, atol=1e-4 * np.outer(sd, sd))
        close(r.mean.values, case.mu[k, s], f"one expert: mean at {r.time}", rtol=1e-4, atol=1e-4 * sd)
    case_labels(ctx, spec, window=w, results=len(base))
    ctx.mark(K > 1 and base)


# ------------------------------------------------------------------ C18 availability


@st.composite
def avail_case(draw, tier):
    spec = draw(solve_case(tier, lo=6, Tmax=14, big=False))
    T, K = spec["T"], spec["K"]
    if K == 1:
        spec["K"] = K = 2
        spec["T"] = T = max(T, min_window(spec) + 2)
    spec["start"] = [draw(st.one_of(gen.ints(0, max(T - 3 - min_window(spec), 0)), gen.ints(0, 3))) for _ in range(K)]
    end = draw(st.booleans())
    spec["end"] = [T - draw(gen.ints(0, 2)) if end else T for _ in range(K)]
    return spec


def check_c18(spec, ctx):
    case = Case(spec)
    K, T = case.K, case.T
    lo, hi = max(spec["start"]), min(spec["end"])
    rows = [range(spec["start"][k], spec["end"][k]) for k in range(K)]
    w = spec["window"]
    shared = hi - lo
    if shared - 1 < min_window(spec):
        ctx.label("skipped: too little overlap")
        return
    oracle = Oracle(case.S[:, lo:hi], case.mu[:, lo:hi], case.R[lo:hi], case.index[lo:hi], case.columns, case.keys)
    ctx.act()
    comb = case.build(rows=rows)
    pairs = results_for(case, oracle, w, "solve", comb)
    for row, r in pairs:
        oracle.full(r, w, f"result at {r.time}")
    ragged = len(set(spec["start"])) > 1 or len(set(spec["end"])) > 1
    case_labels(ctx, spec, window=w, shared=shared, results=len(pairs))
    ctx.label("different starts" if len(set(spec["start"])) > 1 else "same start", "different ends" if len(set(spec["end"])) > 1 else "same end")
    if spec["start"][0] != min(spec["start"]):
        ctx.label("first expert starts late")
    ctx.mark(ragged and pairs)


# ------------------------------------------------------------------ C19 solver failures


@st.composite
def fault_case(draw, tier):
    spec = draw(solve_case(tier, lo=5, Tmax=12, big=False))
    spec["window"] = draw(gen.ints(min_window(spec), max(min_window(spec), spec["T"] - 3)))
    spec["faults"] = sorted(draw(st.sets(gen.ints(0, spec["T"]), min_size=draw(st.sampled_from([1, 1, 2, 0])), max_size=4)))
    spec["how"] = draw(st.sampled_from(["before", "after", "partial", "early"]))
    spec["again"] = draw(st.booleans())
    return spec


def check_c19(spec, ctx):
    case = Case(spec)
    oracle = case.oracle()
    w = spec["window"]
    due = oracle.rows(w)
    plan = {i % len(due) for i in spec["faults"]}
    ctx.act()
    comb = case.build()
    original = cvxpy.Problem.solve
    now = {"i": None, "hit": False}

    def faulty(self, *a, **kw):
        if now["i"] in plan:
            now["hit"] = True
            if spec["how"] == "after":
                original(self, *a, **kw)
            elif spec["how"] == "partial":  # the solver leaves garbage behind before giving up
                for v in self.variables():
                    v.value = np.full(v.shape, 7.0)
            elif spec["how"] == "early":  # the real solver stops after two iterations, without raising
                value = original(self, *a, **{**kw, "solver": "CLARABEL", "max_iter": 2})
                if self.status == cvxpy.USER_LIMIT:
                    return value
            raise cvxpy.SolverError("injected")
        return original(self, *a, **kw)

    failed = ok = 0
    cvxpy.Problem.solve = faulty
    try:
        with sut("solve with injected solver failures"), quiet():
            it = iter(comb.solve(window=w))
        for i, row in enumerate(due):
            now.update(i=i, hit=False)
            with sut("solve with injected solver failures"), quiet():
                r = next(it, "end")
            require(not isinstance(r, str), f"solve ended after {i} of {len(due)} results")
            if i in plan:
                if not now["hit"]:
                    ctx.label("fault not reached")  # results computed ahead of time: nothing to conclude
                    return
                require(r is None, lambda: f"solver failed at {case.index[row]} but a result was reported: {r!r}")
                failed += 1
                continue
            for row2, x in drop_failed([r], oracle, w, [row]):
                require(x.time == case.index[row], lambda: f"result for {x.time!r} where {case.index[row]!r} is due")
                oracle.full(x, w, f"result at {x.time} (failures at steps {sorted(plan)})")
                ok += 1
        now["i"] = None
        with sut("solve with injected solver failures"), quiet():
            require(next(it, "end") == "end", "more results than times")
    finally:
        cvxpy.Problem.solve = original
    if spec["again"]:  # afterwards everything is as if nothing had failed
        for row, r in results_for(case, oracle, w, "solve after failures", comb):
            oracle.full(r, w, f"result at {r.time} after failures")
    case_labels(ctx, spec, window=w, failures=failed, results=ok)
    ctx.label("failures" if failed else "no failure", "how:" + spec["how"])
    if due and {0} <= plan:
        ctx.label("first step fails")
    if len(plan) == len(due):
        ctx.label("every step fails")
    ctx.mark(failed >= 1 and ok >= 1)


B = {"n": 3, "K": 3, "T": 12, "seed": 5, "index": "D", "cols": "abc", "keys": "pair", "spread": 0.4, "wobble": 0.3, "regimes": True, "scale": [-2.0], "shocks": [], "window": 5}
EX = [B, {**B, "window": None}, {**B, "means": "series", "mean_size": 0.5}, {**B, "T": 60, "window": 10}, {**B, "n": 1, "K": 4, "T": 20, "window": 8}, {**B, "K": 1}, {**B, "window": 500}, {**B, "n": 8, "K": 5, "T": 30, "window": 1}, {**B, "T": 140, "window": 120, "means": "array", "mean_size": 0.3}, {**B, "n": 20, "K": 7, "T": 40, "window": 30}, {**B, "T": 110, "window": None, "index": "min"}]


def _with(specs, **kw):
    return [{**s, **kw} for s in specs]


GEN = "Random experts (1-4 of them, 1-6 assets, correlated, time-varying, differing in level and shape), returns drawn from switching experts with shocks, optional means, windows from the shortest solvable to none/capped"

PROPS = {
    "C11": Prop(
        "C11",
        "Combination weights lie on the simplex and maximise the window's likelihood",
        lambda tier: solve_case(tier),
        check_c11,
        GEN + "; each result's weights compared in objective with an independent barrier-Newton optimum; non-trivial: at least 2 experts and 1 result.",
        480,
        4000,
        examples=EX,
        assumptions=["weights are judged by the log-likelihood they reach (tolerance 2e-4 plus 4e-6 relative), sum and sign to 1e-5"],
    ),
    "C12": Prop(
        "C12",
        "The combined covariance and mean are the blend of whitening factors",
        lambda tier: solve_case(tier),
        check_c12,
        GEN + "; covariance and mean recomputed from the reported weights; non-trivial: a result with at least two weights above 0.05.",
        770,
        4000,
        examples=EX,
    ),
    "C13": Prop(
        "C13",
        "The window and requested times decide which results appear",
        schedule_case,
        check_c13,
        GEN + "; solved at all times and at a consecutive subset given as index, list, tuple, array, iterator or series; non-trivial: something is due and the subset is proper.",
        340,
        2080,
        examples=_with(EX[:7], times=[2, 9], times_as="index") + _with(EX[:3], times=[11, 11], times_as="iter") + _with(EX[:3], times=[1, 7], times_as="list"),
    ),
    "C14": Prop(
        "C14",
        "A combined result depends only on its window and today's predictions",
        local_case,
        check_c14,
        GEN + "; all returns and predictions outside what the result at a drawn time may use are replaced by other data; non-trivial: at least 2 experts and something was replaced.",
        370,
        3200,
    ),
    "C15": Prop(
        "C15",
        "Combining EWMA pairs equals combining their reference predictions",
        pipeline_case,
        check_c15,
        "Random returns with outliers, zeros and missing values, 1-4 half-life pairs, warm-ups, clipping, mean adjustment; experts, means, weights and blends compared with the reference pipeline; non-trivial: at least 2 experts and 1 result.",
        570,
        4160,
    ),
    "C16": Prop(
        "C16",
        "Repeated, interleaved and abandoned solves do not influence each other",
        history_case,
        check_c16,
        "Random histories of opening, advancing, draining and abandoning solves with different windows and times on one object, with failing solvers in between; every result checked against the reference; non-trivial: more than one solve and more than two results.",
        430,
        2560,
        examples=[{**B, "T": 8, "ops": [["open", 2, None], ["next", 0], ["open", 4, None], ["next", 1], ["next", 0], ["next", 1], ["fail", 2], ["next", 0], ["drain", 1]]}],
    ),
    "C17": Prop(
        "C17",
        "Combination is equivariant to asset units, expert order and expert names",
        equi_case,
        check_c17,
        GEN + "; solved again in other asset units (negative factors included), with reordered and renamed experts, and with one expert alone; non-trivial: at least 2 experts and 1 result.",
        280,
        2560,
        examples=_with(EX[:3], factors=[7.0, -0.3, 1.5], perm=[2, 0, 1], shift=0.5),
    ),
    "C18": Prop(
        "C18",
        "Experts available at different times are combined over the times they share",
        avail_case,
        check_c18,
        GEN + "; experts with different first and last times; non-trivial: availability differs and there is a result.",
        480,
        4160,
        examples=[{**B, "start": [0, 3, 1], "end": [12, 12, 12]}, {**B, "start": [3, 0, 1], "end": [12, 11, 12]}],
    ),
    "C19": Prop(
        "C19",
        "A solver failure loses only its own time step",
        fault_case,
        check_c19,
        GEN + "; the solver is made to fail at a drawn set of steps (before solving, after solving, or leaving garbage behind); non-trivial: at least one failed and one successful step.",
        440,
        3680,
        examples=_with(EX[:1] + EX[2:3], faults=[0, 2], how="partial", again=True),
    ),
}
