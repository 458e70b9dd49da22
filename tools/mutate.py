"""Mutation sweep: python3 tools/mutate.py FILE OUT.jsonl [--every K] [--from I] -- runs the file's checks on each mutant.

Works on a scratch copy of /repo (PBT_REPO); nothing is written to /repo. Survivors are read by hand: they are either
equivalent (or outside every property) or show what a check does not reach.
"""

import argparse
import ast
import copy
import json
import os
import shutil
import subprocess
import tempfile
import time

U = "experiments/utils/"
CHECKS = {
    "cvx/covariance/ewma.py": "C05 C04 C02 C01 C03 C10 C09 C07 C08 C06 C23",
    "cvx/covariance/combination.py": "C11 C12 C13 C18 C15 C16 C17 C19 C14 C23",
    "cvx/covariance/regularization.py": "C20 C21 C22 C23",
    U + "iterated_ewma_vec.py": "C24 C28",
    U + "low_rank_ewma.py": "C25",
    U + "experiment_utils.py": "C26 C27 C28 C33",
    U + "return_combination.py": "C29 C30",
    U + "factor_model.py": "C31",
    U + "ccp_regularize.py": "C32",
    U + "trading_model.py": "C34 C35 C36 C37 C33 C38",
    U + "portfolio_backtests.py": "C38",
}
FIRST = {  # the check most likely to notice a change in this function
    "_e_step": "C22", "_m_step": "C22", "_em_low_rank_approximation": "C22", "em_regularize_covariance": "C22",
    "_realized_covariance": "C28", "realized_ewma": "C28", "realized_volas": "C28", "MSE": "C33", "yearly_SR": "C33", "turnover": "C33",
    "from_row_to_covariance": "C33", "from_row_matrix_to_covariance": "C33", "add_to_diagonal": "C33", "ecdf": "C33", "rolling_window": "C26",
    "_single_log_likelihood": "C27", "log_likelihood_low_rank": "C27", "log_likelihood_regularized": "C27", "log_likelihood": "C27",
    "log_likelihood_sequential": "C27", "em_low_rank_log_likelihood": "C27", "ReturnCombinatorOld": "C30", "ewma_return_combination": "C30",
    "_combinator_problem": "C30", "construct_rho": "C33", "solve_risk_parity": "C36", "solve_mean_variance": "C35", "solve_max_diverse": "C36",
    "solve_max_sharpe": "C35", "dilute_with_cash": "C37", "get_risk_adj_returns": "C37", "get_risk_adj_portfolio_growth": "C37",
    "get_total_returns": "C37", "get_portfolio_growth": "C37", "compute_max_drawdown": "C37", "get_metrics": "C37", "_get_causal": "C38",
    "clip": "C03", "center": "C05", "scale_cov": "C04", "from_ewmas": "C15", "_ewma_array": "C28", "get_next_ewma": "C28", "ewma": "C28",
}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult, ast.MatMult: ast.Mult}


def mutants(src):
    """Yields (line, description, new source)."""
    tree = ast.parse(src)
    nodes = list(ast.walk(tree))
    docs = {id(n.value) for n in nodes if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)}

    def emit(i, change, what):
        t = copy.deepcopy(tree)
        n = list(ast.walk(t))[i]
        old = ast.unparse(n)
        try:
            change(n, t)
            ast.fix_missing_locations(t)
            new = ast.unparse(t)
        except Exception:
            return
        if new != ast.unparse(tree):
            yield getattr(nodes[i], "lineno", 0), f"{what}: {old[:90]}", new

    for i, n in enumerate(nodes):
        if id(n) in docs:
            continue
        if isinstance(n, ast.Compare):
            for k, op in enumerate(n.ops):
                if type(op) in CMP:
                    yield from emit(i, lambda m, t, k=k, op=op: m.ops.__setitem__(k, CMP[type(op)]()), "compare")
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            yield from emit(i, lambda m, t, n=n: setattr(m, "op", BIN[type(n.op)]()), "operator")
            if isinstance(n.op, (ast.Mult, ast.Div, ast.Add, ast.Sub, ast.Pow)):
                for side in ("left", "right"):
                    def drop(m, t, side=side):
                        keep = getattr(m, side)
                        for p in ast.walk(t):
                            for f, v in ast.iter_fields(p):
                                if v is m:
                                    setattr(p, f, keep)
                                elif isinstance(v, list) and any(x is m for x in v):
                                    v[:] = [keep if x is m else x for x in v]
                    yield from emit(i, drop, f"keep {side}")
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
            if isinstance(n.value, bool):
                yield from emit(i, lambda m, t: setattr(m, "value", not m.value), "flip")
            else:
                yield from emit(i, lambda m, t: setattr(m, "value", m.value + 1), "plus one")
                if n.value:
                    yield from emit(i, lambda m, t: setattr(m, "value", m.value - 1 if isinstance(m.value, int) else m.value * 0.9), "less")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            def strip(m, t):
                for p in ast.walk(t):
                    for f, v in ast.iter_fields(p):
                        if v is m:
                            setattr(p, f, m.operand)
                        elif isinstance(v, list) and any(x is m for x in v):
                            v[:] = [m.operand if x is m else x for x in v]
            yield from emit(i, strip, "strip unary")
        if isinstance(n, ast.BoolOp):
            yield from emit(i, lambda m, t: setattr(m, "op", ast.Or() if isinstance(m.op, ast.And) else ast.And()), "and/or")
            for k in range(len(n.values)):
                yield from emit(i, lambda m, t, k=k: (m.values.pop(k)), f"drop operand {k}") if len(n.values) > 2 else ()
        if isinstance(n, (ast.If, ast.IfExp)):
            yield from emit(i, lambda m, t: setattr(m, "test", ast.UnaryOp(ast.Not(), m.test)), "negate")
            yield from emit(i, lambda m, t: setattr(m, "test", ast.Constant(True)), "always")
            yield from emit(i, lambda m, t: setattr(m, "test", ast.Constant(False)), "never")
        if isinstance(n, ast.Call):
            for k, kw in enumerate(n.keywords):
                yield from emit(i, lambda m, t, k=k: m.keywords.pop(k), f"drop keyword {kw.arg}")
            if len(n.args) >= 2:
                yield from emit(i, lambda m, t: m.args.__setitem__(slice(0, 2), m.args[1::-1]), "swap arguments")
            if isinstance(n.func, ast.Attribute):  # x.f(...) -> x
                def peel(m, t):
                    keep = m.func.value
                    for p in ast.walk(t):
                        for f, v in ast.iter_fields(p):
                            if v is m:
                                setattr(p, f, keep)
                            elif isinstance(v, list) and any(x is m for x in v):
                                v[:] = [keep if x is m else x for x in v]
                if not (isinstance(n.func.value, ast.Name) and n.func.value.id in ("np", "pd", "cp", "cvx", "plt", "mp", "linalg")):
                    yield from emit(i, peel, "peel call")
        if isinstance(n, ast.Attribute) and n.attr == "T":
            def untr(m, t):
                for p in ast.walk(t):
                    for f, v in ast.iter_fields(p):
                        if v is m:
                            setattr(p, f, m.value)
                        elif isinstance(v, list) and any(x is m for x in v):
                            v[:] = [m.value if x is m else x for x in v]
            yield from emit(i, untr, "untranspose")
        if isinstance(n, ast.Slice):
            for part in ("lower", "upper"):
                if getattr(n, part) is not None:
                    yield from emit(i, lambda m, t, part=part: setattr(m, part, None), f"no {part}")
                    yield from emit(i, lambda m, t, part=part: setattr(m, part, ast.BinOp(getattr(m, part), ast.Add(), ast.Constant(1))), f"{part} + 1")
        body = getattr(n, "body", None)
        if isinstance(body, list):
            for fld in ("body", "orelse"):
                for k, s in enumerate(getattr(n, fld, []) or []):
                    if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr, ast.Assert)) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                        def dele(m, t, k=k, fld=fld):
                            getattr(m, fld)[k] = ast.Pass()
                        for _, w, new in emit(i, dele, "delete statement"):
                            yield s.lineno, f"delete statement: {ast.unparse(s)[:90]}", new


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("file")
    ap.add_argument("out")
    ap.add_argument("--every", type=int, default=1)
    ap.add_argument("--start", type=int, default=0)
    ap.add_argument("--scale", default="0.25")
    ap.add_argument("--only", help="file with indices")
    a = ap.parse_args()
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    tmp = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    repo = os.path.join(tmp, "repo")
    shutil.copytree("/repo", repo, symlinks=True, ignore=shutil.ignore_patterns(".git", "*.ipynb", "results", "data"))
    path = os.path.join(repo, a.file)
    src = open(path).read()
    seen = set()
    allm = []
    for m in mutants(src):
        if m[2] not in seen:
            seen.add(m[2])
            allm.append(m)
    print(len(allm), "mutants", flush=True)
    spans = [(n.lineno, n.end_lineno, n.name) for n in ast.walk(ast.parse(src)) if isinstance(n, (ast.FunctionDef, ast.ClassDef))]
    env = {**os.environ, "PBT_SCALE": a.scale, "PBT_NOSHRINK": "1", "PBT_REPO": repo, "PBT_OUT": os.path.join(tmp, "out")}
    try:
        only = set(map(int, open(a.only).read().split())) if a.only else None
        for i, (line, what, new) in list(enumerate(allm))[a.start :: a.every]:
            if only is not None and i not in only:
                continue
            open(path, "w").write(new)
            t0 = time.time()
            verdict = "SURVIVED"
            order = CHECKS[a.file].split()
            inside = [x for x in sorted(spans) if x[0] <= line <= x[1]]
            for x in inside:
                if FIRST.get(x[2]) in order:
                    order.sort(key=lambda c: c != FIRST[x[2]])
            for c in order:
                try:
                    r = subprocess.run([os.path.join(here, "check"), c, "--tier", "quick"], env=env, capture_output=True, text=True, timeout=200)
                    rc = r.returncode
                except subprocess.TimeoutExpired:
                    rc = "timeout"
                if rc != 0:
                    verdict = f"{c}:{rc}"
                    break
            with open(a.out, "a") as f:
                f.write(json.dumps({"i": i, "line": line, "what": what, "verdict": verdict, "s": round(time.time() - t0, 1)}) + "\n")
    finally:
        shutil.rmtree(tmp)


if __name__ == "__main__":
    main()
