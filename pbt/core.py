"""Property objects, violations, recording and comparison helpers."""

import contextlib
import json

import numpy as np


class Violation(AssertionError):
    """The code under test broke the property on this input."""


class Abort(KeyboardInterrupt):
    """Stops a generation run (time budget, or another shard already failed). Never a verdict."""


class Ctx:
    """Per-case context: labels, non-triviality and the arrange/act phase."""

    def __init__(self):
        self.labels = set()
        self.nontrivial = False
        self.acting = False
        self.note = {}

    def act(self):
        """From here on inputs are built; any exception is caused by what the code under test did."""
        self.acting = True

    def label(self, *names):
        self.labels.update(names)

    def mark(self, flag=True):
        if flag:
            self.nontrivial = True


class Prop:
    def __init__(self, pid, title, strategy, check, rule, quick, thorough, examples=(), known=None, assumptions=()):
        self.id = pid
        self.title = title
        self.strategy = strategy  # tier -> hypothesis strategy of JSON-able specs
        self.check = check  # (spec, ctx) -> None or raises Violation
        self.rule = rule
        self.quick = quick  # cases per shard
        self.thorough = thorough
        self.examples = list(examples)
        self.assumptions = list(assumptions)


@contextlib.contextmanager
def sut(what):
    """Code under test is running on valid input: an exception is a violation."""
    try:
        yield
    except (Violation, Abort):
        raise
    except Exception as e:
        raise Violation(f"{what}: raised {type(e).__name__}: {str(e)[:300]}") from e


def fail(msg):
    raise Violation(msg)


def require(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def as_float(x, what="value"):
    try:
        return np.asarray(x, dtype=float)
    except Exception as e:
        raise Violation(f"{what}: not numeric ({type(e).__name__}: {e})") from e


def close(got, want, what, rtol=1e-7, atol=0.0):
    """Elementwise |got-want| <= atol + rtol*|want|, equal NaN pattern, equal shape. atol may be an array."""
    g = as_float(got, what)
    w = np.asarray(want, dtype=float)
    if g.shape != w.shape:
        raise Violation(f"{what}: shape {g.shape}, expected {w.shape}")
    if g.size == 0:
        return
    gn, wn = np.isnan(g), np.isnan(w)
    if (gn != wn).any():
        i = tuple(int(k) for k in np.argwhere(gn != wn)[0])
        raise Violation(f"{what}: missing-value pattern differs at {i}: got {g[i]!r}, expected {w[i]!r}")
    with np.errstate(all="ignore"):
        err = np.abs(g - w)
        tol = np.broadcast_to(np.asarray(atol, dtype=float), w.shape) + rtol * np.abs(w)
        same = g == w
        bad = ~(err <= tol) & ~gn & ~same
    if bad.any():
        with np.errstate(all="ignore"):
            score = np.where(bad, err - tol, -np.inf)
        i = tuple(int(k) for k in np.argwhere(bad)[int(np.argmax(score[bad]))])
        raise Violation(f"{what}: at {i} got {float(g[i])!r}, expected {float(w[i])!r} ({int(bad.sum())} of {g.size} differ)")


def labels_equal(got, want, what):
    g, w = list(got), list(want)
    if len(g) != len(w) or any(not (a == b and type(a) is type(b) or _eq(a, b)) for a, b in zip(g, w)):
        raise Violation(f"{what}: labels {_short(g)} expected {_short(w)}")


def _eq(a, b):
    try:
        return bool(a == b) and hash(a) == hash(b)
    except Exception:
        return False


def _short(x):
    s = repr(x)
    return s if len(s) < 300 else s[:300] + "..."


def canon(spec):
    return json.dumps(spec, sort_keys=True, default=_json_default)


def _json_default(o):
    if isinstance(o, np.integer):
        return int(o)
    if isinstance(o, np.floating):
        return float(o)
    if isinstance(o, (np.bool_,)):
        return bool(o)
    raise TypeError(type(o))
