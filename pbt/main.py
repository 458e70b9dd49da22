"""./check ID [--tier T] [--seed N] [--replay FILE]"""

import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
NSHARDS = 8


def _import():
    from pbt import bootstrap

    bootstrap.install()
    import warnings

    warnings.simplefilter("ignore")
    import numpy as np

    np.seterr(all="ignore")


def load(pid):
    from pbt import registry

    mod = importlib.import_module(registry.MODULES[pid])
    warn()
    return mod.PROPS[pid]


def warn():
    import warnings

    warnings.simplefilter("ignore")


class Recorder:
    def __init__(self):
        self.evals = 0
        self.labels = {}
        self.nontrivial = set()
        self.samples = []

    def add(self, spec, ctx):
        from pbt.core import canon

        self.evals += 1
        for name in ctx.labels:
            self.labels[name] = self.labels.get(name, 0) + 1
        if ctx.nontrivial:
            h = hashlib.blake2b(canon(spec).encode(), digest_size=12).hexdigest()
            if h not in self.nontrivial:
                self.nontrivial.add(h)
                if len(self.samples) < 3 and len(self.nontrivial) in (1, 7, 23):
                    self.samples.append({"case": spec, "observed": ctx.note, "labels": sorted(ctx.labels)})


def run_case(prop, spec, rec=None):
    """Runs one case. Returns None, or the violation text. Raises on errors of the harness itself."""
    from pbt.core import Abort, Ctx, Violation

    ctx = Ctx()
    try:
        prop.check(spec, ctx)
    except Abort:
        raise
    except Violation as e:
        return f"{e}"
    except (MemoryError, RecursionError):
        raise
    except Exception as e:
        if not ctx.acting:
            raise
        tb = traceback.extract_tb(e.__traceback__)[-1]
        return f"output not usable by the oracle: {type(e).__name__}: {str(e)[:300]} ({os.path.basename(tb.filename)}:{tb.lineno})"
    finally:
        if rec is not None:
            rec.add(spec, ctx)
    return None


class _Fail(Exception):
    pass


def shard(prop, tier, seed, idx, conn, stop, gen_limit, shrink_limit):
    out = {"idx": idx, "error": None, "fail": None, "exhausted": False}
    rec = Recorder()
    start = time.monotonic()
    history = []
    best = {}

    def one(spec):
        spec = json.loads(json.dumps(spec))
        history.append(spec)
        msg = run_case(prop, spec, rec)
        if msg is not None:
            if "first" not in best:
                best["first"] = len(history)
                best["t"] = time.monotonic()
                best["history"] = history[:]
                best["first_msg"] = msg
            size = len(json.dumps(spec))
            if "spec" not in best or size <= best["size"]:
                best.update(spec=spec, size=size, msg=msg)
            raise _Fail(msg)

    try:
        from hypothesis import HealthCheck, Phase, Verbosity, given, settings
        from hypothesis import seed as hseed

        from pbt.core import Abort

        try:
            for ex in prop.examples[idx::NSHARDS]:
                one(ex)
            n = prop.quick if tier == "quick" else prop.thorough
            n = max(int(n * float(os.environ.get("PBT_SCALE", "1"))), 1)  # mutation sweeps only
            s = int.from_bytes(hashlib.sha256(f"{seed}/{prop.id}/{idx}/{tier}".encode()).digest()[:8], "big")

            @hseed(s)
            @settings(
                max_examples=n,
                database=None,
                deadline=None,
                phases=(Phase.generate, Phase.shrink),
                report_multiple_bugs=False,
                verbosity=Verbosity.quiet,
                print_blob=False,
                suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large, HealthCheck.large_base_example],
            )
            @given(prop.strategy(tier))
            def body(spec):
                now = time.monotonic()
                if "t" in best and now - best["t"] > shrink_limit:
                    raise Abort
                if "t" not in best and (now - start > gen_limit or stop.is_set()):
                    out["exhausted"] = now - start > gen_limit
                    raise Abort
                one(spec)

            body()
        except (_Fail, Abort):
            pass
        except BaseException as e:
            # Hypothesis wraps (Flaky, groups): with a recorded failure it is that failure, else an error of the check.
            if "spec" not in best:
                raise e
        if "spec" in best:
            stop.set()
            out["fail"] = best
    except BaseException:
        out["error"] = traceback.format_exc()
        stop.set()
    out.update(evals=rec.evals, labels=rec.labels, nontrivial=sorted(rec.nontrivial), samples=rec.samples)
    try:
        conn.send(out)
        conn.close()
    finally:
        sys.stdout.flush()
        os._exit(0)


def _seq_child(prop, seq, conn):
    msg = None
    try:
        for spec in seq:
            msg = run_case(prop, spec)
            if msg is not None:
                break
        conn.send(("ok", msg))
    except BaseException:
        conn.send(("error", traceback.format_exc()))
    conn.close()
    os._exit(0)


def in_fresh_process(prop, seq, timeout=240):
    ctx = mp.get_context("fork")
    a, b = ctx.Pipe(False)
    p = ctx.Process(target=_seq_child, args=(prop, seq, b))
    p.start()
    b.close()
    res = ("error", "timeout")
    try:
        if a.poll(timeout):
            res = a.recv()
    except EOFError:
        res = ("error", "died")
    if p.is_alive():
        p.kill()
    p.join()
    return res


def confirm(prop, best, until):
    """A short sequence of cases that fails when replayed in a fresh process, or None."""
    hist = best["history"]

    def fails(seq):
        left = until - time.monotonic()
        st, msg = in_fresh_process(prop, seq, min(left, 240)) if left > 1 else ("late", None)
        return msg if st == "ok" else None

    for seq in ([best["spec"]], [hist[-1]]):
        msg = fails(seq)
        if msg:
            return seq, msg
    k = 1
    while k < len(hist):
        k = min(2 * k, len(hist))
        seq = hist[-k:]
        msg = fails(seq)
        if msg:
            break
    else:
        return None
    # the failing case stays last; remove ever smaller blocks of what runs before it, as time allows
    size = max((len(seq) - 1) // 2, 1)
    stop = min(until, time.monotonic() + 60)
    while len(seq) > 1 and time.monotonic() < stop:
        i, removed = 0, False
        while i < len(seq) - 1 and time.monotonic() < stop:
            cand = seq[:i] + seq[min(i + size, len(seq) - 1) :]
            m2 = fails(cand)
            if m2:
                seq, msg, removed = cand, m2, True
            else:
                i += size
        if size == 1 and not removed:
            break
        size = max(size // 2, 1)
    return seq, msg


def write_evidence(prop, tier, seed, outs, wall, violations, notes):
    labels = {}
    nontriv = set()
    samples = []
    for o in outs:
        for k, v in o["labels"].items():
            labels[k] = labels.get(k, 0) + v
        nontriv.update(o["nontrivial"])
        samples.extend(o["samples"][: max(1, 5 // max(1, len(outs)))])
    ev = {
        "property": prop.id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(o["evals"] for o in outs),
            "distinct_nontrivial": len(nontriv),
            "rule": prop.rule,
            "samples": samples[:6],
            "class_counts": dict(sorted(labels.items())),
            "fixed_examples": len(prop.examples),
            "shards": len(outs),
            "budget_exhausted": any(o["exhausted"] for o in outs),
        },
        "assumptions": prop.assumptions,
        "wall_s": round(wall, 2),
        "violations": violations,
    }
    if notes:
        ev["coverage"]["notes"] = notes
    out = Path(os.environ.get("PBT_OUT", ROOT)) / "evidence"
    out.mkdir(parents=True, exist_ok=True)
    p = out / f"{prop.id}.json"
    tmp = p.with_suffix(".tmp")
    tmp.write_text(json.dumps(ev, indent=1, default=str) + "\n")
    os.replace(tmp, p)
    return ev


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    try:
        seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.monotonic()
    try:
        _import()
        prop = load(a.id)
    except BaseException:
        traceback.print_exc()
        print(f"ERROR property={a.id}: the check could not be loaded")
        return 2

    if a.replay:
        data = json.loads(Path(a.replay).read_text())
        for spec in data["sequence"]:
            msg = run_case(prop, spec)
            if msg:
                print(msg)
                print(f"VIOLATION property={prop.id} replay={a.replay}")
                return 1
        print(f"replay of {a.replay}: property {prop.id} held")
        return 0

    gen_limit, shrink_limit = (330, 45) if tier == "quick" else (760, 60)
    if os.environ.get("PBT_NOSHRINK"):  # mutation sweeps only
        shrink_limit = 0
    ctx = mp.get_context("fork")
    stop = ctx.Event()
    jobs = []
    for i in range(NSHARDS):
        r, w = ctx.Pipe(False)
        p = ctx.Process(target=shard, args=(prop, tier, seed, i, w, stop, gen_limit, shrink_limit))
        p.start()
        w.close()
        jobs.append((i, p, r))
    outs, errors = [], []
    hard = t0 + gen_limit + shrink_limit + 200
    for i, p, r in jobs:
        try:
            if r.poll(max(0.1, hard - time.monotonic())):
                outs.append(r.recv())
            else:
                errors.append(f"shard {i}: no answer in time")
        except EOFError:
            errors.append(f"shard {i}: died (exit {p.exitcode})")
        if p.is_alive():
            p.join(2)
        if p.is_alive():
            p.kill()
        p.join()
    fails = [o["fail"] for o in outs if o["fail"]]
    errors += [f"shard {o['idx']}:\n{o['error']}" for o in outs if o["error"]]
    rc, notes = 0, []
    if fails:
        best = min(fails, key=lambda b: b["size"])
        got = None
        t_confirm = time.monotonic() + 180
        for b in sorted(fails, key=lambda b: b["size"]):
            got = confirm(prop, b, t_confirm)
            if got:
                break
        if got is None:
            # Seen against the real code, but tied to the state of that one process: the whole history is the replay file.
            notes.append("no replay in a fresh process reproduces the failure; the replay file holds the history that led to it")
            print(f"property={prop.id}: seen once, not reproduced in a fresh process")
            best = min(fails, key=lambda b: b["first"])
            got = best["history"], best["first_msg"]
        seq, msg = got
        rep = Path(os.environ.get("PBT_OUT", ROOT)) / "replays"
        rep.mkdir(parents=True, exist_ok=True)
        name = hashlib.sha256(json.dumps(seq, sort_keys=True).encode()).hexdigest()[:10]
        path = rep / f"{prop.id}-{name}.json"
        path.write_text(json.dumps({"property": prop.id, "message": msg, "sequence": seq}, indent=1) + "\n")
        print(msg)
        print(f"replay with: ./check {prop.id} --replay {path}")
        print(f"VIOLATION property={prop.id} replay={path}")
        rc = 1
    elif errors:
        rc = 2
    ev = write_evidence(prop, tier, seed, outs, time.monotonic() - t0, 1 if rc == 1 else 0, notes)
    for e in errors:
        print(e, file=sys.stderr)
    if rc == 2 and errors:
        print(f"ERROR property={prop.id}: {len(errors)} shard(s) failed")
    c = ev["coverage"]
    print(
        f"{prop.id} {prop.title}: tier={tier} seed={seed} evaluations={c['evaluations']} "
        f"distinct_nontrivial={c['distinct_nontrivial']} wall={ev['wall_s']}s violations={ev['violations']}"
    )
    if a.v:
        for k, v in c["class_counts"].items():
            print(f"   {k:40s} {v}")
    return rc


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
