"""python3 tools/refactor.py [ids] -- quick checks on copies of /repo with behaviour-preserving edits (tools/refactors.py)."""
import os
import shutil
import subprocess
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(__file__))
from refactors import M

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
want = set(sys.argv[1:])
for name, checks, edits in M:
    if want and name not in want:
        continue
    with tempfile.TemporaryDirectory(prefix="refactor") as td:
        repo = td + "/repo"
        shutil.copytree("/repo", repo, symlinks=True)
        for f, old, new in edits:
            text = open(f"{repo}/{f}").read()
            if text.count(old) != 1:
                sys.exit(f"{name}: {text.count(old)} matches for {old[:70]!r}")
            open(f"{repo}/{f}", "w").write(text.replace(old, new))
        env = {**os.environ, "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg"}
        t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "tests", "-q", "-x", "-p", "no:cacheprovider"], cwd=repo, env=env, capture_output=True, text=True)
        print(name, "tests", "ok" if t.returncode == 0 else t.stdout[-300:], flush=True)
        for c in checks.split():
            t0 = time.time()
            r = subprocess.run([HERE + "/check", c, "--seed", os.environ.get("VERIF_SEED", "1")], env={**env, "PBT_REPO": repo, "PBT_OUT": td}, capture_output=True, text=True)
            if r.returncode:
                print(f"  {c} NOT QUIET rc={r.returncode} {time.time() - t0:.0f}s {r.stdout[:220]}", flush=True)
        print(name, "done", flush=True)
