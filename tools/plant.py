#!/usr/bin/env python3
"""Builds and validates planted bugs: python3 tools/plant.py [ids...]  (needs a clean /repo; works on a scratch copy).

Reads tools/plants_*.py, writes seeded/<id>/, and prints for each: tests, demo clean/patched, check verdict."""

import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT / "tools"))
PY = "/opt/venv/bin/python"
ENV = {**os.environ, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "MPLBACKEND": "Agg", "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1"}
SH = '#!/bin/bash\n# cwd: the repository. Exit 0: behaves as it should. Nonzero: broken.\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1\nexec /opt/venv/bin/python -B -W ignore "$(dirname "$0")/demo.py"\n'
HEAD = "import os, sys\nsys.path.insert(0, os.getcwd())\nimport numpy as np\nimport pandas as pd\n"


def sh(cmd, cwd, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, timeout=timeout, shell=isinstance(cmd, str))


def main():
    plants = []
    for f in sorted((ROOT / "tools").glob("plants_*.py")):
        plants += importlib.import_module(f.stem).PLANTS
    want = set(sys.argv[1:])
    for p in plants:
        if want and p["id"] not in want and p["property"] not in want:
            continue
        with tempfile.TemporaryDirectory(prefix="plant") as td:
            repo = Path(td) / "repo"
            shutil.copytree("/repo", repo, symlinks=True)
            d = ROOT / "seeded" / p["id"]
            d.mkdir(parents=True, exist_ok=True)
            (d / "demo.py").write_text(HEAD + p["demo"])
            (d / "demo.sh").write_text(SH)
            os.chmod(d / "demo.sh", 0o755)
            (d / "meta.json").write_text(json.dumps({"property": p["property"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, indent=1) + "\n")
            clean = sh(["bash", str(d / "demo.sh")], repo)
            for file, old, new in p["edits"]:
                s = (repo / file).read_text()
                assert s.count(old) == 1, (p["id"], s.count(old), old)
                (repo / file).write_text(s.replace(old, new))
            diff = sh("git diff", repo).stdout
            (d / "patch.diff").write_text(diff)
            tests = sh([PY, "-m", "pytest", "tests", "-q", "-p", "no:cacheprovider", "-x"], repo)
            bad = sh(["bash", str(d / "demo.sh")], repo)
            env = {**ENV, "PBT_REPO": str(repo), "PBT_OUT": td, "VERIF_SEED": os.environ.get("VERIF_SEED", "1")}
            got = []
            for pid in [p["property"]] + p.get("also", []):
                c = subprocess.run([str(ROOT / "check"), pid], env=env, capture_output=True, text=True, timeout=900)
                tail = c.stdout.strip().splitlines()
                msg = next((x for x in tail if not x.startswith(("VIOLATION", "replay"))), "")
                got.append(f"{pid}:{['MISSED', 'caught', 'ERROR'][c.returncode]} {tail[-1].split('evaluations')[-1] if tail else c.stderr[-300:]} | {msg[:110]}")
            ok = tests.returncode == 0 and clean.returncode == 0 and bad.returncode != 0
            print(("OK  " if ok else "BAD ") + p["id"], f"tests={tests.returncode} demo={clean.returncode}/{bad.returncode}", "; ".join(got), flush=True)
            if not ok:
                print(tests.stdout[-500:] if tests.returncode else "", clean.stderr[-500:], bad.stdout[-200:])
                shutil.rmtree(d)


main()
