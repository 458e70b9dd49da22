"""Makes the code under test and the property-based-testing library importable.

* /repo is imported from *source* on every run: a path hook for /repo bypasses .pyc files, so a stale bytecode file
  (trusted by mtime and size only) can never hide an edit of the working tree.
* hypothesis and sortedcontainers come from the pre-installed tooling venv (same Python version as /opt/venv, which has
  numpy/pandas/cvxpy); only these two packages are taken from there.
"""

import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

REPO = os.environ.get("PBT_REPO", "/repo")  # the registered commands never set PBT_REPO; scratch experiments do
TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
_TOOL_TOPLEVEL = {"hypothesis", "sortedcontainers", "_hypothesis_ftz_detector", "_hypothesis_globals", "attr", "attrs"}


class _NoCacheLoader(importlib.machinery.SourceFileLoader):
    def path_stats(self, path):
        raise OSError("no bytecode for the code under test")

    def set_data(self, path, data, *, _mode=0o666):
        return None


def _repo_hook(path):
    p = os.path.realpath(path or os.getcwd())
    if p == REPO or p.startswith(REPO + os.sep):
        return importlib.machinery.FileFinder(path, (_NoCacheLoader, importlib.machinery.SOURCE_SUFFIXES))
    raise ImportError


class _ToolFinder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if path is None and name.split(".")[0] in _TOOL_TOPLEVEL:
            return importlib.machinery.PathFinder.find_spec(name, [TOOLS])
        return None


def install():
    sys.dont_write_bytecode = True
    sys.path_hooks.insert(0, _repo_hook)
    sys.path_importer_cache.clear()
    if REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)
    try:
        import hypothesis  # noqa: F401
    except ImportError:
        if os.path.isdir(TOOLS):
            sys.meta_path.append(_ToolFinder())
        import hypothesis  # noqa: F401


def assert_from_repo(module):
    f = os.path.realpath(module.__file__)
    if not f.startswith(REPO + os.sep):
        raise RuntimeError(f"{module.__name__} imported from {f}, not from {REPO}")
