#!/bin/bash
# Nothing to build: verifies that the interpreter, the library under test and Hypothesis can be imported.
cd "$(dirname "${BASH_SOURCE[0]}")" || exit 2
mkdir -p evidence replays
exec /opt/venv/bin/python -B -W ignore -c "
from pbt import bootstrap; bootstrap.install()
import hypothesis, numpy, pandas, cvxpy
print('hypothesis', hypothesis.__version__, 'numpy', numpy.__version__, 'pandas', pandas.__version__, 'cvxpy', cvxpy.__version__)"
