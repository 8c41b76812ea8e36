#!/bin/bash
# Everything is interpreted: check that the tools are there.
cd "$(dirname "$0")" || exit 2
/opt/venv/bin/python -B - <<'PY'
import sys
sys.path.insert(0, ".")
from dv.values import z3
import sympy, mpmath, lxml, numpy
print("z3", z3.get_version_string(), "sympy", sympy.__version__)
PY
