#!/bin/bash
# Nothing to build: the checks import /repo's working tree directly. Verify the tools are there.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python - <<'P'
import sys
sys.path.insert(0, "/verif")
from vp import engine
import z3
x = z3.Real("x")
s = z3.Solver(); s.add(x > 1, x < 1)
assert s.check() == z3.unsat
print("z3", z3.get_version_string())
P
