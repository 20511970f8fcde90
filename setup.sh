#!/bin/bash
# nothing is compiled: the checks are Python; fail early if an interpreter or a solver is missing
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -W ignore -c "
from sv import pyvc
import z3, numpy
s = z3.Solver(); x = z3.Int('x'); s.add(x > 0, x < 1); assert s.check() == z3.unsat
print('z3', z3.get_version_string())"
