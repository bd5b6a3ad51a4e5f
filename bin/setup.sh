#!/bin/bash
# nothing to fetch or compile: check the two interpreters and the solvers, and create the output folders
set -e
cd "$(dirname "$0")/.."
mkdir -p evidence replay
python3-vt -c 'import z3; s=z3.Solver(); x=z3.Int("x"); s.add(x>x); assert s.check()==z3.unsat'
/opt/venv/bin/python -c 'import numpy, pandas, scipy, sys; sys.path.insert(0,"/repo"); import anticipy.forecast'
command -v cvc5 >/dev/null && echo ok
