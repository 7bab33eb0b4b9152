#!/bin/bash
# Nothing is compiled: the checks are Python and import the package from /repo/src. Verify that they can.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence
export PYTHONPATH=$PWD:/repo/src PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
/opt/venv/bin/python -W ignore -c "import vt.core, numpy, pyomo.environ, matplotlib, sympy; print('ready')"
