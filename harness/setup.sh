#!/bin/bash
# Nothing to compile: checks that the interpreter and packages the monitors need are there.
set -e
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="${VERIF_REPO:-/repo}" MPLBACKEND=Agg /opt/venv/bin/python - <<'P'
import matplotlib, numpy, pandas, scipy, seaborn, trikit
print("setup ok: numpy", numpy.__version__, "pandas", pandas.__version__, "trikit from", trikit.__file__)
P
