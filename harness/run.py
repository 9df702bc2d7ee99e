#!/usr/bin/env python3
"""
Entry point of every check:  run.py <PROPERTY> [--tier quick|thorough] [--replay FILE]

Exit 0: the monitors of the property saw no violation.  Exit 1 with a line
`VIOLATION property=<id> replay=<path>`: they did.  Exit 2: inconclusive (harness
error, watchdog, or a monitor that was never reached).
"""
import os
import shutil
import sys
import tempfile

PY = os.environ.get("VERIF_PY", "/opt/venv/bin/python")
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")


def main():
    if os.environ.get("VERIF_CHILD") != "1":
        # Fresh interpreter: code comes from the working tree (never from stale
        # byte code), headless plotting, single threaded linear algebra.
        import subprocess
        scratch = tempfile.mkdtemp(prefix="verif_")
        env = dict(os.environ)
        env.update(
            VERIF_CHILD="1", VERIF_SCRATCH=scratch, PYTHONPATH=REPO,
            PYTHONPYCACHEPREFIX=os.path.join(scratch, "pyc"), PYTHONHASHSEED="0",
            MPLBACKEND="Agg", MPLCONFIGDIR=os.path.join(scratch, "mpl"),
            OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1",
            PYTHONWARNINGS="ignore", TZ="UTC", LC_ALL="C.UTF-8",
        )
        try:
            rc = subprocess.call([PY, os.path.abspath(__file__)] + sys.argv[1:], env=env, cwd=HERE)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        sys.exit(rc if rc in (0, 1) else 2)

    sys.path.insert(0, HERE)
    from lib import core
    sys.exit(core.main(sys.argv[1:]))


if __name__ == "__main__":
    main()
