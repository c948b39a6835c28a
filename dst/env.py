"""Process environment: must be imported before numpy.

Everything here removes nondeterminism that is outside the simulator: BLAS
threads, hash randomisation, user configuration, and the import path (the code
under test is always /repo/src of the current working tree).
"""

import os
import sys

REPO = os.environ.get("OPINF_VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

FIXED = {
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "MPLBACKEND": "Agg",
    "PYTHONDONTWRITEBYTECODE": "1",
    "HDF5_USE_FILE_LOCKING": "FALSE",
}


def setup():
    for key, val in FIXED.items():
        os.environ[key] = val
    if os.path.isdir("/opt/venv/mplconfig"):
        os.environ.setdefault("MPLCONFIGDIR", "/opt/venv/mplconfig")
    sys.dont_write_bytecode = True
    sys.path[:] = [p for p in sys.path if p not in (SRC, VERIF)]
    sys.path.insert(0, VERIF)
    sys.path.insert(0, SRC)


setup()
