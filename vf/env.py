"""Process environment: determinism, scratch directories, import paths.

Import this before numpy / tespy.  Nothing here writes outside a scratch
directory that the runner creates and removes.
"""
import os
import sys

REPO = os.environ.get("VF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

for _k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS",
           "NUMEXPR_NUM_THREADS"):
    os.environ[_k] = "1"
os.environ.setdefault("PYTHONHASHSEED", "0")
os.environ.setdefault("TQDM_DISABLE", "1")
sys.dont_write_bytecode = True

# the code under test is always /repo's working tree
_src = os.path.join(REPO, "src")
if _src not in sys.path:
    sys.path.insert(0, _src)

# third party packages may use their bytecode; tespy is always compiled from
# source, so that no stale .pyc can hide a change
import numpy  # noqa: E402,F401
import pandas  # noqa: E402,F401
import scipy.interpolate  # noqa: E402,F401
import scipy.optimize  # noqa: E402,F401
import CoolProp  # noqa: E402,F401
import tabulate  # noqa: E402,F401
sys.pycache_prefix = "/nonexistent-vf"


def add_hypothesis_path():
    try:
        import hypothesis  # noqa: F401
        return
    except ImportError:
        pass
    for cand in (
        os.path.join(VERIF, "vendor"),
        "/opt/veriftools/pyvenv/lib/python3.12/site-packages",
    ):
        if os.path.isdir(os.path.join(cand, "hypothesis")):
            sys.path.append(cand)
            return
    import glob
    for whl in glob.glob("/opt/veriftools/wheels/hypothesis-*.whl"):
        sys.path.append(whl)
    for whl in glob.glob("/opt/veriftools/wheels/sortedcontainers-*.whl"):
        sys.path.append(whl)


def quiet():
    """Silence tespy's logging and python warnings."""
    import logging
    import warnings
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    import numpy as np
    np.seterr(all="ignore")
