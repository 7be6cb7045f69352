#!/bin/bash
# nothing to build: tespy is pure python and imported from /repo/src
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
/opt/venv/bin/python -B - <<'P'
import sys
sys.path.insert(0, ".")
from vf import env
env.add_hypothesis_path()
import hypothesis, tespy
assert tespy.__file__.startswith(env.REPO), tespy.__file__
print("hypothesis", hypothesis.__version__, "tespy from", tespy.__file__)
P
