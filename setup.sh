#!/bin/bash
# Nothing to build: the checks import /repo's working tree and translate it on
# every run.  Verify that the interpreter, the solver and the imports are there.
set -eu
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
cd "$(dirname "$0")"
mkdir -p evidence
/opt/venv/bin/python - <<'PY'
import sys
sys.path.insert(0, ".")
from vp import sym, clock, lua, redis_model, vloop, ctx, explore
import docket
assert docket.__file__.startswith("/repo/src/"), docket.__file__
print("z3", sym.z3.get_version_string(), "docket from", docket.__file__)
PY
