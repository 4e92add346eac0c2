#!/bin/bash
# Nothing to compile: verify the toolchain and that the checks can be loaded offline.
cd "$(dirname "$(readlink -f "$0")")" || exit 1
PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 "$PY" - <<'PY'
import sys
sys.path.insert(0, ".")
from mc import engine
engine.import_repo()
import numpy, scipy, mpmath
print("numpy", numpy.__version__, "scipy", scipy.__version__, "mpmath", mpmath.__version__)
PY
