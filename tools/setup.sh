#!/bin/bash
# Nothing is built: the verifier is Python and reads /repo/src on every run.  Check that its tools are present.
set -e
cd "$(dirname "$0")/.."
python3-vt -B -c 'import z3, mpmath; print("z3", z3.get_version_string())'
/opt/venv/bin/python -B -c 'import numpy, scipy, matplotlib; print("numpy", numpy.__version__)'
