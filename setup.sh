#!/bin/bash
# nothing to build: the checks are Python and import the code from /repo at run time
set -e
cd "$(dirname "$0")"
/opt/venv/bin/python -c "import sys; import cdd, sympy, numpy, scipy; print('ok', sys.version.split()[0])"
mkdir -p evidence
