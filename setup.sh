#!/bin/sh
# nothing to build: checks that the interpreters and solvers are there
set -e
cd "$(dirname "$0")"
mkdir -p evidence
/opt/veriftools/pyvenv/bin/python -c "import z3; print('z3', z3.get_version_string())"
/opt/venv/bin/python -c "import sys; print(sys.version)"
