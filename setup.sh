#!/bin/bash
# Nothing to compile: checks import /repo's working tree.  Only verify that the interpreter and the libraries are there.
cd "$(dirname "$0")" || exit 2
mkdir -p out evidence
"${VERIF_PYTHON:-/opt/venv/bin/python}" -c 'import cvxpy, clarabel, numpy, pandas, scipy, tqdm, matplotlib, sys; assert sys.version_info >= (3, 12)'
