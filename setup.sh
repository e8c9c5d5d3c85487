#!/bin/bash
# Nothing to build: the checks are Python and import /repo's working tree. Confirms the interpreter works.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python -c 'import sys; sys.path.insert(0, "."); import numpy, networkx, matplotlib, Cython; from mon import common, ref, gens; common.setup_repo()'
