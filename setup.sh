#!/bin/bash
# Nothing to build: checks that the interpreter and the code under test can be imported.
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
PYTHONPATH="${MTLN_REPO:-/repo}/python:$PWD" /opt/venv/bin/python -B -W ignore -c "
import numpy, scipy, sympy
import src.mtl, src.mtln, src.networks, src.jsonParser
import lib.core, lib.refsim
print('ready', numpy.__version__, scipy.__version__)"
