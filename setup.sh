#!/bin/bash
# nothing to build: checks that the interpreter, Z3 and qetpy are importable
cd "$(dirname "$0")"
export PYTHONDONTWRITEBYTECODE=1
mkdir -p evidence
exec /opt/venv/bin/python -W ignore -c "
import run
run.load()
from symqet.engine import z3
print('z3', z3.get_version_string())"
