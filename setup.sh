#!/bin/bash
# nothing to build: checks that the solver, the interpreter and the modules under test load
cd "$(dirname "$0")" && mkdir -p evidence
exec /opt/venv/bin/python -W ignore -c "
import sys; sys.dont_write_bytecode = True
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3; print('z3', z3.get_version_string())
sys.path.insert(0, '.')
from symx import harness
harness.load_mods(); print('modules load')
"
