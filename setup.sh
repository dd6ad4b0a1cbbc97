#!/bin/bash
# nothing to build: the checks read /repo's sources directly; verify that the interpreter and the solver are there
cd "$(dirname "$0")" || exit 1
. ./env.sh
/opt/venv/bin/python -c "import symx.core, jax, scipy; print('z3', symx.core.z3.get_version_string())"
