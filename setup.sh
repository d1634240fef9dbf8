#!/bin/bash
# Nothing has to be built: the checks import the Python code of /repo's working tree.
# This only verifies that the interpreter and the libraries the checks rely on are there.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence replay
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="/repo/src:$PWD" /opt/venv/bin/python - <<'P'
import ortools, pandas, yaml, pydantic, antlr4, anytree
import andromede.simulation, mc.core
print("ok")
P
