#!/bin/bash
# Nothing has to be compiled: check that the interpreter and the solvers are there.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
mkdir -p evidence
/opt/venv/bin/python - <<'P'
import pyvc.env
import z3, cvc5, sympy, ampform, qrules, attrs
print("z3", z3.get_version_string(), "cvc5", cvc5.__version__, "sympy", sympy.__version__)
P
