#!/bin/bash
# nothing to build: check that the tools the checks use are present
set -e
python3-vt -c 'import z3, sympy; print("z3", z3.get_version_string(), "sympy", sympy.__version__)'
clang++ --version | head -1
g++ --version | head -1
cvc5 --version | head -1
mkdir -p "$(dirname "$0")/../evidence"
