#!/bin/bash
# nothing to build ahead of time (every check compiles what it needs from /repo); verify that the tools are there
set -e
cd "$(dirname "$0")"
command -v clang++-18 >/dev/null
/opt/veriftools/pyvenv/bin/python -c "import z3; print('z3', z3.get_version_string())"
/opt/veriftools/pyvenv/bin/python -m compileall -q vc
mkdir -p evidence/replay
