#!/bin/bash
# Nothing is compiled ahead of time: every check builds from /repo's working tree. This verifies the tools.
set -e
cd "$(dirname "$0")/.."
clang++-18 --version | head -1
llvm-link-18 --version | head -2 | tail -1
test -x /usr/lib/llvm-18/bin/opt
python3-vt -B -c "
import sys; sys.path.insert(0,'.')
import z3
from symex import engine, backend, build, ir
from checks.props import PROPS
print('z3', z3.get_version_string(), len(PROPS), 'properties')"
mkdir -p evidence
