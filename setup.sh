#!/bin/bash
# Nothing is compiled ahead of time: every check extracts /repo's current source itself.
set -e
cd "$(dirname "$0")"
python3-vt -c "import z3, numpy; print('z3', z3.get_version_string())"
clang --version | head -1
mkdir -p evidence
