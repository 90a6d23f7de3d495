#!/bin/bash
# nothing to build: the verifier is Python, the extraction runs on every check
set -e
cd "$(dirname "$0")"
python3-vt -c 'import z3; print(z3.get_version_string())'
clang++-18 --version | head -1
/usr/lib/llvm-18/bin/opt --version | head -2
mkdir -p evidence
