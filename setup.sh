#!/bin/bash
# nothing to compile ahead of time: every check extracts the functions from /repo's current tree on each run
cd "$(dirname "$0")" || exit 1
for t in clang++-18 opt-18 llvm-cxxfilt-18 /opt/veriftools/pyvenv/bin/python3; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
mkdir -p evidence
/opt/veriftools/pyvenv/bin/python3 -m compileall -q irv specs check.py >/dev/null 2>&1
exit 0
