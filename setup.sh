#!/bin/bash
# Nothing to install: check that the tools the verifier needs are there.
set -e
for t in clang++ opt llvm-link python3-vt cvc5; do command -v $t >/dev/null || command -v $t-18 >/dev/null || { echo "missing $t"; exit 1; }; done
python3-vt -c 'import z3'
echo ok
