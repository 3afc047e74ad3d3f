#!/bin/bash
# Nothing to compile: verifies that the interpreter, Hypothesis and corgidrp from /repo's tree are importable.
cd "$(dirname "$0")" && mkdir -p evidence replay && ./run.sh C01 quick --sub construct >/dev/null && echo "setup ok"
