#!/bin/bash
# nothing to build ahead: every check rebuilds from /repo; this only verifies the tools are there
set -e
for t in python3 goto-cc goto-instrument cbmc gcc z3; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
mkdir -p "$(dirname "$0")/../evidence/replay"
