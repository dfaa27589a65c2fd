#!/bin/bash
# Nothing is built ahead of time (every check compiles /repo's sources itself):
# only make sure the tools are there.
set -e
for t in cbmc goto-cc goto-instrument gcc z3; do command -v $t >/dev/null || { echo "missing: $t"; exit 1; }; done
python3 -c 'import json'
mkdir -p "$(dirname "$0")/../evidence"
echo ready
