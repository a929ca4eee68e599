#!/bin/bash
# Nothing is downloaded or installed: check that the tools the framework needs are present.
set -e
cd "$(dirname "$0")"
for t in /usr/bin/clang++-18 opt-18 g++ cvc5 /opt/veriftools/pyvenv/bin/python3; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
/opt/veriftools/pyvenv/bin/python3 -c "
import sys; sys.path[:0]=['irvc','props']
import z3, contract, registry
print('z3', z3.get_version_string(), 'properties', len(registry.PROP_MODULE))"
mkdir -p evidence/replay
