#!/bin/bash
# nothing to build ahead: every check generates its obligations from /repo's current tree
set -e
cd "$(dirname "$0")"
python3-vt -c 'import z3; print("z3", z3.get_version_string())'
for t in goto-cc goto-instrument cvc5 gcc; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
python3-vt -c 'import sys; sys.path.insert(0,"gvc"); sys.path.insert(0,"specs"); import gvc, driver, units; print(len(units.UNITS), "proof units")'
