#!/bin/bash
# Builds the driver(s) once; every check builds again from /repo's working tree (incrementally).
cd "$(dirname "$0")" || exit 1
mkdir -p build evidence
python3 -c 'import sys; sys.dont_write_bytecode = True; sys.path.insert(0, "lib"); import vf, shim; vf.build_driver(); shim.build()'
