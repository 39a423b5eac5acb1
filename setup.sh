#!/bin/bash
# Build the Java overrides and prebuild the library objects (content addressed in .cache); no network.
cd "$(dirname "$0")"
python3 - <<'P'
import sys; sys.path.insert(0, 'lib'); sys.dont_write_bytecode = True
import vf
vf.build_java()
try:
    vf.build(['la.cpp', 'ops_vec.cpp'], 'all')
except vf.CheckError as e:
    print(e, file=sys.stderr)
P
exit 0
