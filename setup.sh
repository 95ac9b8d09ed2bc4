#!/bin/bash
# builds the IR front end and primes the dumps of the current sources
set -e
cd "$(dirname "$0")"
python3 - <<'P'
import sys
sys.path.insert(0, '.')
from sa import core
from checks import vecspec, meshspec, geomspec, bvhspec, ompspec, iospec, E01
core.lib()
for m in (vecspec, meshspec, geomspec, bvhspec, ompspec, iospec):
    m.program()
geomspec.program2()
for k, (name, flags) in enumerate(E01.CONFIGS):
    E01.program(k, flags)
P
