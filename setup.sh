#!/bin/bash
# builds the MIR driver and warms the caches; every check repeats what it needs by itself
cd "$(dirname "$0")" && exec /opt/veriftools/pyvenv/bin/python3 -c "
import sys; sys.path.insert(0, '.')
from vkit import build
build.program(); print('program encoded')"
