#!/bin/bash
# builds every executor from /repo's working tree (offline)
cd "$(dirname "$0")" || exit 2
exec python3 -c "
import sys
sys.path.insert(0, 'lib')
from ndlib import *
build([('pipe', 'simd'), ('pipe', 'naive'), ('nd', 'prod'), ('nd', 'prodnaive'), ('nd', 'simd'), ('nd', 'naive'), ('nodes', 'simd'), ('nodes', 'naive')])
"
