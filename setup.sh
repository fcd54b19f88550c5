#!/bin/sh
# compile the Java side of module Num; everything else is interpreted
cd "$(dirname "$0")" && exec python3 -B -c "import sys; sys.path.insert(0, 'tools'); import vt; vt.build()"
