#!/bin/sh
# ./check.sh C01 [quick|thorough]   |   ./check.sh --replay FILE
cd "$(dirname "$0")" && exec python3 -B tools/check.py "$@"
