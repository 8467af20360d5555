#!/bin/bash
# ./run.sh Cxx [--replay FILE]
cd "$(dirname "$0")" && exec python3 vf/run.py "$@"
