#!/bin/bash
# builds the symbolic execution engine (LLVM pass plugin + runtime) into /verif/build
cd "$(dirname "$0")" && exec python3 check.py --setup
