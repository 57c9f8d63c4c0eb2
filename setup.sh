#!/bin/bash
# builds the symbolic executor (offline; clang/LLVM 18 and z3 are part of the sandbox)
set -e
cd "$(dirname "$0")"
make -C engine -j8
