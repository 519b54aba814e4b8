#!/bin/sh
# Checks the tools the framework needs and builds the generator once.
set -e
cd "$(dirname "$0")"
for t in python3 gcc g++ clang clang++ cmake ninja objcopy; do command -v $t >/dev/null || { echo "missing tool: $t"; exit 1; }; done
python3 -B -c "
from vlib import build
print(build.build('plain'))"
