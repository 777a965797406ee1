#!/bin/bash
# The checks build everything they need themselves, from /repo's current tree, in scratch folders; setup only verifies the tools.
set -e
cd "$(dirname "$0")/.."
mkdir -p evidence
for t in gcc autoconf make rsync mpicc mpirun python3-vt; do command -v $t >/dev/null || { echo "missing $t"; exit 3; }; done
python3-vt -c 'import numpy, scipy'
