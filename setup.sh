#!/bin/bash
# Builds the system-call fault shim; everything else is Python.
set -e
cd "$(dirname "$0")"
mkdir -p build
if [ -f shim/faultfs.c ]; then
  gcc -O2 -shared -fPIC -Wall -o build/faultfs.so shim/faultfs.c -ldl -lpthread
fi
/opt/venv/bin/python -c "import numpy, xarray, netCDF4, pooch, anytree"
