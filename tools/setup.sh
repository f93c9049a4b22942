#!/bin/bash
# Checks build what they need themselves; this only proves that they can.
set -e
d=$(mktemp -d)
trap 'rm -r "$d"' EXIT
gcc -O1 -shared -fPIC -o "$d/libsimfs.so" "$(dirname "$0")/../vsim/shim/simfs.c" -ldl
/opt/venv/bin/python -c 'import numpy, scipy, skimage, h5py, PIL, matplotlib, cv2'
echo ready
