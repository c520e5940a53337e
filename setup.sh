#!/bin/sh
# Nothing to build: TLC and the python interpreter are part of the sandbox.
# Make sure they work and that every specification module parses.
set -e
cd "$(dirname "$0")"
/opt/venv/bin/python -c 'import numpy, h5py, pandas, xarray, dask, zmq'
J=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
cp spec/*.tla "$T"
cd "$T"
for m in *.tla; do
    java -cp "$J" tla2sany.SANY "$m" > "$T/out" 2>&1 || { cat "$T/out"; exit 1; }
done
echo "setup: $(ls *.tla | wc -l) modules parse"
