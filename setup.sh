#!/bin/bash
# Nothing to build ahead: every check makes its own copy of the package. Check that the tools are there.
set -e
cd "$(dirname "$(readlink -f "$0")")"
mkdir -p evidence replays
test -f /opt/veriftools/tla/tla2tools.jar
test -f /opt/veriftools/tla/CommunityModules-deps.jar
/opt/venv/bin/python -c "import numpy, scipy, dask, xarray, Cython"
cd specs
for m in *.tla; do
    out=$(java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" 2>&1) || { echo "$out"; exit 1; }
done
echo "setup ok"
