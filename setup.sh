#!/bin/bash
# Installs hypothesis from the offline wheelhouse for the Python of /repo's
# environment (the checks fall back to other local copies when it is missing).
set -u
cd "$(dirname "$0")"
. /opt/vp/env.sh
if ! PYTHONPATH=.deps "$PY" -c "import hypothesis" 2>/dev/null; then
    "$PY" -m pip install -q --no-index --find-links /opt/veriftools/wheels \
        --no-deps --target .deps hypothesis sortedcontainers || true
fi
exec "$PY" -c "import pbt.deps as d; d.load(); import hypothesis; print('hypothesis', hypothesis.__version__)"
