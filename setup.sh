#!/bin/bash
# Nothing to install: checks that the interpreter and the sources are there, and that they build.
. /opt/vp/env.sh
cd "$(dirname "$0")" || exit 1
exec /opt/venv/bin/python - <<'PY'
import shutil, sys, tempfile
sys.path.insert(0, ".")
from mc import build, meta
d = tempfile.mkdtemp(prefix="mc_setup_")
try:
    build.copy_tree(d)
    build.build(d)
finally:
    shutil.rmtree(d, ignore_errors=True)
print("setup: the working tree builds;", len(meta.META), "checks")
PY
