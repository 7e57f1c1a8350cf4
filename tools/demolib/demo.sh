#!/bin/bash
# run with cwd /repo after build.sh: 0 = the property's behaviour is as it should be
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$here:$PYTHONPATH:$PWD/sumo-api"
work=$(mktemp -d)
( cd "$work" && REPO="$OLDPWD" /opt/venv/bin/python "$here/demo.py" )
rc=$?
rm -rf "$work"
exit $rc
