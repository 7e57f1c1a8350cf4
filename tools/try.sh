#!/bin/bash
# tools/try.sh ID [tier] [patch]: one check against a scratch copy of /repo with a patch applied
set -e
T=$(mktemp -d /tmp/try.XXXXXX)
chmod 755 "$T"; cp -a /repo "$T/repo"
if [ -n "$3" ]; then git -C "$T/repo" apply "$3"; fi
cd /verif
set +e
MC_REPO="$T/repo" ./check "$1" "${2:-quick}"
rc=$?
rm -rf "$T"
exit $rc
