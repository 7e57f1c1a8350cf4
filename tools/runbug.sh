#!/bin/bash
# tools/runbug.sh ID [nocheck]: build, tests, metric tests, demo (with and without), check - in private copies
id=$1; S=/verif/seeded/$id; T=$(mktemp -d /tmp/rb.XXXXXX)
cp -a /repo $T/repo; mkdir $T/reports $T/verif; cp -a /verif/mc /verif/check /verif/known_findings.jsonl /verif/properties.jsonl /verif/MANIFEST.json $T/verif/ ; mkdir $T/verif/evidence; cp -a $S $T/demo
cp /verif/tools/demolib/rt.py $T/rt.py; export T id NOCHECK=$2
unshare -m bash -c '
mount --bind $T/repo /repo; mount --bind $T/reports /opt/vp/reports; mount --bind $T/verif /verif
cd /repo
bash $T/demo/demo.sh >$T/d0 2>&1; d0=$?
git apply $T/demo/patch.diff || echo NOAPPLY
bash /opt/vp/build.sh >$T/b 2>&1; b=$?
t=$(bash /opt/vp/test.sh $T/o.json 2>&1 | tail -1)
. /opt/vp/env.sh
m=$(cd sumo-api; PYTHONPATH=$PYTHONPATH:/repo/sumo-api:/verif /opt/venv/bin/python $T/rt.py 2>&1 | tail -1)
bash $T/demo/demo.sh >$T/d1 2>&1; d1=$?
p=$(/usr/bin/python3 -c "import json;print(json.load(open(\"$T/demo/meta.json\"))[\"property\"])")
c=-; 
if [ -z "$NOCHECK" ]; then s=$(date +%s); cd /verif; VERIF_SEED=1 VERIF_TIER=quick ./check $p quick >$T/c 2>&1; c=$?; v=$(grep -c "^VIOLATION property=$p" $T/c); e=$(( $(date +%s)-s )); fi
echo "$id prop=$p build=$b tests=[$t] metrics=[$m] demo0=$d0 demo1=$d1 check=$c viol=$v time=$e"
'
[ -n "$KEEP" ] && { mkdir -p /tmp/rbout; cp $T/d0 $T/d1 $T/c $T/b /tmp/rbout/ 2>/dev/null; for f in d0 d1 c b; do mv /tmp/rbout/$f /tmp/rbout/$id.$f; done; }
rm -rf "$T"
