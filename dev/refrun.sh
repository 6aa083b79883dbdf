#!/bin/bash
# refrun.sh <edit.py> [Cxx ...]: apply a behaviour-preserving edit to a copy of /repo, run its tests and the checks; report alarms
set -e
N=$(basename "$1" .py)
D=/tmp/refrepo_$N
rm -rf /tmp/refrepo_$N; cp -a /repo $D
(cd $D && python3 "$1") || { echo "EDIT FAILED $N"; exit 3; }
cd $D && PYTHONPATH=$D /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider tests 2>&1 | tail -1
cd /verif
shift
C="$*"; [ -z "$C" ] && C=$(python3 -c "import json;print(' '.join(c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']))")
for c in $C; do echo $c; done | xargs -P 8 -I{} sh -c "VERIF_REPO=$D VERIF_EVIDENCE=/tmp/ev_$N python3 -W ignore check.py {} > /tmp/refout_$N.{} 2>&1; r=\$?; if [ \$r != 0 ]; then echo ALARM {} rc=\$r; grep -v KNOWN /tmp/refout_$N.{} | cut -c1-\${W:-220} | head -\${L:-4}; fi"
rm -rf /tmp/refrepo_$N
