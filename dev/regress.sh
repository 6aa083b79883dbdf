#!/bin/bash
# everything that must stay as it is: the tree quiet, refactorings quiet, planted bugs caught
cd /verif
python3 -W ignore dev/selfconf.py | tail -2
python3 -W ignore dev/allchecks.py
for f in dev/refs/m_*.py; do NOTEST=1 L=1 python3 -W ignore dev/refmany.py $f | grep -v ': quiet$\|: notes [0-9]*$' | cut -c1-200; done
for d in seeded/*/; do
  rm -rf /tmp/rg_repo; mkdir /tmp/rg_repo; cp -a /repo/lgr /repo/tools /tmp/rg_repo/
  (cd /tmp/rg_repo && git init -q . 2>/dev/null && git apply --include='*' /verif/$d/patch.diff) || echo "no apply $d"
  p=$(python3 -c "import json;print(json.load(open('/verif/$d/meta.json'))['property'])")
  VERIF_REPO=/tmp/rg_repo python3 -W ignore dev/allchecks.py $p | grep -q ALARM || echo "MISSED $d $p"
done
rm -rf /tmp/rg_repo
