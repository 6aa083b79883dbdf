cd /verif
for f in dev/refs/m_*.py; do NEAR=${NEAR:-30} NOTEST=1 L=3 W=600 python3 -W ignore dev/refmany.py $f $* 2>/dev/null| grep -v ': quiet$\|: notes [0-9]*$\|^notes' ; done
