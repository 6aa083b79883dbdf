#!/usr/bin/env python3
"""allchecks.py [Cxx ...]: every check on the tree VERIF_REPO, in one process; prints the violations (width W) and, with NOTES=1, the notes"""
import importlib, json, os, sys, warnings
warnings.simplefilter('ignore')
sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa.project import Project, AnalysisBroken
from sa.base import Check
from rules import generic
import check as CK
p = Project()
if p.errors:
    print('BROKEN', p.errors)
W = int(os.environ.get('W', '250'))
kf = CK.known_findings()
pids = sys.argv[1:] or [c['property'] for c in json.load(open(os.path.join(HERE, 'MANIFEST.json')))['checks']]
notes = set()
seen = set()
for pid in pids:
    c = Check(pid, p)
    generic.base(c, pid)
    if os.path.exists(os.path.join(HERE, 'rules', pid.lower() + '.py')):
        m = importlib.import_module('rules.' + pid.lower())
        c.part(lambda x: m.run(x, 'quick'))
    vs = [v for v in c.violations if not any(k[0] == pid and k[1] == v.rule and k[2] == v.key for k in kf)]
    if not c.obligations:
        print('ALARM %s no obligations' % pid)
    for v in vs[:int(os.environ.get('L', '3'))]:
        line = ('%s %s %s: %s' % (v.loc, v.rule, v.key, v.msg))[:W]
        print('ALARM %s %s' % (pid, 'again' if line in seen else line))
        seen.add(line)
    notes |= {n[:W] for n in c.notes if 'no verdict' in n}
if os.environ.get('NOTES'):
    for n in sorted(notes):
        print('NOTE', n)
print('notes', len(notes))
