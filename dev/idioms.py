#!/usr/bin/env python3
"""pairs of functions that do the same / do not: how far the canonical form reaches.
idioms.py [name...]"""
import sys, os, ast
sys.path.insert(0, '/verif'); sys.setrecursionlimit(20000)
from sa.project import Project
from sa.base import Check
from sa import conform as C
from sa.terms import *

SRC = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'idioms_src.py')).read()

p = Project(overrides={'lgr/utils.py': open('/repo/lgr/utils.py').read() + '\n' + SRC})
c = Check('X', p)
o = C.Opts()
def items(q):
    f = p.functions['lgr.utils.' + q]
    an, s = C._run(c, f, f, (), None, None)
    return C.items_of(s, o)[0]
groups = {}
for n in ast.parse(SRC).body:
    if isinstance(n, ast.FunctionDef) and '__' in n.name:
        g, v = n.name.rsplit('__', 1)
        groups.setdefault(g, []).append(n.name)
bad = 0
for g, fs in groups.items():
    if len(sys.argv) > 1 and g not in sys.argv[1:]:
        continue
    a = items(fs[0])
    for f in fs[1:]:
        b = items(f)
        same = set(a) == set(b) and all(C.equiv(c, a[k].cond, b[k].cond) for k in a)
        want = not f.rsplit('__', 1)[1].startswith('no')
        if same != want:
            bad += 1
            print('%s vs %s: %s' % (fs[0], f, 'same' if same else 'DIFFERENT'))
            if len(sys.argv) > 1 and not same:
                for x, y, t in ((a, b, '-'), (b, a, '+')):
                    for k in x:
                        if k not in y or not C.equiv(c, x[k].cond, y[k].cond):
                            print('  ', t, x[k].show()[:300], ' IF ', pretty_guard(x[k].cond)[:300])
print(len(groups), 'groups', bad, 'wrong')
