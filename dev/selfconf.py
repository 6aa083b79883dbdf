#!/usr/bin/env python3
"""Development aid: compare every function with its reference on all default observables."""
import sys, os, time, warnings
warnings.simplefilter('ignore')
sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import multiprocessing as mp
from sa.project import Project, AnalysisBroken
from sa.base import Check
from sa.conform import conforms, spec_library

def one(q):
    p = one.p
    c = Check('X', p)
    t = time.time()
    try:
        r = conforms(c, 'r', q)
    except Exception as e:
        import traceback
        return q, 'ERR %s %s' % (type(e).__name__, traceback.format_exc()[-300:]), 0, 0, []
    if r is not True and os.environ.get('DIST'):
        from sa.conform import distance
        f = p.functions.get(q)
        if f is not None and spec_library(p)[q] is not f:
            c.notes.insert(0, 'distance %s %s %s of %d; diffs %d' % (distance(p, spec_library(p)[q], f) + (len(__import__('ast').unparse(spec_library(p)[q].node).splitlines()), len(c.violations))))
            return q, r, c.obligations, 0, c.notes[:1]
    return q, r, c.obligations, time.time() - t, ['%s %s %s' % (v.loc, v.key, v.msg) for v in c.violations] + c.notes

def init(root):
    one.p = Project(root) if root else Project()
    spec_library(one.p)

if __name__ == '__main__':
    flt = sys.argv[1] if len(sys.argv) > 1 else ''
    root = os.environ.get('VERIF_REPO')
    init(root)
    qs = [q for q in sorted(spec_library(one.p)) if flt in q]
    with mp.Pool(8, initializer=init, initargs=(root,)) as pool:
        res = pool.map(one, qs, chunksize=4)
    bad = 0
    for q, r, n, t, v in res:
        if r is not True or t > 5 or n == 0:
            print(q, r if r is not True else '', n, '%.1fs' % t)
            for x in v[:6]:
                print('    ', x[:600])
        bad += r is not True
    print(len(res), 'functions', bad, 'not conforming', sum(x[2] for x in res), 'items')
