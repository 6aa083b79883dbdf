"""Every handler attached to a logger inside a function is detached on every way out of it (typestate on all paths)."""
import ast

from sa.typestate import Pairing

EXPLANATION = __doc__


def key(c):
    arg = c.args[0] if c.args else (c.keywords[0].value if c.keywords else None)
    return (ast.unparse(c.func.value), ast.unparse(arg) if isinstance(arg, ast.Name) else '*')


def meth(name):
    def f(c):
        return key(c) if isinstance(c.func, ast.Attribute) and c.func.attr == name else None
    return f


def run(c, tier):
    summaries = {}

    def direct(fn):
        return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('addHandler', 'removeHandler')
                   for n in ast.walk(fn.node))

    cands = [f for f in c.p.functions.values() if '.<locals>.' not in f.qual and direct(f)]
    acq, rel = meth('addHandler'), meth('removeHandler')

    def callee(call, f):
        n = call.func.attr if isinstance(call.func, ast.Attribute) else call.func.id if isinstance(call.func, ast.Name) else None
        hits = [g for g in cands if g.name == n and g is not f]
        return hits[0] if len(hits) == 1 else None

    def helper_of(f):
        def h(call):
            g = callee(call, f)
            return summaries.get(g.qual) if g is not None else None
        return h

    # helpers that only acquire or only release
    for f in cands:
        p = Pairing(acq, rel)
        left = p.run(f.node)
        calls = [n for n in ast.walk(f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)]
        adds = [n for n in calls if n.func.attr == 'addHandler']
        rels = [n for n in calls if n.func.attr == 'removeHandler']
        if f.name.startswith('_') and adds and not rels:
            summaries[f.qual] = ({(k[0], '*') for k, _, _ in left}, set())
        elif rels and not adds:
            summaries[f.qual] = (set(), {(key(n)[0], '*') for n in rels})
    n = 0
    extra = [f for f in c.p.functions.values() if f not in cands and '.<locals>.' not in f.qual and any(
        isinstance(x, ast.Call) and callee(x, f) is not None and callee(x, f).qual in summaries for x in ast.walk(f.node))]
    for f in cands + extra:
        if f.qual in summaries:
            if summaries[f.qual][0]:
                users = [g for g in cands + extra if g is not f and any(isinstance(x, ast.Call) and callee(x, g) is f for x in ast.walk(g.node))]
                c.ob('detached', f.qual, bool(users), f.loc(), 'attaches a handler and nothing detaches it')
            continue
        p = Pairing(acq, rel, helper_of(f))
        left = p.run(f.node)
        c.analysed(f)
        lines = sorted({l for _, l in p.acquired})
        n += len(lines)
        for ln in lines:
            bad = [x for x in left]
            c.ob('detached', f.qual, not bad, '%s:%d' % (f.module.rel, ln),
                 'the handler attached here stays attached %s (line %d)' % (bad[0][1], bad[0][2]) if bad else '')
    c.need(n or not cands, 'handler attachment sites')
    c.notes.append('%d attachment sites' % n)
