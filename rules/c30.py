"""A remembered result is looked up by the content it was computed from: every cache of the tree (decorated functions, dictionaries
filled and read under one key) is enumerated and its key compared with what the computation reads."""
import ast

from sa.base import *

EXPLANATION = __doc__
DECORATORS = {'lru_cache', 'cache', 'cached_property', 'memoize', 'cached'}


def self_reads(p, f, seen=None):
    """attributes of self the function reads, through its own class's methods"""
    seen = seen if seen is not None else set()
    if f.qual in seen or not f.params:
        return set()
    seen.add(f.qual)
    me = f.params[0]
    out = set()
    calls = set()
    for n in ast.walk(f.node):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me and isinstance(n.ctx, ast.Load):
            g = p.lookup_method(f.cls.qual, n.attr) if f.cls is not None else None
            if g is not None:
                out |= self_reads(p, g, seen)
            else:
                out.add(n.attr)
    return out


def run(c, tier):
    p = c.p
    for q, f in sorted(p.functions.items()):
        for d in f.node.decorator_list:
            name = d.func if isinstance(d, ast.Call) else d
            dq = p.resolve_expr(f.module, name) or ''
            short = dq.rsplit('.', 1)[-1]
            if dq in p.classes and 'Memoizer' in short and isinstance(d, ast.Call):
                a = d.args[0] if d.args else (d.keywords[0].value if d.keywords else None)
                key = {a.value} if isinstance(a, ast.Constant) else set()
                reads = {r for r in self_reads(p, f)} - key
                c.analysed(f)
                c.ob('memo-key', f.qual, not reads, f.loc(), 'the result also depends on %s, which the key leaves out' % ', '.join(sorted(reads)))
            elif short in DECORATORS:
                reads = self_reads(p, f) if f.is_method else set()
                c.analysed(f)
                c.ob('memo-key', f.qual, not reads, f.loc(), 'memoised for good although it reads %s of an object that changes' % ', '.join(sorted(reads)))
    # hand-written caches: the same container and key are stored and looked up
    for q, f in sorted(p.functions.items()):
        if f.parent is not None or f.module.name == 'lgr.memoize':
            continue
        x = None
        stores = [n for n in ast.walk(f.node) if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store)]
        if not stores:
            continue
        x = c.ctx(q)
        rets = [e for e in x.returns()]
        for e in x.of('store_sub'):
            t = e.target
            if t is None or t.op != 'sub' or root_op(t) not in ('self', 'glob', 'param'):
                continue
            base, k = t.args
            if not any(v.op == 'sub' and v.args[0] is base for r in rets for _, v in leaves(r.value)):
                continue
            ids = [s for s in subterms(k) if s.op == 'call' and s.args[0].op == 'glob' and s.args[0].args[0] == 'builtins.id']
            for s in ids:
                what = pretty(s.args[1][0])
                c.ob('cache-key', '%s:%s' % (q, what), False, e.loc,
                     'the cache is keyed by the identity of %s, so a change of its content goes unnoticed' % what)
            inkey = set(subterms(k))
            for prm in f.params[1 if f.is_method else 0:]:
                pt = T('param', prm)
                used = any(isinstance(n, ast.Name) and n.id == prm for n in ast.walk(f.node))
                c.ob('cache-key', '%s:%s:in-key' % (q, prm), not used or pt in inkey or pt is base, e.loc,
                     'the cached result depends on %s, which the key leaves out' % prm)
    c.at_least('memo-key', 1)


def root_op(t):
    while t.op in ('attr', 'sub', 'elem'):
        t = t.args[0]
    return t.op
