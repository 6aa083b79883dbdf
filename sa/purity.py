"""Which parameters a function may modify: stores on objects reachable from a parameter, closed over the call graph."""
from .base import *

STORES = {'emit', 'emit_all', 'store_attr', 'store_sub', 'aug', 'del_attr', 'del_sub'}
MUTATORS = {'append', 'add', 'remove', 'discard', 'pop', 'clear', 'update', 'extend', 'insert', 'sort', 'reverse', 'popitem',
            'setdefault', '__setitem__', '__delitem__'}
FRESH = {'copy', 'split', 'format', 'join', 'strip', 'replace', 'deepcopy', 'lower', 'upper', 'group', 'groups', 'rsplit', 'splitlines',
         'encode', 'decode', 'keys', 'union', 'intersection', 'difference', 'getvalue', 'read', 'readlines'}


def root(t, fresh=()):
    if t.op == 'call' and callee_name(t) in fresh:
        return t
    while True:
        if t.op in ('attr', 'sub', 'elem', 'index'):
            t = t.args[0]
        elif t.op == 'call' and receiver(t) is not None and callee_name(t) not in FRESH:
            t = receiver(t)
        elif t.op in ('first', 'last'):
            t = t.args[-1]
        else:
            return t


def rootname(t, fresh=()):
    """names of the parameters t may be reached from"""
    out = set()
    todo, seen = [t], set()
    while todo:
        r = root(todo.pop(), fresh)
        if r in seen:
            continue
        seen.add(r)
        if r.op == 'self':
            out.add('self')
        elif r.op == 'param':
            out.add(r.args[0])
        elif r.op == 'ite':
            todo += [l for _, l in leaves(r)]
        elif r.op == 'loopvar':
            todo.append(r.args[3])
    return out


class Purity:
    def __init__(self, check, ignore=lambda func, effect, target: False, opaque=()):
        """ignore: stores that do not count; opaque: functions taken to modify nothing"""
        self.p = p = check.p
        self.direct, self.calls = {}, {}
        ctxs = {}
        for q, f in sorted(p.functions.items()):
            if f.parent is None and q not in opaque:
                ctxs[q] = Ctx(check, q)
        # methods that hand out a list of their own making
        own = {}
        for q, x in ctxs.items():
            if x.func.cls is not None:
                vals = [l for e in x.returns() for _, l in leaves(e.value)]
                own.setdefault(x.func.name, []).append(x.func.is_generator or bool(vals) and all(
                    v.op in ('new', 'tuple', 'list', 'const') or v.op == 'call' and v.args[0].op == 'glob' and
                    v.args[0].args[0] in ('builtins.list', 'builtins.set', 'builtins.sorted', 'builtins.dict', 'builtins.tuple') for v in vals))
        fresh = {n for n, v in own.items() if all(v)} | {'get_set'}
        self.fresh = fresh
        for q, f in sorted(p.functions.items()):
            if f.parent is not None or q in opaque:
                continue
            x = ctxs[q]
            d, cl = {}, []
            restored = {(e.target, e.extra.get('attr')) for e in x.effects if e.kind == 'store_attr' and e.in_finally}
            for e in x.effects:
                t = None
                if e.kind in STORES:
                    t = e.target
                elif e.kind == 'call' and callee_name(e.term) in MUTATORS:
                    t = receiver(e.term)
                if t is not None and not ignore(f, e, t) and (e.kind != 'store_attr' or (t, e.extra.get('attr')) not in restored):
                    for n in rootname(t, fresh):
                        d.setdefault(n, [(e.loc, '%s is modified' % pretty(t)[:80])])
                if e.kind == 'call':
                    cl.append((e.term, e.loc))
            self.direct[q], self.calls[q] = d, cl
        self.close()

    def callees(self, q, term):
        p = self.p
        fn = term.args[0]
        if fn.op == 'glob':
            g = p.functions.get(fn.args[0])
            if g:
                return [(g, 1 if g.cls is not None and not g.is_static and g.is_classmethod else 0)]
            if fn.args[0] in p.classes:
                g = p.lookup_method(fn.args[0], '__init__')
                return [(g, 1)] if g else []
            return []
        n = callee_name(term)
        r = receiver(term)
        if r is not None and r.op == 'self':
            f = p.functions[q]
            if f.cls is not None:
                g = p.lookup_method(f.cls.qual, n)
                if g is not None:
                    return [(g, 1)] + [(p.classes[s].methods[n], 1) for s in p.subclasses(f.cls.qual)
                                       if n in p.classes[s].methods and p.classes[s].methods[n] is not g]
        return [(g, 1) for g in p.by_name.get(n, []) if g.cls is not None]

    def close(self):
        changed = True
        while changed:
            changed = False
            for q in self.direct:
                for term, loc in self.calls[q]:
                    for g, off in self.callees(q, term):
                        if g.qual not in self.direct:
                            continue
                        for pn, why in list(self.direct[g.qual].items()):
                            if off and g.params and pn in ('self', g.params[0]) and not g.is_static:
                                if term.args[0].op == 'glob':
                                    continue
                                a = receiver(term)
                            else:
                                if pn not in g.params:
                                    continue
                                a = arg(term, pn, g.params.index(pn) - off)
                            if a is None:
                                continue
                            for k in rootname(a):
                                if k not in self.direct[q]:
                                    self.direct[q][k] = [(loc, 'through %s' % g.qual)] + why
                                    changed = True
