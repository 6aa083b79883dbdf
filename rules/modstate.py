"""State that outlives a call: module-level and class-level containers and mutable default arguments are never modified in place."""
import ast

MUTATORS = {'append', 'add', 'remove', 'discard', 'pop', 'clear', 'update', 'extend', 'insert', 'sort', 'reverse', 'popitem', 'setdefault',
            'appendleft', 'popleft', 'difference_update', 'intersection_update', 'symmetric_difference_update', '__setitem__', '__delitem__'}
MAKERS = {'list', 'dict', 'set', 'OrderedDict', 'defaultdict', 'deque', 'Counter'}
# state kept on purpose: (module, name): why
KEPT = {}


def container(n):
    if isinstance(n, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    return isinstance(n, ast.Call) and (getattr(n.func, 'id', None) or getattr(n.func, 'attr', None)) in MAKERS


def targets_of(n):
    if isinstance(n, ast.Assign):
        return n.targets
    if isinstance(n, (ast.AnnAssign, ast.NamedExpr)) and n.value is not None:
        return [n.target]
    return []


def run(c, rule='module-state', only=lambda m: True):
    p = c.p
    shared = {}
    for m in p.modules.values():
        for n in m.tree.body:
            for t in targets_of(n):
                if isinstance(t, ast.Name) and container(n.value) and len(m.assigns.get(t.id, ())) == 1:
                    shared[m.name + '.' + t.id] = n
            if isinstance(n, ast.ClassDef):
                for s in n.body:
                    for t in targets_of(s):
                        if isinstance(t, ast.Name) and container(s.value):
                            shared['%s.%s.%s' % (m.name, n.name, t.id)] = s
    class_attrs = {}
    for q in shared:
        mod, cls, name = q.rsplit('.', 2)[0], q.rsplit('.', 2)[1], q.rsplit('.', 1)[1]
        if cls[:1].isupper() and mod in p.modules:
            class_attrs.setdefault(name, []).append(q)
    # an attribute that some method sets belongs to the object
    for f in p.functions.values():
        for n in ast.walk(f.node):
            for t in targets_of(n):
                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self':
                    class_attrs.pop(t.attr, None)
    for q, f in sorted(p.functions.items()):
        if getattr(f, 'is_spec', False) or f.parent is not None or not only(f.module.name):
            continue
        c.analysed(f)
        a = f.node.args
        names = {}          # local name -> the shared objects it may be
        pos = a.posonlyargs + a.args
        for x, d in list(zip(reversed(pos), reversed(a.defaults))) + list(zip(a.kwonlyargs, a.kw_defaults)):
            if d is not None and container(d):
                names[x.arg] = {'the default of %s' % x.arg}
        bound = {x.arg for x in pos + a.kwonlyargs} | {t.id for n in ast.walk(f.node) for t in ast.walk(n)
                                                       if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store)}
        declared = {x for n in ast.walk(f.node) if isinstance(n, ast.Global) for x in n.names}

        def objects(e):
            if isinstance(e, ast.Name):
                out = set(names.get(e.id, ()))
                if e.id not in bound or e.id in declared:
                    r = p.resolve_name(f.module, e.id)
                    if r in shared:
                        out.add(r)
                return out
            if isinstance(e, ast.Attribute):
                out = set()
                if isinstance(e.value, ast.Name):
                    if e.value.id in ('self', 'cls'):
                        out |= set(class_attrs.get(e.attr, ()))
                    elif e.value.id not in bound:
                        r = p.resolve_name(f.module, e.value.id)
                        if r and r + '.' + e.attr in shared:
                            out.add(r + '.' + e.attr)
                return out
            if isinstance(e, ast.IfExp):
                return objects(e.body) | objects(e.orelse)
            if isinstance(e, ast.BoolOp):
                return set().union(*[objects(v) for v in e.values])
            if isinstance(e, ast.NamedExpr):
                return objects(e.value)
            return set()
        while True:
            n0 = sum(map(len, names.values()))
            for n in ast.walk(f.node):
                for t in targets_of(n):
                    if isinstance(t, ast.Name) and t.id not in declared:
                        names.setdefault(t.id, set()).update(objects(n.value))
            if sum(map(len, names.values())) == n0:
                break
        bad = []
        for n in ast.walk(f.node):
            hit = set()
            if isinstance(n, ast.AugAssign):
                hit = objects(n.target if isinstance(n.target, (ast.Name, ast.Attribute)) else n.target.value)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                hit = objects(n.func.value)
            elif isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                hit = objects(n.value) if isinstance(n, ast.Subscript) else set()
            elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.id in declared:
                hit = {p.resolve_name(f.module, n.id)} & set(shared)
            hit = {h for h in hit if tuple(h.rsplit('.', 1)) not in KEPT}
            if hit:
                bad.append((n.lineno, sorted(hit)))
        c.ob(rule, q, not bad, '%s:%d' % (f.loc().rsplit(':', 1)[0], bad[0][0]) if bad else f.loc(),
             '%s modifies %s, which later calls see' % (q, ', '.join(bad[0][1]) if bad else ''))
