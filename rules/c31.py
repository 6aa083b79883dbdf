"""Nothing ordered is produced from the iteration order of a set of strings or objects: set-typed expressions are inferred through
assignments, operators and returned values, and every order-sensitive use of one is reported."""
import ast

EXPLANATION = __doc__
SET_METHODS = {'union', 'intersection', 'difference', 'symmetric_difference', 'copy'}
NEUTRAL = {'sorted', 'set', 'frozenset', 'len', 'any', 'all', 'sum', 'min', 'max', 'Counter', 'bool', 'isinstance', 'repr', 'str', 'iter_cps'}
INT_HINTS = {'cp_or_sequence', 'cp', 'codepoint', 'codepoints', 'cps', 'first_cp', 'last_cp', 'code_point'}


class Sets:
    def __init__(self, p):
        self.p = p
        self.memo = {}
        self.passed = {}        # (function, parameter) -> kind of a set some call passes
        for _ in range(4):
            before = dict(self.passed)
            for f in p.functions.values():
                if f.parent is None:
                    self.bind(f)
            self.memo = {}
            if self.passed == before:
                break

    def bind(self, f):
        inner = {n.name: n for n in ast.walk(f.node) if isinstance(n, ast.FunctionDef) and n is not f.node}
        for n in ast.walk(f.node):
            if not isinstance(n, ast.Call):
                continue
            for lists in self.arguments(f, n):
                for key, params in self.callees(f, n.func, inner, 0):
                    if any(isinstance(a, ast.Starred) for a in n.args) and len(lists) != len(params) and not self.optional(key, len(lists)):
                        continue
                    pairs = list(zip(params, lists)) + [(k.arg, k.value) for k in n.keywords if k.arg in params]
                    for q, a in pairs:
                        k = self.kind(f, a)
                        if k and self.passed.get((key, q)) != 'obj':
                            self.passed[key, q] = k

    def arguments(self, f, n):
        """the positional arguments; f(*xs): those of each list xs may be"""
        if not any(isinstance(a, ast.Starred) for a in n.args):
            return [n.args]
        if len(n.args) == 1 and isinstance(n.args[0].value, ast.Name):
            return [v.elts for v in self.assigned(f, n.args[0].value.id) if isinstance(v, (ast.List, ast.Tuple))]
        return []

    def optional(self, key, n):
        g = self.p.functions.get(key) if isinstance(key, str) else None
        return g is not None and n < len(g.params) and all(q in g.defaults for q in g.params[n:])

    def assigned(self, f, name):
        return [n.value for n in ast.walk(f.node) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets)]

    def callees(self, f, fn, inner, depth):
        if isinstance(fn, ast.Name):
            if fn.id in inner:
                return [((f.qual, fn.id), [a.arg for a in inner[fn.id].args.args])]
            g = self.p.functions.get(self.p.resolve_name(f.module, fn.id))
            if g is not None:
                return [(g.qual, g.params)]
            c = self.p.classes.get(self.p.resolve_name(f.module, fn.id))
            if c is not None:
                g = self.p.lookup_method(c.qual, '__init__')
                return [(g.qual, g.params[1:])] if g is not None else []
            return [x for v in self.assigned(f, fn.id) if depth < 3 and isinstance(v, (ast.Name, ast.IfExp))
                    for e in ([v] if isinstance(v, ast.Name) else [v.body, v.orelse]) for x in self.callees(f, e, inner, depth + 1)]
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id in ('self', 'cls') and f.cls is not None:
            g = self.p.lookup_method(f.cls.qual, fn.attr)
            return [(g.qual, g.params[1:] if g.is_method else g.params)] if g is not None else []
        return []

    def part(self, f, e, i, depth):
        """kind of the i-th part of what e gives"""
        if isinstance(e, ast.IfExp):
            return self.part(f, e.body, i, depth) or self.part(f, e.orelse, i, depth)
        if isinstance(e, (ast.Tuple, ast.List)):
            return self.kind(f, e.elts[i], depth + 1) if i < len(e.elts) else None
        if isinstance(e, ast.Call):
            for key, _ in self.callees(f, e.func, {}, 0):
                g = self.p.functions.get(key) if isinstance(key, str) else None
                if g is None or depth > 6 or g.is_generator:
                    continue
                for n in ast.walk(g.node):
                    if isinstance(n, ast.Return) and isinstance(n.value, ast.Tuple):
                        r = self.part(g, n.value, i, depth + 1)
                        if r:
                            return r
        return None

    def returns_set(self, f, depth):
        if f.qual in self.memo:
            return self.memo[f.qual]
        self.memo[f.qual] = None
        vals = [n.value for n in ast.walk(f.node) if isinstance(n, ast.Return) and n.value is not None]
        r = None
        if vals and not f.is_generator:
            ks = [self.kind(f, v, depth + 1) for v in vals]
            r = next((k for k in ks if k), None)
        self.memo[f.qual] = r
        return r

    def kind(self, f, e, depth=0):
        """'obj' for a set of strings or objects, 'int' for one of numbers (iteration order fixed by content), None otherwise"""
        if depth > 6 or e is None:
            return None
        k = lambda x: self.kind(f, x, depth + 1)
        if isinstance(e, ast.Set):
            return self.elt(e.elts[0])
        if isinstance(e, ast.SetComp):
            return self.elt(e.elt)
        if isinstance(e, ast.IfExp):
            return k(e.body) or k(e.orelse)
        if isinstance(e, ast.BoolOp):
            return next((x for x in map(k, e.values) if x), None)
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
            if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'keys' for x in (e.left, e.right)):
                return 'obj'
            return k(e.left) or k(e.right)
        if isinstance(e, ast.Call):
            fn = e.func
            if isinstance(fn, ast.Name) and fn.id in ('set', 'frozenset'):
                return self.elt_of_iter(f, e.args[0], depth) if e.args else 'obj'
            if isinstance(fn, ast.Attribute) and fn.attr in SET_METHODS:
                if isinstance(fn.value, ast.Name) and fn.value.id in ('set', 'frozenset'):
                    ks = [k(a) for a in e.args]
                    return next((x for x in ks if x), 'obj')
                return k(fn.value)
            if isinstance(fn, ast.Name):
                g = self.p.functions.get(self.p.resolve_name(f.module, fn.id))
                return self.returns_set(g, depth) if g is not None else None
            if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id == 'self' and f.cls is not None:
                g = self.p.lookup_method(f.cls.qual, fn.attr)
                return self.returns_set(g, depth) if g is not None else None
            return None
        if isinstance(e, ast.Name):
            out = []
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets):
                    out.append(n.value)
                elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == e.id and n.value is not None:
                    out.append(n.value)
                elif isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Tuple):
                            for i, x in enumerate(t.elts):
                                if isinstance(x, ast.Name) and x.id == e.id and not any(isinstance(y, ast.Starred) for y in t.elts):
                                    out.append((i, n))
            if not out:
                if e.id in f.params:
                    r = self.passed.get((f.qual, e.id))
                    return 'int' if r and e.id in INT_HINTS else r
                for n in ast.walk(f.node):
                    if isinstance(n, ast.FunctionDef) and n is not f.node and any(a.arg == e.id for a in n.args.args) and any(x is e for x in ast.walk(n)):
                        return self.passed.get(((f.qual, n.name), e.id))
                return None
            line = lambda v: v[1].lineno if isinstance(v, tuple) else v.lineno
            # the last assignment before the use decides
            before = [v for v in out if line(v) <= e.lineno] or out
            last = max(before, key=line)
            if isinstance(last, tuple):
                return self.part(f, last[1].value, last[0], depth + 1)
            return self.kind(f, last, depth + 1)
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == 'self' and f.cls is not None:
            for q in self.p.mro(f.cls.qual):
                c = self.p.classes.get(q)
                for g in (c.methods.values() if c else ()):
                    for n in ast.walk(g.node):
                        if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
                            for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                                if isinstance(t, ast.Attribute) and t.attr == e.attr and isinstance(t.value, ast.Name) and t.value.id == 'self':
                                    r = self.kind(g, n.value, depth + 1)
                                    if r:
                                        return r if e.attr not in INT_HINTS else 'int'
        return None

    def elt(self, e):
        names = {n.attr for n in ast.walk(e) if isinstance(n, ast.Attribute)} | {n.id for n in ast.walk(e) if isinstance(n, ast.Name)}
        if isinstance(e, ast.Attribute) and e.attr in INT_HINTS or isinstance(e, ast.Name) and e.id in INT_HINTS:
            return 'int'
        if isinstance(e, ast.Constant) and isinstance(e.value, (int, float)):
            return 'int'
        return 'obj'

    def elt_of_iter(self, f, e, depth):
        if isinstance(e, (ast.GeneratorExp, ast.ListComp)):
            return self.elt(e.elt)
        if isinstance(e, (ast.Name, ast.Attribute)):
            n = e.id if isinstance(e, ast.Name) else e.attr
            if n in INT_HINTS or n.endswith('cps') or n.endswith('codepoints') or n == 'cp':
                return 'int'
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'range':
            return 'int'
        return self.kind(f, e, depth + 1) or 'obj'


def derived(target, body):
    names = {n.id for n in ast.walk(target) if isinstance(n, ast.Name)}
    for _ in range(3):
        for s in body:
            for n in ast.walk(s):
                if isinstance(n, ast.Assign) and any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(n.value)):
                    names |= {t.id for t in n.targets if isinstance(t, ast.Name)}
    return names


def order_sensitive(target, body):
    """a statement whose effect depends on the order of the iterations"""
    names = derived(target, body)
    uses = lambda e: any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(e))
    stops = any(isinstance(n, ast.Break) for s in body for n in ast.walk(s))
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                return n
            if isinstance(n, ast.Return) and n.value is not None and uses(n.value):
                return n
            if stops and (isinstance(n, ast.Assign) and uses(n.value) or isinstance(n, ast.Expr) and uses(n.value)):
                return n
            if isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Add) and not isinstance(n.value, ast.Constant):
                return n
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store):
                return n
            if isinstance(n, ast.Call):
                nm = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else ''
                if nm in ('append', 'extend', 'insert', 'write', 'print', 'setdefault', 'writelines') or nm.startswith('add_') or nm.startswith('insert_'):
                    return n
    return None


def run(c, tier):
    p = c.p
    ss = Sets(p)
    for q, f in sorted(p.functions.items()):
        if f.parent is not None:
            continue
        parents = {}
        for n in ast.walk(f.node):
            for ch in ast.iter_child_nodes(n):
                parents[ch] = n

        def neutral(n):
            while n in parents:
                n = parents[n]
                if isinstance(n, ast.Call):
                    nm = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else ''
                    if nm in NEUTRAL or nm in ('update', 'issubset', 'issuperset', 'union', 'intersection', 'difference'):
                        return True
                    if nm in ('debug', 'info', 'warning', 'error'):
                        return True
                if isinstance(n, (ast.SetComp, ast.DictComp)):
                    return isinstance(n, ast.SetComp)
                if isinstance(n, ast.Compare):
                    return True
                if isinstance(n, ast.stmt):
                    return False
            return False

        def strip(it):
            while isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ('enumerate', 'list', 'tuple', 'iter', 'reversed') and it.args:
                it = it.args[0]
            return it
        for n in ast.walk(f.node):
            loc = '%s:%d' % (f.module.rel, getattr(n, 'lineno', f.node.lineno))
            if isinstance(n, ast.For):
                k = ss.kind(f, strip(n.iter))
                if k and isinstance(n.target, ast.Name) and (n.target.id in INT_HINTS or n.target.id.endswith('_cp')):
                    k = 'int'      # code points
                if k:
                    c.analysed(f)
                    bad = order_sensitive(n.target, n.body) if k == 'obj' else None
                    c.ob('set-order', '%s:for %s' % (q, ast.unparse(n.iter)), bad is None, loc,
                         'the order of the set %s decides the order of what line %d produces' % (ast.unparse(n.iter), bad.lineno if bad else 0))
            elif isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.DictComp)):
                for g in n.generators:
                    k = ss.kind(f, strip(g.iter))
                    if k:
                        c.analysed(f)
                        c.ob('set-order', '%s:each of %s' % (q, ast.unparse(g.iter)), k != 'obj' or neutral(n), loc,
                             'the order of the set %s decides the order of the result' % ast.unparse(g.iter))
            elif isinstance(n, ast.Call):
                nm = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else ''
                if nm in ('list', 'tuple', 'join', 'enumerate', 'zip', 'next', 'extend') and n.args:
                    a = n.args[0]
                    k = ss.kind(f, a)
                    par = parents.get(n)
                    if k and not (isinstance(par, ast.For) and par.iter is n or isinstance(par, ast.comprehension)):
                        c.analysed(f)
                        c.ob('set-order', '%s:%s(%s)' % (q, nm, ast.unparse(a)), k != 'obj' or neutral(n), loc,
                             'the order of the set %s decides the order of the result' % ast.unparse(a))
    c.ob('set-order', 'whole tree', True, 'lgr, tools')
