"""The order of what changes state and what depends on it.

Every store, every call and every look into a container is an event with the places it reads and writes: attribute names, parameters and
containers made in the function; for a project function, those of everything it may call. Two events that touch the same place, one of them
writing it, must come in the order the reference has them in."""
import ast
import builtins

from .terms import And, FALSE, Or, T, TRUE, atom, implies
from .canon import strip_seq

CHANGERS = {'remove', 'discard', 'pop', 'clear', 'popitem', 'popleft', 'difference_update', 'intersection_update', 'insert', 'sort', 'reverse',
            'setdefault', 'symmetric_difference_update'}
ADDERS = {'append', 'add', 'appendleft', 'extend', 'update', 'union_update'}
COMMON = CHANGERS | ADDERS | {'get', 'keys', 'values', 'items', 'copy', 'index', 'count', 'split', 'join', 'format', 'strip', 'replace', 'match',
                              'write', 'read', 'close'}

ANY = ('builtins.BaseException', 'builtins.Exception')
BUILTIN = {'int': {'builtins.ValueError'}, 'index': {'builtins.ValueError'}, 'encode': {'builtins.UnicodeError'},
           'decode': {'builtins.UnicodeError'}, 'open': {'builtins.OSError'}}


def place(n):
    """attribute or name a container expression is held by"""
    while isinstance(n, (ast.Subscript, ast.Call, ast.Starred)):
        n = n.value if not isinstance(n, ast.Call) else n.func
        if isinstance(n, ast.Attribute) and n.attr in COMMON:
            n = n.value
    if isinstance(n, ast.Attribute):
        return n.attr
    return n.id if isinstance(n, ast.Name) else None


class Footprints:
    def __init__(self, p):
        self.p = p
        self.own, calls = {}, {}
        for q, f in p.functions.items():
            if getattr(f, 'is_spec', False):
                continue
            reads, writes, cs = set(), set(), set()
            params = set(f.params)
            init = f.name == '__init__'
            for n in ast.walk(f.node):
                tgt = None
                if isinstance(n, ast.Attribute):
                    if isinstance(n.ctx, ast.Load):
                        reads.add(n.attr)
                    elif not (init and isinstance(n.value, ast.Name) and n.value.id == 'self'):
                        writes.add(n.attr)
                elif isinstance(n, ast.Subscript) and not isinstance(n.ctx, ast.Load):
                    tgt = n.value
                elif isinstance(n, ast.AugAssign):
                    tgt = n.target
                elif isinstance(n, ast.Call):
                    if isinstance(n.func, ast.Attribute) and n.func.attr in CHANGERS | ADDERS:
                        tgt = n.func.value
                    name = getattr(n.func, 'id', None) or getattr(n.func, 'attr', None)
                    if name and name not in COMMON and not (isinstance(n.func, ast.Attribute) and 'log' in ast.unparse(n.func.value).lower()):
                        cs.add(name)
                if tgt is not None:
                    w = place(tgt)
                    if isinstance(tgt, (ast.Attribute, ast.Subscript)) or w in params:
                        if w in params:
                            writes.add(('param', w))
                        elif w is not None and not isinstance(tgt, ast.Name) and has_attr(tgt):
                            if not (init and is_self(tgt)):
                                writes.add(w)
            self.own[q] = reads, writes
            calls[q] = cs
        self.all = {q: (set(r), set(w)) for q, (r, w) in self.own.items()}
        byname = {}
        for q in self.own:
            byname.setdefault(q.rsplit('.', 1)[-1], []).append(q)
        self.byname = byname
        for c in p.classes.values():
            m = c.methods.get('__init__')
            if m is not None and m.qual in self.own:
                byname.setdefault(c.qual.rsplit('.', 1)[-1], []).append(m.qual)
        changed = True
        while changed:
            changed = False
            for q, cs in calls.items():
                r, w = self.all[q]
                n0 = len(r) + len(w)
                for c in cs:
                    for g in byname.get(c, ()):
                        r |= self.all[g][0]
                        w |= {x for x in self.all[g][1] if isinstance(x, str)}
                changed |= len(r) + len(w) != n0
        self.raising(p)
        self.dunder = {}
        for d in ('__iter__', '__contains__', '__getitem__', '__len__'):
            self.dunder[d] = set().union(*[self.all[g][0] for g in byname.get(d, ())])

    def raising(self, p):
        """what each function certainly may raise by itself or through what it calls, not counting what it handles"""
        simple = {}
        for q in p.classes:
            simple.setdefault(q.rsplit('.', 1)[-1], set()).add(q)

        def exc(n):
            n = n.func if isinstance(n, ast.Call) else n
            name = getattr(n, 'id', None) or getattr(n, 'attr', None)
            qs = simple.get(name, ())
            return next(iter(qs)) if len(qs) == 1 else 'builtins.' + name if name and isinstance(getattr(builtins, name, None), type) else None

        def handled(q, stack):
            return any(p.is_subclass(q, t) or t in ANY for t in stack)
        body = {}
        for q, f in p.functions.items():
            if q not in self.own:
                continue
            raised, called = set(), []

            def walk(n, stack):
                if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                    return
                if isinstance(n, ast.Try):
                    inner = list(stack)
                    for h in n.handlers:
                        if not any(isinstance(x, ast.Raise) for b in h.body for x in ast.walk(b)):
                            ts = [None] if h.type is None else h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                            inner += ['builtins.BaseException' if t is None else exc(t) or 'builtins.BaseException' for t in ts]
                    for b in n.body:
                        walk(b, inner)
                    for b in n.handlers + n.orelse + n.finalbody:
                        walk(b, stack)
                    return
                if isinstance(n, ast.Raise) and n.exc is not None:
                    x = exc(n.exc)
                    if x and not handled(x, stack):
                        raised.add(x)
                if isinstance(n, ast.Call):
                    name = getattr(n.func, 'id', None) or getattr(n.func, 'attr', None)
                    if name and name not in COMMON and not (isinstance(n.func, ast.Attribute) and 'log' in ast.unparse(n.func.value).lower()):
                        called.append((name, list(stack)))
                for c in ast.iter_child_nodes(n):
                    walk(c, stack)
            for b in f.node.body:
                walk(b, [])
            body[q] = raised, called
        self.raised = {q: set(r) for q, (r, _) in body.items()}
        changed = True
        while changed:
            changed = False
            for q, (_, called) in body.items():
                for name, stack in called:
                    # (a function that hands on to one of the same name: to whichever it is)
                    found = self.may_raise(name) if name != q.rsplit('.', 1)[-1] else set().union(
                        *[self.raised[g] for g in self.byname.get(name, ()) if g != q])
                    for x in found - self.raised[q]:
                        if not handled(x, stack):
                            self.raised[q].add(x)
                            changed = True

    def may_raise(self, name):
        gs = self.byname.get(name)
        return set.intersection(*[self.raised[g] for g in gs]) if gs else BUILTIN.get(name, set())

    def call_raises(self, t, name):
        """.. the call t, of the functions of that name that take its arguments; with the library's base classes"""
        gs = [g for g in self.byname.get(name, ()) if fits(self.p.functions[g], t)]
        if not gs:
            return self.may_raise(name)
        return set.intersection(*[{b for x in self.raised[g] for b in [x] + (self.p.mro(x) if x in self.p.classes else [])
                                   if b and not (b in ANY or b == 'builtins.object')} for g in gs])

    def call(self, name):
        return [(self.p.functions[q],) + self.all[q] for q in self.byname.get(name, ())]


def fits(f, t):
    if any(a.op == 'star' for a in t.args[1]) or any(k is None for k, _ in t.args[2]):
        return True
    a = f.node.args
    ps = f.params[1:] if f.is_method else f.params
    return (a.vararg is not None or len(t.args[1]) <= len(ps)) and (a.kwarg is not None or all(k in ps + f.kwonly for k, _ in t.args[2])) and \
        all(q in f.defaults or i < len(t.args[1]) or any(k == q for k, _ in t.args[2]) for i, q in enumerate(ps))


def has_attr(n):
    return any(isinstance(x, ast.Attribute) for x in ast.walk(n))


def is_self(n):
    while isinstance(n, (ast.Attribute, ast.Subscript)):
        n = n.value
    return isinstance(n, ast.Name) and n.id == 'self'


def footprints(p):
    f = p.__dict__.get('_footprints')
    if f is None:
        f = p._footprints = Footprints(p)
    return f


def places(t, depth=0):
    if depth > 6:
        return set()
    if t.op == 'attr':
        return {t.args[1]} if isinstance(t.args[1], str) else set()
    if t.op in ('sub', 'elem', 'index'):
        return places(t.args[0], depth + 1)
    if t.op in ('first', 'last'):
        return places(t.args[0], depth + 1)
    if t.op == 'param':
        return {('param', t.args[0])}
    if t.op == 'new':
        return {('new', t.id)}
    if t.op == 'call':
        out = set()
        fn = t.args[0]
        if fn.op == 'attr':
            out |= places(fn.args[0], depth + 1)
        for a in t.args[1]:
            out |= places(a, depth + 1)
        return out
    if t.op == 'ite':
        return places(t.args[1], depth + 1) | places(t.args[2], depth + 1)
    return set()


class Event:
    __slots__ = ('key', 'order', 'cond', 'reads', 'writes', 'adds', 'loc', 'raises', 'handlers', 'base', 'loops')

    def __init__(self, key, order, cond, reads, writes, adds, loc):
        self.key, self.order, self.cond, self.reads, self.writes, self.adds, self.loc = key, order, cond, reads, writes, adds, loc


def conflict(a, b):
    if a.adds and b.adds:
        return False
    return bool(a.writes & (b.reads | b.writes) or b.writes & a.reads)


def looked(fp, what, t):
    """places read by iterating over, testing membership in, ... t"""
    out = places(t)
    if any(isinstance(x, str) and x.endswith('repertoire') for x in out) or any(isinstance(x, tuple) and x[0] == 'param' and
                                                                             str(x[1]).endswith('repertoire') for x in out):
        out = out | fp.dunder[what]
    return out


def events(summary, cn, p):
    from .interp import callee_name, receiver
    fp = footprints(p)
    out = []

    def put(key, order, cond, reads, writes, adds=False, loc=None, raises=(), handlers=(), base=None, loops=()):
        if (reads or writes or raises) and cond is not FALSE:
            x = Event(key, order, cond, frozenset(reads), frozenset(writes), adds, loc)
            x.raises, x.handlers, x.base, x.loops = raises, handlers, base, loops
            out.append(x)
    for e in summary.effects:
        k = e.kind
        if k == 'call':
            name, r = callee_name(e.term), receiver(e.term)
            if name in ADDERS and r is not None:
                continue
            reads, writes = set(), set()
            if name in CHANGERS and r is not None:
                writes |= places(r)
            else:
                fs = fp.call(name) if name not in COMMON else []
                vals = list(e.term.args[1]) + [v for _, v in e.term.args[2]]
                if fs:
                    for f, rd, wr in fs:
                        reads |= rd
                        writes |= {x for x in wr if isinstance(x, str)}
                        ps = f.params[1:] if f.is_method else f.params
                        bound = list(zip(ps, e.term.args[1])) + list(e.term.args[2])
                        for q, v in bound:
                            (writes if ('param', q) in wr else reads).update(places(v))
                else:
                    for v in vals + ([r] if r is not None else []):
                        reads |= looked(fp, '__iter__' if name != 'len' else '__len__', v)
            put(('call', cn.t(e.term)), e.order, cn.g(e.cond), reads, writes, loc=e.loc, raises=fp.call_raises(e.term, name), handlers=e.handlers,
                loops=[it for it, _ in e.loops])
        elif k == 'store_attr':
            put((k, cn.t(e.target), cn.t(e.value)), e.order, cn.g(e.cond), (), {e.target.args[1]}, loc=e.loc)
        elif k in ('store_sub', 'aug', 'emit', 'emit_all', 'del_sub', 'del_attr'):
            base = e.target
            if k in ('store_sub', 'aug', 'del_sub') and base.op == 'sub':
                base = base.args[0]
            w = places(base)
            put((k, cn.t(e.target), cn.t(e.value) if e.value is not None else None), e.order, cn.g(e.cond), (), w,
                adds=k in ('emit', 'emit_all', 'aug', 'store_sub'), loc=e.loc, loops=[it for it, _ in e.loops])
    for what, t, base, order, cond, loc in summary.an.reads:
        if what == '__iter__':
            t = T('iter', plain(cn.t(base)))
        put((what, t if what == '__iter__' else cn.t(t)), order - 0.5, cn.g(cond), looked(fp, what, base), (), loc=loc, base=base)
    by = {}
    for e in out:
        by.setdefault(e.key, []).append(e)
    return by


def relation(xs, ys):
    before = after = FALSE
    for a in xs:
        for b in ys:
            g = And(a.cond, b.cond)
            if g is FALSE:
                continue
            if a.order < b.order:
                before = Or(before, g)
            else:
                after = Or(after, g)
    return before, after


def swapped(want, got):
    """[(first event, then event)] of the reference that come the other way round in the code"""
    keys = [k for k in want if k in got]
    out = []
    for i, k1 in enumerate(keys):
        for k2 in keys[:i]:
            if not any(conflict(a, b) for a in want[k1] for b in want[k2]):
                continue
            b1, a1 = relation(want[k1], want[k2])
            b2, a2 = relation(got[k1], got[k2])
            if (b1 is FALSE) == (a1 is FALSE) or (b2 is FALSE) == (a2 is FALSE):
                continue
            if (b1 is FALSE) != (b2 is FALSE):
                out.append((want[k1][0], want[k2][0], got[k1][0]) if a1 is FALSE else (want[k2][0], want[k1][0], got[k2][0]))
    return out


def handling(p, want, got):
    """(call, exception, whether the code lets it through) where the code and the reference differ in what they handle"""
    out = []
    for k, ws in want.items():
        gs = got.get(k)
        if not gs or k[0] != 'call':
            continue
        for x in sorted(set(ws[0].raises)):
            w, g = ([catches(p, e, x) for e in es] for es in (ws, gs))
            if all(a for a, _ in w) and not any(a for a, _ in g):
                if not all(cannot_raise(e, x) for e in gs):
                    out.append((ws[0], x, True, gs[0]))
            elif not any(a for a, _ in w) and all(b for _, b in g):
                out.append((ws[0], x, False, gs[0]))
    return out


def cannot_raise(e, x):
    """looked for only where it is known to be there"""
    t = e.key[1]
    if x != 'builtins.ValueError' or t.op != 'call' or t.args[0].op != 'attr' or t.args[0].args[1] not in ('index', 'remove') or len(t.args[1]) != 1:
        return False
    return implies(e.cond, atom(T('in', t.args[1][0], t.args[0].args[0])))


def catches(p, e, x):
    """(handled at all, and swallowed)"""
    for types, again in e.handlers:
        if any(t in ANY or p.is_subclass(x, t) for t in types):
            return True, not again
    return False, False


def plain(t):
    """what is gone through, without the copy made for it"""
    while True:
        if t.op == 'sub' and t.args[1].op == 'slice' and all(a.op == 'const' and a.args[0] is None for a in t.args[1].args):
            t = t.args[0]
            continue
        u = strip_seq(t)
        if u.op == 'cnew' and len(u.args) == 2 and len(u.args[1]) == 1:
            i = u.args[1][0]
            if i.op == 'item' and i.args[0].op == 'put1' and i.args[0].args[0].op == 'elem' and i.args[1].args[0] is TRUE and len(i.args[2]) == 1:
                u = i.args[0].args[0].args[0]
        if u is t:
            return t
        t = u


def direct(t):
    """nothing is copied: what the loop changes, it goes through"""
    if t.op == 'call' and t.args[0].op == 'attr':
        return t.args[0].args[1] in ('keys', 'values', 'items') and direct(t.args[0].args[0])
    if t.op == 'sub' and t.args[1].op == 'slice':
        return False
    return t.op in ('attr', 'param', 'sub', 'elem')


def unsteady(want, got):
    """loops over a container that they change, where the reference goes through a copy"""
    out = []
    for k, ws in want.items():
        if k[0] != '__iter__' or any(direct(w.base) for w in ws):
            continue
        for g in got.get(k, ()):
            if not direct(g.base):
                continue
            ps = places(g.base)
            for es in got.values():
                for e in es:
                    if e.loops and any(plain(it) is plain(g.base) for it in e.loops) and e.writes & ps:
                        out.append((ws[0], e))
    return out
