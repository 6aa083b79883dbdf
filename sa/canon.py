"""Position- and spelling-independent form of a summary.

Local names, line numbers, allocation sites and loop-carried variables are replaced by what they
hold (a container by what is put in it and when; a loop variable by its initial value and its
update), so that the summaries of two spellings of one behaviour become the same set of items.
"""
from .terms import *
from .terms import _vars, _atoms
from . import terms as TM
from .interp import REMOVERS, OTHER_MUT, callee_name, receiver, harmless, unless_left

IMPRECISE = {'opaque', 'choice', 'pattern', 'while', 'during', 'gen'}
MAX_ACTIVE = 10


class Canon:
    project = None

    def __init__(self, summary):
        self.s, self.an = summary, summary.an
        Canon.project = self.an.p
        self.memo = {}
        self.gmemo = {}
        self.active = []
        self.low = 99
        self.by_new = {}
        self.index(summary.effects)

    def index(self, effects):
        for e in effects:
            t = None
            if e.kind in ('emit', 'emit_all'):
                t = e.target
            elif e.kind in ('store_sub', 'aug', 'del_sub') and e.target is not None and e.target.op == 'sub':
                t = e.target.args[0]
            elif e.kind == 'del_sub':
                t = e.target
            elif e.kind == 'call' and callee_name(e.term) in (REMOVERS | OTHER_MUT) and callee_name(e.term) != 'insert':
                t = receiver(e.term)
            if t is not None and t.op == 'new':
                self.by_new.setdefault(t, []).append(e)

    # -- terms ---------------------------------------------------------------
    def t(self, x):
        r = self.memo.get(x)
        if r is not None:
            return r
        key = (x, tuple(self.active))
        r = self.memo.get(key)
        if r is None:
            outer, self.low = self.low, 99
            r = self._t(x)
            # a result that refers to no enclosing container is the same everywhere
            self.memo[x if self.low >= len(self.active) else key] = r
            self.low = min(outer, self.low)
        elif self.active:
            self.low = 0
        return r

    def hole(self, x):
        i = self.active.index(x)
        self.low = min(self.low, i)
        return T('hole', len(self.active) - 1 - i)

    def cut(self):
        if len(self.active) >= MAX_ACTIVE:
            self.low = 0
            return True

    def any_(self, x):
        if isinstance(x, Term):
            return self.t(x)
        if isinstance(x, Node):
            return self.g(x)
        if isinstance(x, tuple):
            return tuple(self.any_(y) for y in x)
        return x

    def _t(self, x):
        op = x.op
        if op in ('const', 'param', 'self', 'glob', 'unbound', 'reraise', 'hole', 'super'):
            return x
        if op == 'new':
            if x in self.active:
                return self.hole(x)
            if self.cut():
                return T('cnew', self.kind(x))
            self.active.append(x)
            c = self.contents(x)
            self.active.pop()
            return made_of(self.kind(x), c)
        if op == 'loopvar':
            if x in self.an.counters:
                return self.t(self.an.counters[x])
            if x in self.active:
                return self.hole(x)
            if self.cut() or x not in self.an.updates:
                return T('clv', self.t(x.args[3]))
            self.active.append(x)
            u = self.t(self.an.updates[x])
            self.active.pop()
            if x.args[3] is const(True) and (u.op == 'bool' or u.op == 'const' and isinstance(u.args[0], bool) or
                                             u.op == 'cases' and all(c.args[1].op == 'hole' or is_const(c.args[1]) and isinstance(c.args[1].args[0], bool)
                                                                     for c in u.args[0])):
                # a flag that starts set: the negation of one that starts clear
                u = negated(truth_c(u))
                if u is not None:
                    return boolean(Not(TM.atom(T('truthy', T('clv', const(False), boolean(u))))))
            elif x.args[3] is const(False) and u.op == 'cases' and all(c.args[1].op == 'hole' or is_const(c.args[1]) and isinstance(c.args[1].args[0], bool)
                                                                     for c in u.args[0]):
                u = boolean(truth_c(u))
            return T('clv', self.t(x.args[3]), u)
        if op in ('list', 'set', 'dict'):
            items = []
            if self.cut():
                return T('cnew', op)
            self.active.append(None)
            for i in x.args[0] if x.args else ():
                if op == 'dict':
                    if i[0].op == 'star':
                        items += self.spread(self.t(i[1]), TRUE, (), op)
                    else:
                        items += [[T('put', a, b), g, ()] for a, b, g in self.split2(i[0], i[1], TRUE)]
                elif i.op == 'star':
                    items += self.spread(self.t(i.args[0]), TRUE, (), op)
                else:
                    items += [[T('put1', v), g, ()] for v, g in self.split(self.t(i), TRUE)]
            self.active.pop()
            return made_of(op, self.merge(items, op))
        if op == 'tuple':
            return retupled(T('tuple', self.any_(x.args[0])))
        if op == 'closure':
            return self.closure(x)
        if op == 'opaque':
            return T('opaque', x.args[0], x.args[1])
        if op == 'while':
            if x in self.active:
                return self.hole(x)
            if self.cut() or x not in self.an.while_cond:
                return T('while')
            self.active.append(x)
            c = self.g(self.an.while_cond[x])
            self.active.pop()
            return T('while', T('guard', c))
        if op == 'exc':
            return T('exc', x.args[0])
        if op == 'raises':
            calls = {self.t(c) for c in x.args[1]}
            calls = {c for c in calls if not harmless(c)}
            if {t.rsplit('.', 1)[-1] for t in x.args[0]} == {'KeyError'}:
                calls = {c for c in calls if c.op != 'call' or callee_name(c) is None or self.an.p.may_raise_key_error(callee_name(c))}
            elif all(t in self.an.p.classes for t in x.args[0]):
                calls = {c for c in calls if c.op == 'call' and (callee_name(c) is None or self.an.p.may_raise_own(callee_name(c)))}
            return T('raises', x.args[0], tuple(sorted(calls, key=lambda c: c.id)))
        if op in ('heaphead', 'heapafter'):
            return T(op, x.args[0], self.t(x.args[1]))
        if op == 'gencall':
            return T('gencall', x.args[0], self.any_(x.args[1]))
        if op == 'truthy_after':
            return T('truthy_after', self.t(x.args[0]))
        if op == 'ite':
            return cases([(self.g(g), self.t(v)) for g, v in leaves(x)])
        if op == 'bool':
            return boolean(self.g(x.args[0]))
        if op == 'eq':
            return boolean(self.eq(self.t(x.args[0]), self.t(x.args[1])))
        if op == 'in':
            return boolean(self.in_(self.t(x.args[0]), self.t(x.args[1])))
        if op == 'lt':
            return boolean(lt_(self.t(x.args[0]), self.t(x.args[1])))
        if op == 'fold':
            c = self.counted(x)
            if c is not None:
                return c
            c = self.concatenated(x)
            if c is not None:
                return c
        if op == 'sub':
            return sub_(self.t(x.args[0]), self.t(x.args[1]))
        if op == 'is' and x.args[1] is not NONE:
            a, b = self.t(x.args[0]), self.t(x.args[1])
            if a.id > b.id:
                a, b = b, a
            return T('is', a, b)
        if op == 'call':
            fn = self.t(x.args[0])
            args = tuple(self.t(a) for a in x.args[1])
            kw = tuple((k, self.t(v)) for k, v in x.args[2])
            n = callee_name(x)
            if fn.op == 'attr' and n == 'get' and len(args) in (1, 2) and not kw and fn.args[0].op not in ('glob', 'cases'):
                # a dictionary lookup with a default
                d = fixed_keys(fn.args[0])
                if d is not None:
                    hit, rest = [], TRUE
                    for k, v in d.items():
                        g = self.eq(args[0], k)
                        hit.append((And(rest, g), v))
                        rest = And(rest, Not(g))
                    return cases(hit + [(rest, args[1] if len(args) > 1 else NONE)])
                g = self.in_(args[0], fn.args[0])
                return cases([(g, sub_(fn.args[0], args[0])), (Not(g), args[1] if len(args) > 1 else NONE)])
            if fn.op == 'attr' and n in SETOPS and len(args) == 1 and not kw:
                return setop(SETOPS[n], fn.args[0], args[0])
            if n in ('split', 'rsplit') and fn.op == 'attr' and not args and not kw:
                # without a separator: white space at the ends does not count
                b = fn.args[0]
                while b.op == 'call' and b.args[0].op == 'attr' and b.args[0].args[1] in ('strip', 'lstrip', 'rstrip') and not b.args[1]:
                    b = b.args[0].args[0]
                fn = T('attr', b, 'split')
            if n == 'strip' and fn.op == 'attr' and not args and not kw and is_call(fn.args[0], 'strip'):
                return fn.args[0]
            if fn.op == 'glob' and fn.args[0] in ('builtins.set.' + n, 'builtins.frozenset.' + n) and n in SETOPS and len(args) == 2 and not kw:
                return setop(SETOPS[n], args[0], args[1])
            if fn.op == 'attr' and n in SETOPS and len(args) == 2 and not kw and fn.args[0].op == 'glob' and fn.args[0].args[0] in ('builtins.set', 'builtins.frozenset'):
                return setop(SETOPS[n], args[0], args[1])
            if fn.op == 'glob' and fn.args[0] in ('builtins.open', 'io.open'):
                fn = T('glob', 'io.open')
                if len(args) == 1:
                    args += tuple(v for k, v in kw if k == 'mode')
                    kw = tuple((k, v) for k, v in kw if k != 'mode')
                if len(args) == 2 and args[1] in (const('r'), const('rt')):
                    args = args[:1]
            if n == 'next' and fn.op == 'glob' and len(args) == 1 and not kw and is_glob_call(args[0], 'builtins.iter'):
                a = args[0].args[1][0]
                while is_call(a, 'keys'):
                    a = a.args[0].args[0]
                return sub_(T('call', T('glob', 'builtins.list'), (a,), ()), const(0))
            # wrappers that do not change what is iterated or joined
            if fn.op == 'glob' and fn.args[0] in ('builtins.list', 'builtins.tuple', 'builtins.set', 'builtins.frozenset') and len(args) == 1 and not kw:
                a = args[0]
                while is_glob_call(a, 'builtins.list', 'builtins.iter') or is_call(a, 'keys'):
                    a = a.args[0].args[0] if is_call(a, 'keys') else a.args[1][0]
                k = {'builtins.list': 'list', 'builtins.tuple': 'tuple', 'builtins.set': 'set'}.get(fn.args[0], 'set')
                if a.op == 'cnew' and len(a.args) == 2 and (a.args[0] in ('list', k)):
                    return T('cnew', k, a.args[1])
                if k == 'list' and is_glob_call(a, 'builtins.sorted') or fn.args[0] == 'builtins.set' and a.op == 'bin' and surely_set(a):
                    return a
                return T('call', fn, (a,), kw)
            if n == 'join' and fn.op == 'attr' and len(args) == 1 and args[0].op == 'cnew' and len(args[0].args) == 2 and args[0].args[0] == 'list':
                # formatting
                args = (T('cnew', 'list', tuple(T('item', T('put1', unstr(i.args[0].args[0])), *i.args[1:]) if i.args[0].op == 'put1' else i
                                                for i in args[0].args[1])),)
                if len(args[0].args[1]) == 1:
                    args = (made_of('list', args[0].args[1]),)
            if n == 'join' and fn.op == 'attr' and is_const(fn.args[0]) and isinstance(fn.args[0].args[0], str) and len(args) == 1 and not kw:
                parts = fixed_items(args[0]) or sometimes(fn.args[0], args[0])
                if parts:
                    from .interp import fmt
                    if isinstance(parts[0], tuple):
                        return fmt([y for p in parts for y in p])
                    return fmt([y for p in parts for y in (fn.args[0], unstr(p))][1:])
            if n in ('join', 'sorted', 'sum', 'max', 'min', 'any', 'all', 'extend', 'update', 'union') and args:
                args = tuple(cases([(c.args[0].args[0], strip_seq(c.args[1])) for c in a.args[0]]) if a.op == 'cases' else strip_seq(a) for a in args)
            if n == 'sorted' and len(args) == 1 and fn.op == 'glob' and is_call(args[0], 'keys'):
                args = (args[0].args[0].args[0],)
            if n == 'len' and fn.op == 'glob' and len(args) == 1 and args[0].op == 'cnew' and args[0].args[0] == 'list' and len(args[0].args) == 2 \
                    and args[0].args[1] and all(i.args[0].op == 'put1' and i.args[2] for i in args[0].args[1]):
                return total([(const(1), i.args[1].args[0], i.args[2]) for i in args[0].args[1]])
            if n == 'sum' and fn.op == 'glob' and len(args) == 1 and args[0].op == 'cnew' and args[0].args[0] == 'list' and len(args[0].args) == 2 \
                    and args[0].args[1] and all(i.args[0].op == 'put1' for i in args[0].args[1]):
                return total([(i.args[0].args[0], i.args[1].args[0], i.args[2]) for i in args[0].args[1]])
            return T('call', fn, args, kw)
        if op == 'bin' and x.args[0] == 'Sub':
            a, b = self.t(x.args[1]), self.t(x.args[2])
            return setop('Sub', a, b) if known_set(a) or known_set(b) else T('bin', 'Sub', a, b)
        if op == 'bin' and x.args[0] in ('BitOr', 'BitAnd', 'BitXor'):
            return setop(x.args[0], self.t(x.args[1]), self.t(x.args[2]))
        if op == 'bin' and x.args[0] in ('Add', 'Mult'):
            a, b = self.t(x.args[1]), self.t(x.args[2])
            if x.args[0] == 'Add' and (is_list(a) or is_list(b)) and not has_hole(a) and not has_hole(b):
                return made_of('list', self.merge(self.spread(a, TRUE, (), 'list') + self.spread(b, TRUE, (), 'list'), 'list'))
            if a.id > b.id and (x.args[0] == 'Mult' or numeric(a) or numeric(b)):
                a, b = b, a
            return T('bin', x.args[0], a, b)
        return T(op, *[self.any_(a) for a in x.args])

    def kind(self, x):
        k = x.args[0]
        return 'list' if k in ('gen', 'list', 'text') else k

    def contents(self, x):
        al = self.an.allocs.get(x)
        items = []
        if al is not None and al.init:
            for i in al.init:
                if isinstance(i, tuple) and i[0].op == 'star':
                    items += self.spread(self.t(i[1]), TRUE, (), self.kind(x))
                elif isinstance(i, tuple):
                    items += [[T('put', a, b), g, ()] for a, b, g in self.split2(i[0], i[1], TRUE)]
                elif i.op == 'star':
                    items += self.spread(self.t(i.args[0]), TRUE, (), self.kind(x))
                else:
                    items += [[T('put1', v), g, ()] for v, g in self.split(self.t(i), TRUE)]
        made = al.cond if al is not None else TRUE
        at = al.loops if al is not None else ()
        for e in self.by_new.get(x, ()):
            loops = self.loops(e)
            if at and e.loops[:len(at)] == at:
                loops = loops[sum(1 for it, _ in at if it is not None):]
            # it exists only if it was made
            econd = e.cond if made is TRUE or not implies(e.cond, made) else constrain(e.cond, made)
            for lp in e.within[len(at):]:
                if lp.left is not FALSE and lp.it is not None:
                    econd = unless_left(lp.it, nesting(lp), lp.left, econd)
            if e.kind == 'emit' and 'pos' not in e.extra:
                if self.kind(x) == 'dict':
                    v = e.value
                    if v.op == 'tuple' and len(v.args[0]) == 2:
                        its = [(T('put', a, b), g) for a, b, g in self.split2(v.args[0][0], v.args[0][1], econd)]
                    else:
                        its = [(T('put?', self.t(v)), self.g(econd))]
                else:
                    its = [(T('put1', v), g) for v, g in self.split(self.t(e.value), self.g(econd))]
            elif e.kind == 'emit':
                its = [(T('ins', self.t(e.extra['pos']), self.t(e.value)), self.g(econd))]
            elif e.kind == 'emit_all':
                for v, g in self.split(self.t(e.value), self.g(econd)):
                    for l in loops:
                        g = nonempty(l, g)
                    items += self.spread(v, g, loops, self.kind(x))
                continue
            elif e.kind == 'store_sub':
                its = [(T('put', a, b), g) for a, b, g in self.split2(e.target.args[1], e.value, econd)]
            elif e.kind == 'aug':
                its = [(T('augput', a, e.extra.get('op'), b), g) for a, b, g in self.split2(e.target.args[1], e.value, econd)]
            elif e.kind == 'del_sub':
                its = [(T('delput', self.t(e.value)), self.g(econd))]
            elif callee_name(e.term) == 'sort' and not loops and not e.term.args[1] and implies(made, e.cond):
                # from here on it holds what it held, in order
                kw = tuple((k, self.t(v)) for k, v in e.term.args[2])
                v = T('call', T('glob', 'builtins.sorted'), (strip_seq(made_of('list', self.merge(items, 'list'))),), kw)
                items = [(T('put1', T('elem', v, 0)), TRUE, (v,))]
                continue
            elif callee_name(e.term) in ('discard', 'difference_update') and len(e.term.args[1]) == 1:
                v, g = self.t(e.term.args[1][0]), self.g(econd)
                for x, h, ls in elements(v, g, loops, False) if callee_name(e.term) == 'difference_update' else [(v, g, loops)]:
                    items.append((T('mut', 'discard', (x,)), h, ls))
                continue
            else:
                its = [(T('mut', callee_name(e.term), self.any_(e.term.args[1])), self.g(econd))]
            for v, g in its:
                for l in loops:
                    g = nonempty(l, g)
                items.append((v, g, loops))
        return self.merge(items, self.kind(x))

    def spread(self, v, g, loops, kind):
        """what is put into a container by putting in everything v holds"""
        if kind == 'dict':
            while v.op == 'call' and v.args[0].op == 'glob' and v.args[0].args[0] == 'builtins.dict' and len(v.args[1]) == 1 and not v.args[2]:
                v = v.args[1][0]
            if v.op == 'cnew' and v.args[0] == 'dict' and len(v.args) == 2 and not has_hole(v) and \
                    not any(l in loops for i in v.args[1] for l in i.args[2]):
                return [(i.args[0], And(g, i.args[1].args[0]), loops + i.args[2]) for i in v.args[1]]
            if is_fromkeys(v) and strip_seq(v.args[1][0]).op in ('list', 'tuple', 'cnew', 'set'):
                w = v.args[1][1] if len(v.args[1]) > 1 else NONE
                return [(T('put', x, w), h, l) for x, h, l in elements(v.args[1][0], g, loops, True)]
            return [(T('putall', v), g, loops)]
        return [(T('put1', x), h, l) for x, h, l in elements(v, g, loops, kind != 'set')]

    def merge(self, items, kind):
        merged = []
        items = [x for v, g, l in items for x in (unfold(v, g, l) if l else ((v, g, l),))]
        if kind == 'dict':
            items = accumulated(items)
        ordered = kind in ('list', 'tuple')
        for v, g, l in items:
            if g is FALSE:
                continue
            for i, m in enumerate(merged):
                if m[0] is v and m[2] == l and (not ordered or And(m[1], g) is FALSE and
                                                all(And(o[1], g) is FALSE for o in merged[i + 1:])):
                    m[1] = Or(m[1], g)
                    break
            else:
                merged.append([v, g, l])
        if kind == 'dict':
            ordered = any(m[0].op != 'put' or m[0].args[0].op != 'const' for m in merged)
        if not ordered or all(And(a[1], b[1]) is FALSE or a is b for a in merged for b in merged):
            merged.sort(key=lambda m: (m[0].id, m[1].id))
        return tuple(T('item', v, T('guard', g), l) for v, g, l in merged)

    def closure(self, x):
        node, cfr, env = self.an.closures[x]
        a = node.args
        n = len(a.posonlyargs + a.args)
        if self.cut() or x in self.active:
            self.low = 0
            return T('closure', n)
        an = self.an
        from .interp import State, Frame
        sl, so, stt, stack, seff = an.loops, an.outer, an.trys, an.stack, an.effects
        an.loops, an.outer, an.trys, an.stack, an.effects = [], [], [], [], []
        self.active.append(x)
        try:
            an.frames.append(cfr)
            st = State(dict(env), {}, TRUE)
            import ast
            fake = ast.Constant(value=0)
            fake.lineno, fake.col_offset = -7, len(self.active)
            r = an.inline_closure(x, [T('larg', i) for i in range(n)], {}, st, fake)
            effects, an.effects = an.effects, seff
            self.index(effects)
            r = self.t(r)
            does = self.does(effects)
        finally:
            self.active.pop()
            an.frames.pop()
            an.loops, an.outer, an.trys, an.stack, an.effects = sl, so, stt, stack, seff
        if does:
            return T('fun', n, r, does)
        if r.op == 'call' and r.args[1] == tuple(T('larg', i) for i in range(n)) and not r.args[2] and not contains(r.args[0], lambda y: y.op == 'larg'):
            return r.args[0]
        return T('fun', n, r)

    def does(self, effects):
        """what calling a function leaves behind, besides its value"""
        out = []
        for e in effects:
            base = e.target
            if e.kind in ('store_sub', 'aug', 'del_sub', 'store_attr', 'del_attr') and base is not None and base.op in ('sub', 'attr'):
                base = base.args[0]
            if e.kind == 'call':
                base = receiver(e.term)
            if base is not None and base.op == 'new' or e.kind in ('log', 'call') and not (
                    e.kind == 'call' and callee_name(e.term) in (REMOVERS | OTHER_MUT)) or e.kind == 'raise' and e.caught:
                continue
            what = e.term if e.kind in ('call', 'raise') else T('pair', (e.target if e.target is not None else NONE, e.value if e.value is not None else NONE))
            for v, g in self.split(self.t(what), self.g(e.cond)):
                if g is not FALSE:
                    out.append(T('does', e.kind, v, T('guard', g), self.loops(e)))
        return tuple(sorted(set(out), key=lambda t: t.id))

    # -- guards ----------------------------------------------------------------
    def g(self, n):
        if n is TRUE or n is FALSE:
            return n
        r = self.gmemo.get(n.id)
        if r is not None:
            return r
        key = (n.id, tuple(self.active))
        r = self.gmemo.get(key)
        if r is None:
            outer, self.low = self.low, 99
            a = self.atom(_atoms[n.var])
            r = ite(a, self.g(n.hi), self.g(n.lo))
            self.gmemo[n.id if self.low >= len(self.active) else key] = r
            self.low = min(outer, self.low)
        elif self.active:
            self.low = 0
        return r

    def atom(self, a):
        if a.op == 'any':
            return any_guard(self.t(a.args[0]), a.args[1], self.g(a.args[2]))
        if a.op == 'noearlier':
            return no_earlier(self.t(a.args[0]), a.args[1], self.g(a.args[2].args[0]))
        c = self.t(a)
        if c.op == 'const' and isinstance(c.args[0], bool):
            return TRUE if c.args[0] else FALSE
        if c.op == 'bool':
            return c.args[0]
        if c.op == 'truthy':
            x = c.args[0]
            if x.op == 'call' and x.args[0].op == 'attr' and x.args[0].args[1] in ('startswith', 'endswith') and len(x.args[1]) == 1 and \
                    not x.args[2] and is_const(x.args[1][0]) and isinstance(x.args[1][0].args[0], str) and x.args[1][0].args[0]:
                s, fix, head = x.args[0].args[0], x.args[1][0], x.args[0].args[1] == 'startswith'
                n = len(fix.args[0])
                if n == 1:
                    return And(truth_c(s), self.eq(T('sub', s, const(0 if head else -1)), fix))
                return self.eq(T('sub', s, T('slice', NONE, const(n), NONE) if head else T('slice', const(-n), NONE, NONE)), fix)
            return truth_c(x)
        if c.op == 'raises':
            return raises_(self, c)
        if c.op == 'is' and c.args[1] is NONE and c.args[0].op == 'call' and callee_(c.args[0]) in ('match', 'search', 'fullmatch'):
            return is_none(c.args[0])
        if c.op == 'is' and c.args[1] is NONE and c.args[0].op in ('cases', 'cnew', 'const', 'fmt', 'tuple', 'list', 'sub'):
            return is_none(c.args[0])
        return TM.atom(c)

    # -- comparisons -------------------------------------------------------------
    def eq(self, a, b):
        if a is b:
            return TRUE
        if a.op == 'bool' and (b.op == 'bool' or is_const(b) and isinstance(b.args[0], bool)) or \
                b.op == 'bool' and is_const(a) and isinstance(a.args[0], bool):
            return ite(truth(a), truth(b), Not(truth(b)))
        if a.op == 'const' and b.op == 'const':
            return TRUE if a.args[0] == b.args[0] else FALSE
        for x, y in ((a, b), (b, a)):
            if x.op == 'cases' and (y.op == 'const' or len(x.args[0]) <= 5):
                return Or(*[And(c.args[0].args[0], self.eq(c.args[1], y)) for c in x.args[0]])
            if y is NONE:
                return is_none(x)
            if y is const('') and not is_const(x):
                return And(Not(is_none(x)), Not(truth_c(x)))        # text or nothing
        if a.op == 'tuple' and b.op == 'tuple' and not any(i.op == 'star' for i in a.args[0] + b.args[0]):
            if len(a.args[0]) != len(b.args[0]):
                return FALSE
            return And(*[self.eq(x, y) for x, y in zip(a.args[0], b.args[0])])
        da, db = fixed_keys(a), fixed_keys(b)
        if da is not None and db is not None:
            return And(*[self.eq(da[k], db[k]) for k in sorted(da, key=lambda k: k.id)]) if set(da) == set(db) else FALSE
        ka, kb = self.seq_kind(a), self.seq_kind(b)
        if ka is not None and ka == kb:
            a, b = strip_kind(a), strip_kind(b)
            if a is b:
                return TRUE
        parts = alternatives(a, b)
        if parts:
            return Or(*[And(g, self.eq(x, y)) for x, y, g in parts])
        for x, y in ((a, b), (b, a)):
            if x.op == 'bin' and x.args[0] == 'Sub' and y.op == 'const' and type(y.args[0]) is int and y.args[0]:
                # x - y == n
                a, b = (x.args[1], T('bin', 'Add', y, x.args[2])) if y.args[0] > 0 else \
                    (T('bin', 'Add', const(-y.args[0]), x.args[1]), x.args[2])
                break
        if a.op == 'const' or (b.op != 'const' and a.id > b.id):
            a, b = b, a
        return TM.atom(T('eq', a, b))

    def seq_kind(self, t):
        if t.op == 'call' and t.args[0].op == 'glob' and t.args[0].args[0] in ('builtins.list', 'builtins.tuple') and len(t.args[1]) == 1:
            return t.args[0].args[0][9:]
        if t.op == 'attr' and self.an.p.always_tuple(t.args[1]):
            return 'tuple'
        return None

    def in_(self, x, y):
        while True:
            if y.op == 'call' and y.args[0].op == 'glob' and y.args[0].args[0] in CONTAINERS and len(y.args[1]) == 1:
                y = y.args[1][0]
            elif is_call(y, 'keys'):
                y = y.args[0].args[0]
            elif is_fromkeys(y):
                y = y.args[1][0]
            else:
                break
        if y.op == 'cases':
            return Or(*[And(c.args[0].args[0], self.in_(x, c.args[1])) for c in y.args[0]])
        if x.op == 'cases' and len(x.args[0]) <= 5:
            return Or(*[And(c.args[0].args[0], self.in_(c.args[1], y)) for c in x.args[0]])
        if y.op in ('tuple', 'list', 'set') and not any(i.op == 'star' for i in y.args[0]):
            return Or(*[self.eq(x, i) for i in y.args[0]])
        if y.op == 'cnew' and len(y.args) == 2 and not has_hole(y):
            g = FALSE
            for it in y.args[1]:
                v, gd, loops = it.args
                if v.op == 'put1' or v.op == 'put':
                    h = And(gd.args[0], self.eq(v.args[0], x))
                elif v.op == 'putall':
                    h = And(gd.args[0], self.in_(x, v.args[0]))
                else:
                    break
                if len(loops) > 1 and (len(set(loops)) < len(loops) or any(T('elem', l, 0) in subterms(x) for l in loops)):
                    break
                for l in reversed(loops):
                    h = any_guard(assume_term(l, gd.args[0]) if len(loops) == 1 else l, 0, h)
                g = Or(g, h)
            else:
                return g
        return TM.atom(T('in', x, y))

    # -- accumulators -------------------------------------------------------------
    def counted(self, x):
        it, k, init, e = x.args
        if not (init.op == 'const' and isinstance(init.args[0], int)) or isinstance(init.args[0], bool):
            return None
        terms = self.addends(x)
        if terms is None:
            return None
        t = total([(self.t(v), self.g(g), tuple(self.t(l) for l in loops)) for v, g, loops in terms])
        return t if init is const(0) else T('bin', 'Add', init, t)

    def concatenated(self, x):
        """r = ''; for ..: r += v"""
        it, k, init, e = x.args
        if not (init.op == 'const' and isinstance(init.args[0], str)):
            return None
        heads = [h for h in subterms(e) if h.op == 'loopvar' and h.args[3] is init]
        if len(heads) != 1:
            return None
        h, items = heads[0], []
        from .interp import fmt
        l = self.t(it)
        for g, v in leaves(e):
            if v is h:
                continue
            rest = None
            if v.op == 'fmt' and v.args[0][0] is h:
                rest = fmt(v.args[0][1:])
            elif v.op == 'bin' and v.args[0] == 'Add' and v.args[1] is h:
                rest = v.args[2]
            if rest is None or h in subterms(rest) or h in support_terms(g):
                return None
            items += [(T('put1', y), nonempty(l, z), (l,)) for y, z in self.split(unstr(self.t(rest)), self.g(g))]
        r = T('call', T('attr', const(''), 'join'), (strip_seq(made_of('list', self.merge(items, 'list'))),), ())
        return r if init is const('') else fmt([init, r])

    def addends(self, x):
        it, k, init, e = x.args
        heads = [h for h in subterms(e) if h.op == 'loopvar' and h.args[3] is init]
        if len(heads) != 1:
            return None
        h = heads[0]

        def acc(t):
            if t is h:
                return []
            if t.op == 'bin' and t.args[0] == 'Add':
                for a, b in ((t.args[1], t.args[2]), (t.args[2], t.args[1])):
                    if h in subterms(a) and h not in subterms(b):
                        r = acc(a)
                        return None if r is None else r + [(b, TRUE, ())]
                return None
            if t.op == 'ite':
                a, b = acc(t.args[1]), acc(t.args[2])
                if a is None or b is None or h in support_terms(t.args[0]):
                    return None
                return [(v, And(t.args[0], g), l) for v, g, l in a] + [(v, And(Not(t.args[0]), g), l) for v, g, l in b]
            if t.op == 'fold' and t.args[2] is h:
                return self.addends(t)
            return None
        r = acc(e)
        return None if r is None else [(v, g, (it,) + l) for v, g, l in r]

    def when(self, e):
        """the condition of an effect, with that of not having left the loops around it before"""
        g = self.g(e.cond)
        for lp in e.within:
            if lp.it is not None and lp.exit is not FALSE:
                out = self.g(lp.exit)
                if out is not FALSE and And(out, Not(g)) is not FALSE:
                    g = And(g, no_earlier(self.t(lp.it), nesting(lp), out))
        return g

    def loops(self, e):
        return tuple(self.t(it) for it, _ in e.loops if it is not None)

    # -- case split --------------------------------------------------------------
    def split(self, v, g, n=0):      # (self is not used)
        """(value, guard) pairs without conditional sub-terms where possible"""
        if g is FALSE:
            return []
        c = first_cases(v) if n < 5 else None
        if c is None:
            return [(v, g)]
        branches = [(x.args[0].args[0], x.args[1]) for x in c.args[0]] if c.op == 'cases' else \
            [(c.args[0], const(True)), (Not(c.args[0]), const(False))]
        out = []
        for bg, _ in branches:
            gg = And(g, bg)
            if gg is FALSE:
                continue
            out += Canon.split(self, assume_term(v, gg), gg, n + 1)
        m = []
        for a, b in out:
            for i, (x, y) in enumerate(m):
                if x is a:
                    m[i] = (x, Or(y, b))
                    break
            else:
                m.append((a, b))
        return m

    def split2(self, a, b, cond):
        return [(p.args[0][0], p.args[0][1], g) for p, g in
                self.split(T('pair', (self.t(a), self.t(b))), self.g(cond))]


def unstr(t):
    return t.args[1][0] if is_glob_call(t, 'builtins.str') else t


def is_list(t):
    return t.op == 'cnew' and len(t.args) == 2 and t.args[0] == 'list' or is_glob_call(t, 'builtins.list', 'builtins.sorted')


def is_glob_call(t, *names):
    return t.op == 'call' and t.args[0].op == 'glob' and len(t.args[1]) == 1 and t.args[0].args[0] in names


def retupled(t):
    """(e[0], .., e[n-1]) of an e known to be a tuple of n is e"""
    its = t.args[0]
    if len(its) < 2 or not all(i.op == 'sub' and i.args[1] is const(k) and i.args[0] is its[0].args[0] for k, i in enumerate(its)):
        return t
    e = its[0].args[0]
    if e.op != 'elem':
        return t
    b = e.args[0]
    while is_glob_call(b, *CONTAINERS) or is_fromkeys(b):
        b = b.args[1][0]
    if b.op == 'cnew' and len(b.args) == 2 and not has_hole(b) and \
            all(i.args[0].op in ('put1', 'put') and i.args[0].args[0].op == 'tuple' and len(i.args[0].args[0].args[0]) == len(its) for i in b.args[1]):
        return e
    return t


def fixed_items(v):
    """the items of a list of which it is known how many there are"""
    if v.op in ('tuple', 'list') and not any(i.op == 'star' for i in v.args[0]):
        return v.args[0]
    if v.op == 'cnew' and len(v.args) == 2 and v.args[0] in ('list', 'tuple') and not has_hole(v) and \
            all(i.args[0].op == 'put1' and i.args[1].args[0] is TRUE and not i.args[2] for i in v.args[1]):
        return tuple(i.args[0].args[0] for i in v.args[1])
    return None


def fixed_set(v):
    if v.op == 'cnew' and len(v.args) == 2 and v.args[0] == 'set' and not has_hole(v) and \
            all(i.args[0].op == 'put1' and i.args[1].args[0] is TRUE and not i.args[2] for i in v.args[1]):
        return tuple(i.args[0].args[0] for i in v.args[1])
    return None


def elements(v, g, loops, ordered):
    """(value, guard, loops) of what is met when v is gone through"""
    v = strip_seq(v)
    while not ordered and is_glob_call(v, *CONTAINERS):
        v = v.args[1][0]
    if is_call(v, 'keys') or is_call(v, 'copy'):
        v = v.args[0].args[0]
    if v.op == 'cases':
        parts = Canon.split(None, v, g)
        if len(parts) <= 4 and all(x.op != 'cases' for x, _ in parts):
            return [y for x, h in parts for y in elements(x, h, loops, ordered)]
    if v.op in ('tuple', 'list', 'set') and not any(i.op == 'star' for i in v.args[0]):
        return [(i, g, loops) for i in v.args[0]]
    if v.op == 'cnew' and len(v.args) == 2 and (not ordered or v.args[0] in ('list', 'tuple')) and not has_hole(v) and \
            all(i.args[0].op in ('put', 'put1') and not any(l in loops for l in i.args[2]) for i in v.args[1]):
        return [(i.args[0].args[0], And(g, i.args[1].args[0]), loops + i.args[2]) for i in v.args[1]]
    if is_call(v, 'items') or is_call(v, 'values'):
        d = v.args[0].args[0]
        e = T('elem', d, loops.count(d))
        x = T('sub', d, e)
        return [(T('tuple', (e, x)) if is_call(v, 'items') else x, nonempty(d, g), loops + (d,))]
    return [(T('elem', v, loops.count(v)), nonempty(v, g), loops + (v,))]


def unfold(v, g, loops, ordered=True):
    """(value, guard, loops) with loops over alternatives and over containers built on the spot taken apart"""
    out, done = [], ()
    todo = [(v, g, loops)]
    n = 0
    while todo:
        v, g, loops = todo.pop(0)
        if g is FALSE:
            continue
        n += 1
        for i, l in enumerate(loops):
            k = loops[:i].count(l)
            if n > 8 or not (l.op == 'cases' or l.op == 'cnew' and len(l.args) == 2 and l.args[0] in ('list', 'tuple')) or has_hole(l):
                continue
            if T('index', l, k) in subterms((v, g, loops)):
                continue
            e, parts = T('elem', l, k), []
            if l.op == 'cases':
                for c in l.args[0]:
                    w, h, ls = subst((v, g, loops[i + 1:]), e, T('elem', c.args[1], loops[:i].count(c.args[1])), {})
                    b = And(h, c.args[0].args[0])
                    if b is not FALSE:
                        parts.append((assume_term(w, b), assume_guard(b, c.args[0].args[0]), loops[:i] + (c.args[1],) + ls))
            elif all(x.args[0].op == 'put1' and not any(y in loops for y in x.args[2]) for x in l.args[1]) and len(l.args[1]) <= 4:
                for x in l.args[1]:
                    w, h, ls = subst((v, g, loops[i + 1:]), e, x.args[0].args[0], {})
                    parts.append((w, And(h, x.args[1].args[0]), loops[:i] + x.args[2] + ls))
            else:
                continue
            todo = parts + todo
            break
        else:
            out.append((v, g, loops))
    return out


def apart(g, loop):
    """(when every element of `loop` satisfies g, whatever it is; g for the others)"""
    if g is TRUE or len(TM.support(g)) > 6:
        return FALSE, g
    always = Not(TM.exists(Not(g), lambda a: any(x.op in ('elem', 'index', 'hole') and x.args and x.args[0] is loop or x.op == 'hole' for x in subterms(a))))
    return always, g if always is FALSE or always is TRUE else constrain(g, Not(always))


def made_of(kind, items):
    if len(items) == 1 and kind == 'list' and items[0].args[0].op == 'put1' and len(items[0].args[2]) == 1:
        # elements are kept, whatever they are, if something that is not about them holds
        v, g, loops = items[0].args
        always, rest = apart(g.args[0], loops[0])
        if always is not FALSE and rest is not FALSE:
            return cases([(always, made_of(kind, (T('item', v, T('guard', TRUE), loops),))),
                          (Not(always), made_of(kind, (T('item', v, T('guard', rest), loops),)))])
    if len(items) == 1 and kind in ('list', 'set', 'tuple'):
        v, g, loops = items[0].args
        if v.op == 'put1' and len(loops) == 1 and g.args[0] is TRUE and v.args[0] is T('elem', loops[0], 0) and not has_hole(loops[0]):
            if kind == 'list' and is_glob_call(loops[0], 'builtins.sorted'):
                return loops[0]
            return T('call', T('glob', 'builtins.' + kind), loops, ())
    return T('cnew', kind, items)


SETOPS = {'union': 'BitOr', 'intersection': 'BitAnd', 'symmetric_difference': 'BitXor', 'difference': 'Sub'}
CONTAINERS = {'builtins.set', 'builtins.list', 'builtins.tuple', 'builtins.frozenset', 'builtins.sorted', 'builtins.iter'}


def is_fromkeys(t):
    return t.op == 'call' and t.args[0].op == 'glob' and t.args[0].args[0] in ('builtins.dict.fromkeys', 'collections.OrderedDict.fromkeys') and \
        1 <= len(t.args[1]) <= 2


def is_call(t, meth):
    return t.op == 'call' and t.args[0].op == 'attr' and t.args[0].args[1] == meth and not t.args[1] and not t.args[2]


def setop(op, a, b):
    while is_call(a, 'keys') or op != 'Sub' and is_glob_call(a, 'builtins.set', 'builtins.frozenset'):
        a = a.args[0].args[0] if is_call(a, 'keys') else a.args[1][0]
    while is_call(b, 'keys') or is_glob_call(b, 'builtins.set', 'builtins.frozenset'):
        b = b.args[0].args[0] if is_call(b, 'keys') else b.args[1][0]
    if op == 'Sub' and known_set(a) and not has_hole(a) and not has_hole(b):
        its = elements(a, TRUE, (), False)
        if len(its) == 1 and len(its[0][2]) == 1:
            x, g, l = its[0]
            while is_glob_call(b, *CONTAINERS):
                b = b.args[1][0]
            return made_of('set', (T('item', T('put1', x), T('guard', And(g, Not(TM.atom(T('in', x, b))))), l),))
    if op == 'BitOr' and all(x.op == 'cnew' and x.args[0] == 'set' and len(x.args) == 2 and not has_hole(x) for x in (a, b)) and \
            all(i.args[0].op == 'put1' for x in (a, b) for i in x.args[1]):
        return made_of('set', Canon.merge(None, [list(i.args[:1]) + [i.args[1].args[0], i.args[2]] for x in (a, b) for i in x.args[1]], 'set'))
    if op == 'BitAnd':
        for x, y in ((a, b), (b, a)):
            if y.op == 'bin' and y.args[0] == 'BitXor' and x in y.args[1:]:
                return setop('Sub', x, y.args[2] if y.args[1] is x else y.args[1])
    if op != 'Sub' and a.id > b.id:
        a, b = b, a
    return T('bin', op, a, b)


def known_set(t):
    return t.op == 'cnew' and t.args[0] == 'set' or is_glob_call(t, 'builtins.set', 'builtins.frozenset')


def surely_set(t):
    return known_set(t) or t.op == 'bin' and (t.args[0] == 'Sub' and surely_set(t.args[1]) or
                                              t.args[0] in ('BitAnd', 'BitOr', 'BitXor') and (surely_set(t.args[1]) or surely_set(t.args[2])))


def strip_kind(t):
    return t.args[1][0] if t.op == 'call' else t


def support_terms(g):
    out = set()
    for a in support(g):
        out |= subterms(a)
    return out


def accumulated(items):
    """`the first value under a key is put in, the next are added to it` as one item, however it is written"""
    out, i = [], 0
    while i < len(items):
        v, g, l = items[i]
        j = i
        while j < len(items) and items[j][0].op in ('put', 'augput') and items[j][0].args[0] is v.args[0] and items[j][2] == l:
            j += 1
        run = accumulation(items[i:j]) if j > i else None
        if run is not None:
            out += run
            i = j
        else:
            out.append(items[i])
            i += 1
    return out


def accumulation(run):
    k, l = run[0][0].args[0], run[0][2]
    ins = {a for v, g, _ in run for a in support(g) if a.op == 'in' and a.args[0] is k and a.args[1].op == 'hole'}
    if len(ins) != 1 or not any(v.op == 'put' for v, _, _ in run) or k.op == 'const':
        return None
    a = next(iter(ins))
    cell = T('sub', a.args[1], k)
    known, new, adds = [], [], []
    for v, g, _ in run:
        g1, g0 = restrict(g, _vars[a], 1), restrict(g, _vars[a], 0)
        if v.op == 'augput' and v.args[1] == 'Add':
            known.append((g1, v.args[2]))
            adds.append((g0, v.args[2]))
            continue
        if v.op != 'put':
            return None
        x = v.args[1]
        if g1 is not FALSE:
            if x.op != 'bin' or x.args[0] != 'Add' or cell not in x.args[1:]:
                return None
            known.append((g1, x.args[2] if x.args[1] is cell else x.args[1]))
        if g0 is not FALSE:
            if adds and any(h is not FALSE for h, _ in adds):
                return None
            new.append((g0, x))
    adds = [(g, v) for g, v in adds if g is not FALSE]
    if adds:
        if len(new) != 1 or not numeric(new[0][1]) or any(not implies(g, new[0][0]) for g, _ in adds):
            return None
        g, x = new[0]
        rest = And(g, *[Not(h) for h, _ in adds])
        if rest is not FALSE:
            return None
        new = [(h, T('bin', 'Add', x, v)) for h, v in adds]
    new = [(g, plain_sum(v)) for g, v in new]
    known = [(g, v) for g, v in known if g is not FALSE]
    if not known or not new or exclusive(known) is None or exclusive(known) != exclusive(new):
        return None
    return [[T('accput', k, v), g, l] for g, v in known]


def exclusive(branches):
    m = {}
    for g, v in branches:
        for w, h in m.items():
            if w is not v and And(g, h) is not FALSE:
                return None
        m[v] = Or(m.get(v, FALSE), g)
    return {v.id: g for v, g in m.items()}


def plain_sum(v):
    if v.op == 'bin' and v.args[0] == 'Add':
        a, b = v.args[1:]
        if a.op == 'const' and b.op == 'const' and isinstance(a.args[0], int) and isinstance(b.args[0], int):
            return const(a.args[0] + b.args[0])
        if a is const(0):
            return b
        if b is const(0):
            return a
    return v


def total(items):
    m = {}
    for v, g, loops in items:
        m[(v, loops)] = Or(m[(v, loops)], g) if (v, loops) in m else g
    its = sorted(m, key=lambda x: (x[0].id, tuple(l.id for l in x[1])))
    return T('total', tuple(T('item', T('put1', v), T('guard', m[(v, l)]), l) for v, l in its))


def lt_(a, b):
    for i, (x, y) in enumerate(((a, b), (b, a))):
        if x.op == 'call' and x.args[0].op == 'glob' and x.args[0].args[0] in ('builtins.min', 'builtins.max') and len(x.args[1]) > 1 and not x.args[2]:
            parts = [lt_(p, y) if i == 0 else lt_(y, p) for p in x.args[1]]
            # min(p..) < y: one of them; y < max(p..): one of them
            return Or(*parts) if (x.args[0].args[0] == 'builtins.min') == (i == 0) else And(*parts)
    parts = alternatives(a, b)
    if parts:
        return Or(*[And(g, lt_(x, y)) for x, y, g in parts])
    return TM.atom(T('lt', a, b))


def sometimes(sep, t):
    """the parts of a text joined from a list that has a first item and, under conditions, some more"""
    if t.op != 'cnew' or len(t.args) != 2 or t.args[0] != 'list' or has_hole(t) or not 1 < len(t.args[1]) <= 6:
        return None
    its = [(i.args[0], i.args[1].args[0]) for i in t.args[1]]
    if any(v.op != 'put1' or i.args[2] for (v, _), i in zip(its, t.args[1])):
        return None
    from .interp import fmt
    out, k = [], 0
    while k < len(its):
        seen, n = FALSE, k
        while n < len(its) and seen is not TRUE and And(seen, its[n][1]) is FALSE:
            seen = Or(seen, its[n][1])
            n += 1
        if seen is TRUE:        # one of these is there
            part = cases([(g, unstr(v.args[0])) for v, g in its[k:n]])
            out.append((part,) if not out else (sep, part))
            k = n
        elif not out:
            return None
        else:
            v, g = its[k]
            out.append((cases([(g, fmt([sep, unstr(v.args[0])])), (Not(g), const(''))]),))
            k += 1
    return out


def fixed_keys(t):
    """key -> value of a dict made here with a few constant keys that are always there"""
    if t.op != 'cnew' or len(t.args) != 2 or t.args[0] != 'dict' or has_hole(t) or not t.args[1]:
        return None
    m = {}
    for it in t.args[1]:
        v, g, loops = it.args
        if v.op != 'put' or loops or not is_const(v.args[0]):
            return None
        m.setdefault(v.args[0], []).append((g.args[0], v.args[1]))
    if len(m) > 5:
        return None
    made = None         # the object is made under this guard
    for k, vs in m.items():
        seen = FALSE
        for g, _ in vs:
            if And(seen, g) is not FALSE:
                return None
            seen = Or(seen, g)
        if made is not None and seen is not made:
            return None
        made = seen
    return {k: cases(vs) for k, vs in m.items()}


def alternatives(a, b):
    """(a, b, guard) without conditional parts, if there are a few only"""
    both = T('pair', (a, b))
    if first_cases(both) is None:
        return ()
    parts = Canon.split(None, both, TRUE)
    if len(parts) > 4 or any(first_cases(v) is not None for v, _ in parts):
        return ()
    return [(v.args[0][0], v.args[0][1], g) for v, g in parts]


def sub_(a, i):
    if i.op == 'call' and i.args[0].op == 'attr' and i.args[0].args[1] == 'index' and i.args[0].args[0] is a and len(i.args[1]) == 1 and not i.args[2]:
        # the first element equal to the one looked up
        e = T('elem', a, 0)
        x, y = (e, i.args[1][0]) if e.id <= i.args[1][0].id else (i.args[1][0], e)
        if y.op == 'const':
            x, y = y, x
        return T('first', a, 0, TM.atom(T('eq', x, y)), e)
    if i.op == 'sub' and is_const(i.args[1]) and is_glob_call(i.args[0], 'builtins.list') and i.args[0].args[1][0] is a:
        # what the n-th key of a dict is mapped to
        return T('sub', T('call', T('glob', 'builtins.list'), (T('call', T('attr', a, 'values'), (), ()),), ()), i.args[1])
    if is_const(i):
        made = [(c.args[0].args[0], fixed_keys(c.args[1])) for c in a.args[0]] if a.op == 'cases' else [(TRUE, fixed_keys(a))]
        if all(d is not None and i in d for _, d in made):
            return cases([(g, d[i]) for g, d in made])
    if is_const(i) and a.op == 'call' and a.args[0].op == 'attr' and not a.args[2]:
        f, args = a.args[0], a.args[1]
        if f.args[1] == 'split' and i is const(0) and len(args) == 2 and is_const(args[1]) and isinstance(args[1].args[0], int) and args[1].args[0] > 0 or \
                f.args[1] == 'partition' and i is const(0) and len(args) == 1:
            # what comes before the first separator
            a = T('call', T('attr', f.args[0], 'split'), args[:1], ())
        elif f.args[1] == 'group' and len(args) > 1 and isinstance(i.args[0], int) and 0 <= i.args[0] < len(args) and not any(x.op == 'star' for x in args):
            return T('call', f, (args[i.args[0]],), ())
    from .interp import sub
    return sub(a, i)


def raises_(cn, c):
    types, calls = c.args
    names = {t.rsplit('.', 1)[-1] for t in types}
    if len(calls) == 1:
        x = calls[0]
        if 'KeyError' in names and x.op == 'sub' and len(names) == 1:
            return Not(cn.in_(x.args[1], x.args[0]))
        if names == {'ValueError'} and x.op == 'call' and callee_name(x) in ('index', 'remove') and receiver(x) is not None and len(x.args[1]) == 1:
            return Not(cn.in_(x.args[1][0], receiver(x)))
    return TM.atom(c)


def callee_(t):
    return t.args[0].args[1] if t.args[0].op == 'attr' else None


def is_none(t):
    if t.op == 'sub' and t.args[0].op == 'attr' and t.args[1].op != 'const':
        return FALSE        # the dictionaries of the library hold no None
    if t.op == 'sub' and t.args[0].op == 'cnew' and t.args[0].args[0] == 'dict' and len(t.args[0].args) == 2 and \
            all(i.args[0].op == 'put' and is_none(i.args[0].args[1]) is FALSE for i in t.args[0].args[1]):
        return FALSE
    if t.op == 'cases':
        return Or(*[And(c.args[0].args[0], is_none(c.args[1])) for c in t.args[0]])
    if t is NONE:
        return TRUE
    if t.op in ('const', 'cnew', 'fmt', 'tuple', 'list', 'dict', 'set', 'bool', 'closure', 'fun'):
        return FALSE
    if t.op == 'call' and t.args[0].op == 'attr' and t.args[0].args[1] in ('match', 'search', 'fullmatch') and (
            is_glob_call(t.args[0].args[0], 're.compile') or t.args[0].args[0].op == 'glob'):
        return Not(TM.atom(T('truthy', t)))         # what is found is true
    if t.op == 'call' and t.args[0].op == 'attr' and t.args[0].args[1] in ('strip', 'lstrip', 'rstrip', 'split', 'rsplit', 'lower', 'upper', 'replace', 'join',
                                                                           'format', 'splitlines'):
        return FALSE
    return TM.atom(T('is', t, NONE))


def truth_c(t):
    if t.op == 'attr' and Canon.project is not None and Canon.project.always_object(t.args[1]):
        return Not(is_none(t))
    if t.op == 'cnew' and len(t.args) == 2:
        if not t.args[1]:
            return FALSE
        g, ok = FALSE, True
        for it in t.args[1]:
            v, gd, loops = it.args
            if v.op in ('put', 'put1', 'put?', 'ins') and not loops and not has_hole(gd):
                g = Or(g, gd.args[0])
            elif v.op in ('put', 'put1') and len(loops) == 1 and len(t.args[1]) > 1 and not has_hole(gd) and not has_hole(v):
                g = Or(g, any_guard(loops[0], 0, gd.args[0]))
            else:
                ok = False
        if ok:
            return g
        if g is TRUE and all(i.args[0].op != 'mut' for i in t.args[1]):
            return TRUE
        # one comprehension-like item: some element satisfies its guard
        if len(t.args[1]) == 1:
            v, gd, loops = t.args[1][0].args
            if v.op in ('put', 'put1') and len(loops) == 1 and not has_hole(gd) and not has_hole(v):
                k = 0
                return any_guard(loops[0], k, gd.args[0])
            if v.op == 'putall' and not loops and not has_hole(gd) and not has_hole(v):
                return And(gd.args[0], truth_c(v.args[0]))
        return TM.atom(T('truthy', t))
    if t.op == 'bin' and t.args[0] == 'BitXor':
        return Not(TM.atom(T('eq', *sorted(t.args[1:], key=lambda x: x.id))))       # they differ
    if t.op == 'bin' and t.args[0] == 'BitAnd':
        # one of a few given values is in the other
        for x, y in (t.args[1:], t.args[:0:-1]):
            its = x.args[0] if x.op == 'set' else fixed_items(x) or fixed_set(x)
            if its and len(its) <= 6 and all(is_const(i) for i in its):
                return Or(*[TM.atom(T('in', i, y)) for i in its])
    if t.op == 'cases':
        return Or(*[And(c.args[0].args[0], truth_c(c.args[1])) for c in t.args[0]])
    if t.op == 'fmt' and all(isinstance(i, Term) and (is_const(i) and isinstance(i.args[0], str) or i.op == 'cases' and all(
            is_const(c.args[1]) and isinstance(c.args[1].args[0], str) for c in i.args[0])) for i in t.args[0]):
        return Or(*[truth_c(i) for i in t.args[0]])
    if t.op == 'fmt' and any(isinstance(i, Term) and is_const(i) and i.args[0] not in ('', None) for i in t.args[0]):
        return TRUE
    if t.op == 'call' and t.args[0].op == 'glob' and len(t.args[1]) == 1 and t.args[0].args[0] in (
            'builtins.len', 'builtins.bool', 'builtins.list', 'builtins.tuple', 'builtins.set', 'builtins.sorted', 'builtins.frozenset'):
        return truth_c(t.args[1][0])
    return truth(t)


def subst(x, old, new, memo):
    """x (term, guard or tuple) with the term old replaced"""
    if x is old:
        return new
    if isinstance(x, tuple):
        return tuple(subst(y, old, new, memo) for y in x)
    if not isinstance(x, (Term, Node)) or x is TRUE or x is FALSE:
        return x
    r = memo.get(x)
    if r is None:
        if isinstance(x, Node):
            a = subst(TM.atom_of(x.var), old, new, memo)
            g = TM.atom(a)
            if a.op == 'eq' and is_const(a.args[0]) and is_const(a.args[1]):
                g = TRUE if a.args[0].args[0] == a.args[1].args[0] else FALSE
            r = ite(g, subst(x.hi, old, new, memo), subst(x.lo, old, new, memo))
        else:
            args = [subst(y, old, new, memo) for y in x.args]
            if x.op in ('eq', 'is') and isinstance(args[1], Term) and args[1].op != 'const' and args[0].id > args[1].id:
                args.reverse()
            r = T(x.op, *args)
        memo[x] = r
    return r


def negated(g):
    """the update of the negation of a flag whose update is g"""
    for a in support(g):
        if a.op == 'truthy' and a.args[0].op == 'hole' and a.args[0].args[0] == 0:
            v = _vars[a]
            g = ite(TM.atom(a), TM.restrict(g, v, 0), TM.restrict(g, v, 1))
        elif has_hole(a):
            return None
    return Not(g)


def has_hole(t):
    return contains(t, lambda x: x.op == 'hole')


def nonempty(it, g):
    """g inside a loop over it: there is something in it"""
    t = TM.truth(it)
    if t is not TRUE and t is not FALSE and t.lo is FALSE and t.hi is TRUE and TM.atom_of(t.var) in support(g):
        return restrict(g, t.var, 1)
    return g


def numeric(t):
    return t.op == 'const' and isinstance(t.args[0], (int, float)) or t.op == 'total' or \
        t.op == 'call' and t.args[0].op == 'glob' and t.args[0].args[0] in ('builtins.len', 'builtins.int', 'builtins.sum') or \
        t.op == 'bin' and any(numeric(a) for a in t.args[1:])


def nesting(lp):
    for x in subterms(lp.elem):
        if x.op in ('elem', 'index') and x.args[0] is lp.it:
            return x.args[1]
    return 0


def no_earlier(it, k, g):
    """no element of `it` before this one satisfies g"""
    base = it
    while base.op == 'call' and base.args[0].op == 'glob' and base.args[0].args[0] in CONTAINERS and len(base.args[1]) == 1:
        base = base.args[1][0]
    if base is not it and T('index', it, k) not in subterms(g):
        g = subst(g, T('elem', it, k), T('elem', base, k), {})
        it = base
    return TM.atom(T('noearlier', it, k, T('guard', g))) if g is not FALSE else TRUE


def any_guard(it, k, g):
    """any element of `it` satisfies g, with facts that do not depend on the element moved out"""
    parts = Canon.split(None, it, TRUE) if first_cases(it) is not None else ()
    if 1 < len(parts) <= 4:
        out = []
        for b, bg in parts:
            h = subst(subst(g, T('elem', it, k), T('elem', b, k), {}), T('index', it, k), T('index', b, k), {})
            out.append(And(bg, any_guard(b, k, constrain(assume_guard(h, bg), bg))))
        return Or(*out)
    base = it
    while base.op == 'call' and base.args[0].op == 'glob' and base.args[0].args[0] in CONTAINERS and len(base.args[1]) == 1:
        base = base.args[1][0]
    if base is not it and T('index', it, k) not in subterms(g):
        g = subst(g, T('elem', it, k), T('elem', base, k), {})
        it = base
    g = nonempty(it, g)
    deps = {T('elem', it, k), T('index', it, k)}
    from .interp import make_any
    r = make_any(it, k, lambda a: bool(subterms(a) & deps) or contains(a, lambda x: x.op in ('clv', 'hole', 'heaphead')), g)
    if r.var < 1 << 60 and r.lo is FALSE and r.hi is TRUE:
        a = _atoms[r.var]
        if a.op == 'any' and a.args[0] is it and a.args[1] == k:
            n = a.args[2]
            if n.lo is FALSE and n.hi is TRUE and _atoms[n.var].op == 'eq':
                x, y = _atoms[n.var].args
                e = T('elem', it, k)
                if x is e or y is e:
                    o = y if x is e else x
                    if not subterms(o) & deps:
                        return TM.atom(T('in', o, it))      # some element equals it
            if n.lo is FALSE and n.hi is TRUE and _atoms[n.var].op == 'in':
                x, y = _atoms[n.var].args
                if x is T('elem', it, k) and not subterms(y) & deps:
                    return TM.atom(T('truthy', setop('BitAnd', it, y)))     # the two meet
    return r


def strip_seq(t):
    while t.op == 'call' and t.args[0].op == 'glob' and len(t.args[1]) == 1 and not t.args[2] and \
            t.args[0].args[0] in ('builtins.list', 'builtins.tuple', 'builtins.iter'):
        t = t.args[1][0]
    if t.op == 'cnew' and t.args[0] == 'tuple':
        return T('cnew', 'list', *t.args[1:])
    return t


LIFT = {'call', 'tuple', 'list', 'attr', 'sub', 'bin', 'fmt', 'star', 'set', 'dict', 'elem', 'index', 'slice', 'un', 'pair', 'cnew?'}


def cases(branches):
    """a value chosen by exclusive guards"""
    flat = []
    for g, v in branches:
        if v.op == 'cases':
            flat += [(And(g, c.args[0].args[0]), c.args[1]) for c in v.args[0]]
        elif v.op == 'bool':
            flat += [(And(g, v.args[0]), const(True)), (And(g, Not(v.args[0])), const(False))]
        else:
            flat.append((g, v))
    if len(flat) > 1 and all(v.op == 'cnew' and len(v.args) == 2 and v.args[0] in ('dict', 'set') and v.args[0] == flat[0][1].args[0] and
                             not has_hole(v) for _, v in flat):
        # one container with what each alternative puts in
        items = [(i.args[0], And(g, i.args[1].args[0]), i.args[2]) for g, v in flat for i in v.args[1]]
        return made_of(flat[0][1].args[0], Canon.merge(None, items, flat[0][1].args[0]))
    if len(flat) == 2 and all(v.op == 'cnew' and len(v.args) == 2 and v.args[0] == 'list' and not has_hole(v) and v.args[1] for _, v in flat):
        # one list with what only the longer alternative goes on with
        (g, a), (h, b) = sorted(flat, key=lambda x: len(x[1].args[1]))
        n = len(a.args[1])
        if b.args[1][:n] == a.args[1] and len(b.args[1]) > n and all(i.args[0].op in ('put', 'put1') for i in b.args[1]):
            both = Or(g, h)
            items = [[i.args[0], And(both, i.args[1].args[0]), i.args[2]] for i in a.args[1]] + \
                [[i.args[0], And(h, i.args[1].args[0]), i.args[2]] for i in b.args[1][n:]]
            return made_of('list', Canon.merge(None, items, 'list'))
    m = {}
    for g, v in flat:
        if g is not FALSE:
            m[v] = Or(m.get(v, FALSE), g)
    if len(m) == 1:
        return next(iter(m))
    if all(v.op == 'const' and isinstance(v.args[0], bool) for v in m):
        return boolean(m.get(const(True), FALSE))
    return T('cases', tuple(T('case', T('guard', m[v]), v) for v in sorted(m, key=lambda v: v.id)))


def first_cases(t, d=0):
    """the first conditional sub-term outside guards and containers"""
    if isinstance(t, tuple):
        for x in t:
            if isinstance(x, (Term, tuple)):
                c = first_cases(x, d)
                if c is not None:
                    return c
        return None
    if t.op in ('cases', 'bool'):
        return t
    if t.op in LIFT and d < 8:
        for x in t.args:
            if isinstance(x, (Term, tuple)):
                c = first_cases(x, d + 1)
                if c is not None:
                    return c
    return None


def assume_guard(g, k, memo=None):
    """g with the terms of its atoms simplified knowing k"""
    if g is TRUE or g is FALSE:
        return g
    memo = {} if memo is None else memo
    r = memo.get(g)
    if r is None:
        a = TM.atom_of(g.var)
        if a.op in ('eq', 'is', 'in', 'lt', 'truthy', 'isinst'):
            n = [assume_term(x, k) if isinstance(x, Term) else x for x in a.args]
            if a.op in ('eq', 'is') and n[1].op != 'const' and n[0].id > n[1].id:
                n.reverse()
            a = T(a.op, *n)
        r = memo[g] = ite(TM.atom(a), assume_guard(g.hi, k, memo), assume_guard(g.lo, k, memo))
    return r


def assume_term(t, k):
    """t simplified knowing guard k holds"""
    if isinstance(t, tuple):
        return tuple(assume_term(x, k) if isinstance(x, (Term, tuple)) else x for x in t)
    if t.op == 'bool':
        return boolean(constrain(t.args[0], k)) if not implies(k, t.args[0]) and And(k, t.args[0]) is not FALSE else \
            const(implies(k, t.args[0]))
    if t.op == 'cases':
        br = [(c.args[0].args[0], c.args[1]) for c in t.args[0] if And(k, c.args[0].args[0]) is not FALSE]
        if len(br) == 1:
            return assume_term(br[0][1], k)
        return cases([(constrain(g, k), assume_term(v, k)) for g, v in br])
    if t.op in LIFT:
        args = [assume_term(x, k) if isinstance(x, (Term, tuple)) else x for x in t.args]
        if t.op == 'fmt':
            from .interp import fmt
            return fmt(args[0])
        return T(t.op, *args)
    return t


def imprecise(t):
    """operators in t the analysis cannot see through"""
    return {x.op for x in subterms(t) if x.op in IMPRECISE}
