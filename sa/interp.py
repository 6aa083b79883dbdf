"""Guarded-effect summaries.

A forward dataflow analysis over the syntax tree of one entry function.  The abstract value of a
variable is a provenance term (terms.py); the reach condition of a program point is a guard over
branch atoms; control-flow joins merge both, loops are abstracted by one generic iteration whose
element is `each(iterable)` (variables the body changes are widened to fold/last/any terms), and
exceptional edges go to the handlers that can catch them.  Calls to helpers that are not part of
the known function inventory are substituted into the caller, so a summary does not depend on how
the code is cut into functions.  No path is enumerated and no value is computed.
"""
import ast
import copy
import json
import os
import re

from .project import Project, AnalysisBroken
from .terms import (T, TRUE, FALSE, And, Or, Not, ite, atom, const, NONE, boolean, tite, truth, implies,
                    constrain, support, restrict, leaves, contains, subterms, Term, Node, literals, pretty,
                    pretty_guard, mk, _vars)

HERE = os.path.dirname(os.path.abspath(__file__))
LOGGING_METHODS = {'debug', 'info', 'warning', 'error', 'critical', 'exception', 'log', 'warn'}
ADDERS = {'append': 1, 'add': 1, 'appendleft': 1}
BULK_ADDERS = {'extend', 'update', 'union_update'}
UPDATERS = {'intersection_update': ast.BitAnd, 'difference_update': ast.Sub, 'symmetric_difference_update': ast.BitXor}
REMOVERS = {'remove', 'discard', 'pop', 'clear', 'popitem', 'popleft', 'difference_update', 'intersection_update'}
OTHER_MUT = {'insert', 'sort', 'reverse', 'setdefault', 'symmetric_difference_update'}
PURE_CTORS = {'set', 'frozenset', 'tuple', 'list', 'dict', 're.compile', 'chr', 'ord'}


def pure_const(n):
    """the value of a module-level name can be read off its definition"""
    if isinstance(n, (ast.Constant, ast.Name)):
        return True
    if isinstance(n, (ast.Tuple, ast.List, ast.Set)):
        return all(pure_const(e) for e in n.elts)
    if isinstance(n, ast.Dict):
        return all(k is not None and pure_const(k) and pure_const(v) for k, v in zip(n.keys, n.values))
    if isinstance(n, ast.BinOp):
        return pure_const(n.left) and pure_const(n.right)
    if isinstance(n, ast.UnaryOp):
        return pure_const(n.operand)
    if isinstance(n, ast.Attribute):
        return isinstance(n.value, ast.Name) and n.value.id == 're'
    if isinstance(n, ast.Call) and not n.keywords:
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'format' and not isinstance(n.func.value, ast.Name):
            return pure_const(n.func.value) and all(pure_const(a) for a in n.args)
        return ast.unparse(n.func) in PURE_CTORS and all(pure_const(a) for a in n.args)
    return False


TRANSPARENT_ITER = {'builtins.list', 'builtins.tuple', 'builtins.iter', 'builtins.deque'}

_inv = None


def inventory():
    """Qualified names of the functions known when the rules were written (inlining policy only)."""
    global _inv
    if _inv is None:
        with open(os.path.join(HERE, 'inventory.json')) as fh:
            _inv = set(json.load(fh))
    return _inv


class Effect:
    __slots__ = ('kind', 'term', 'target', 'value', 'cond', 'loops', 'node', 'func', 'order', 'handlers',
                 'in_handler', 'in_finally', 'caught', 'extra', 'stack', 'loop_ids', 'ncalls', 'within')

    def __repr__(self):
        return '<%s %s @%s if %s loops=%s>' % (self.kind, pretty(self.term) if self.term else
                                              '%s <- %s' % (pretty(self.target), pretty(self.value) if self.value else None),
                                              self.loc, pretty_guard(self.cond), [pretty(l[0]) for l in self.loops])

    @property
    def loc(self):
        return self.func.loc(self.node) if self.func else '?'


class State:
    __slots__ = ('env', 'heap', 'cond', 'ncalls')

    def __init__(self, env, heap, cond):
        self.env, self.heap, self.cond = env, heap, cond

    def fork(self, cond=None):
        return State(dict(self.env), dict(self.heap), self.cond if cond is None else cond)


MISSING = T('unbound')


def join(a, b):
    if a is None or a.cond is FALSE:
        return b
    if b is None or b.cond is FALSE:
        return a
    c = Or(a.cond, b.cond)
    d = constrain(a.cond, c)
    if d is TRUE and b.cond is not FALSE:
        # not distinguishable by guard: opaque choice
        d = atom(T('choice', T('guard', a.cond), T('guard', b.cond)))
    env = {}
    for k in a.env.keys() | b.env.keys():
        x, y = a.env.get(k, MISSING), b.env.get(k, MISSING)
        env[k] = x if x is y else tite(d, x, y)
    heap = {}
    for k in a.heap.keys() | b.heap.keys():
        x, y = a.heap.get(k), b.heap.get(k)
        if x is None or y is None:
            heap[k] = x if y is None else y
        else:
            heap[k] = x if x is y else ite(d, x, y)
    return State(env, heap, c)


class Frame:
    def __init__(self, func, module, cls, selfname=None, parent=None):
        self.func, self.module, self.cls = func, module, cls
        self.returns = []      # (State, value)
        self.parent = parent   # lexical parent frame state env provider for closures
        self.locals = set()
        self.globals = set()
        self.yield_hook = None
        self.closure_env = None


class Loop:
    def __init__(self, it, elem):
        self.it, self.elem = it, elem
        self.breaks, self.continues = [], []
        self.exit = FALSE           # when an element leaves the loop by break or return
        self.left = FALSE           # .. by break


class TryCtx:
    def __init__(self, handlers):
        self.handlers = handlers      # list of (types list, [states])
        self.calls = []
        self.again = [False] * len(handlers)    # .. raises itself
        self.active = True


HARMLESS = {'len', 'append', 'add', 'isinstance', 'list', 'tuple', 'set', 'dict', 'str', 'sorted', 'items', 'keys', 'values',
            'enumerate', 'zip', 'range', 'debug', 'info', 'warning', 'error', 'get', 'extend', 'update', 'strip', 'split',
            'format', 'join', 'lower', 'upper', 'startswith', 'endswith'}


def harmless(c):
    """a call not taken for the one a handler is there for"""
    return c.op == 'call' and callee_name(c) in HARMLESS


class Alloc:
    def __init__(self, aid, kind, init, node):
        self.id, self.kind, self.init, self.node = aid, kind, init, node
        self.comp = None              # (loops [(it, elem, rel guard)], elt)
        self.mutated = False
        self.emits = []
        self.cond = TRUE              # under which it is made
        self.default = None           # kind of what a missing key gives
        self.loops = ()               # in which it is made


def sub(base, idx):
    if base.op in ('tuple', 'list') and idx.op == 'const' and isinstance(idx.args[0], int):
        items = base.args[0]
        if not any(x.op == 'star' for x in items) and -len(items) <= idx.args[0] < len(items):
            return items[idx.args[0]]
    if base.op == 'ite' and idx.op == 'const':
        return tite(base.args[0], sub(base.args[1], idx), sub(base.args[2], idx))
    if idx.op == 'index' and idx.args[0] is base:
        return T('elem', base, idx.args[1])
    if base.op == 'dict' and idx.op == 'const':
        for k, v in base.args[0]:
            if k is idx:
                return v
    return T('sub', base, idx)


class _Put(ast.NodeTransformer):
    """a name replaced by a constant"""
    def __init__(self, name, value):
        self.name, self.value = name, value

    def visit_Name(self, n):
        return ast.copy_location(ast.Constant(self.value.value), n) if n.id == self.name else n


def fmt(parts):
    out = []
    for p in parts:
        ps = p.args[0] if p.op == 'fmt' else (p,)
        for q in ps:
            if q.op == 'const' and type(q.args[0]) is int:
                q = const(str(q.args[0]))
            if out and q.op == 'const' and isinstance(q.args[0], str) and out[-1].op == 'const' \
                    and isinstance(out[-1].args[0], str):
                out[-1] = const(out[-1].args[0] + q.args[0])
            elif q.op == 'const' and q.args[0] == '':
                continue
            else:
                while q.op == 'call' and q.args[0] is STR and len(q.args[1]) == 1 and not q.args[2]:
                    q = q.args[1][0]
                out.append(q)
    if not out:
        return const('')
    if len(out) == 1 and out[0].op == 'const' and isinstance(out[0].args[0], str):
        return out[0]
    if len(out) == 1 and out[0].op != 'format':
        return T('call', STR, (out[0],), ())
    return T('fmt', tuple(out))


STR = T('glob', 'builtins.str')


def stays_str(t, init):
    if t.op == 'ite':
        return stays_str(t.args[1], init) and stays_str(t.args[2], init)
    if t.op == 'maybe':
        return all(stays_str(x, init) for x in t.args)
    return t.op == 'loopvar' and t.args[3] is init or is_str(t)


def is_str(t):
    return t.op == 'fmt' or (t.op == 'const' and isinstance(t.args[0], str)) or \
        t.op == 'call' and (t.args[0] is STR or t.args[0].op == 'attr' and t.args[0].args[1] == 'join') or \
        t.op == 'fold' and is_str(t.args[2]) and stays_str(t.args[3], t.args[2]) or \
        t.op == 'ite' and is_str(t.args[1]) and is_str(t.args[2])


def may_fail_reading(s, types):
    """a statement that reads an item or an attribute, where the handlers take the failure to"""
    types = {t.rsplit('.', 1)[-1] for t in types}
    kinds = ()
    if types & {'IndexError', 'KeyError', 'LookupError'}:
        kinds += (ast.Subscript,)
    elif 'AttributeError' in types:
        kinds += (ast.Attribute,)
    return bool(kinds) and isinstance(s, (ast.Assign, ast.AnnAssign)) and \
        any(isinstance(n, kinds) and isinstance(n.ctx, ast.Load) for n in ast.walk(s.value)) if getattr(s, 'value', None) is not None else False


def returns_bool(f):
    """every return of f gives a truth value"""
    r = getattr(f, '_returns_bool', None)
    if r is None:
        stores = {}
        for x in walk_own(f.node):
            if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
                stores.setdefault(x.targets[0].id, []).append(x.value)
            elif isinstance(x, ast.AugAssign) and isinstance(x.op, (ast.BitOr, ast.BitAnd)) and isinstance(x.target, ast.Name):
                stores.setdefault(x.target.id, []).append(x.value)
            elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                stores.setdefault(x.id, []).append(x)
        for k, vs in stores.items():
            # the name in an assignment is met on its own as well
            names = [v for v in vs if isinstance(v, ast.Name) and isinstance(v.ctx, ast.Store)]
            stores[k] = [v for v in vs if v not in names] if 2 * len(names) == len(vs) else None
        pending = set(f.params)

        def is_bool(v):
            if isinstance(v, ast.Name) and v.id not in f.params and stores.get(v.id):
                if v.id in pending:
                    return True
                pending.add(v.id)
                ok = all(is_bool(x) for x in stores[v.id])
                pending.discard(v.id)
                return ok
            if isinstance(v, ast.Call) and (isinstance(v.func, ast.Attribute) and isinstance(v.func.value, ast.Name) and v.func.value.id in ('self', 'cls')
                                            and v.func.attr == f.name or isinstance(v.func, ast.Name) and v.func.id == f.name):
                return True
            return isinstance(v, ast.Constant) and isinstance(v.value, bool) or isinstance(v, ast.Compare) or \
                isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.Not) or isinstance(v, ast.BoolOp) and all(is_bool(x) for x in v.values) or \
                isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ('isinstance', 'any', 'all', 'bool')
        rets = [x for x in walk_own(f.node) if isinstance(x, ast.Return)]
        r = f._returns_bool = bool(rets) and not f.is_generator and all(is_bool(x.value) for x in rets) and \
            isinstance(f.node.body[-1], (ast.Return, ast.Raise)) and len(f.node.decorator_list) == 0
    return r


def make_any(it, k, elem_dep, g):
    """Guard `some element of it satisfies g`; elem_dep(atom) tells whether an atom depends on the element."""
    if g is FALSE:
        return FALSE
    inv = [a for a in support(g) if not elem_dep(a)]
    if inv:
        a = inv[0]
        v = _vars[a]
        return ite(atom(a), make_any(it, k, elem_dep, restrict(g, v, 1)), make_any(it, k, elem_dep, restrict(g, v, 0)))
    if g is TRUE:
        return truth(it) if it.op != 'new' else atom(T('truthy', it))
    return atom(T('any', it, k, g))


def unless_left(it, k, out, g):
    """Guard `g, and no earlier element of it has left the loop` (out: when an element leaves it)"""
    if out is FALSE or g is FALSE or And(out, Not(g)) is FALSE:
        return g
    return And(g, atom(T('noearlier', it, k, T('guard', out))))


PERCENT = re.compile(r'%(?:(%)|(0?[1-9]?[0-9]*)([srdxX]))')


def formatted(x, spec, conv):
    """an item of a formatted text"""
    if conv == 's' and spec is const(''):
        conv = ''
    return x if spec is const('') and not conv else T('format', x, spec, conv)


def percent(s, args):
    """the parts of s % args"""
    parts, i, at = [], 0, 0
    for m in PERCENT.finditer(s):
        if '%' in s[at:m.start()]:
            return None
        parts.append(const(s[at:m.start()] + ('%' if m.group(1) else '')))
        at = m.end()
        if m.group(1):
            continue
        if i == len(args):
            return None
        width, kind = m.group(2), m.group(3)
        if kind in 'sr' and width:
            return None
        parts.append(formatted(args[i], const(width + (kind if kind in 'xXd' and (width or kind != 'd') else '')), 'r' if kind == 'r' else ''))
        i += 1
    if i != len(args) or '%' in s[at:]:
        return None
    return parts + [const(s[at:])]


class Analyzer:
    MAX_DEPTH = 7

    def __init__(self, project, inline=(), no_inline=(), inline_all_private=None, entry_types=None, iter_inline=True):
        self.p = project
        self.inline_set = set(inline)
        self.no_inline = set(no_inline)
        self.inline_pred = inline_all_private
        self.entry_types = entry_types or {}
        self.effects = []
        self.reads = []
        self.frames = []
        self.loops = []
        self.all_loops = []
        self.outer = []
        self.trys = []
        self.handler_depth = 0
        self.finally_depth = 0
        self.allocs = {}
        self.closures = {}
        self.stack = []
        self.types = {}
        self.mute = 0
        self.opaque_n = 0
        self.site_ctx = ()
        self.inlined = set()
        self.updates = {}
        self.counters = {}
        self.cells = {}
        self.called = set()
        self.broken = set()
        self.while_cond = {}
        self.index_comp = {}

    # -- entry -----------------------------------------------------------
    def run(self, func, bind=None):
        st = State({}, {}, TRUE)
        fr = Frame(func, func.module, func.cls)
        bind = bind or {}
        for i, p in enumerate(func.params):
            if p in bind:
                st.env[p] = bind[p]
            elif func.is_method and i == 0:
                st.env[p] = T('self')
                if func.cls is not None:
                    self.types.setdefault(T('self'), func.cls.qual)
            else:
                t = T('param', p)
                st.env[p] = t
                self._annotate(func, p, t)
        for p in func.kwonly + [x for x in (func.vararg, func.kwarg) if x]:
            st.env[p] = bind.get(p, T('param', p))
            self._annotate(func, p, st.env[p])
        for p, t in self.entry_types.items():
            self.types[T('param', p)] = t
        if func.parent is not None:
            fr.closure_env = {}
        self._prepare(fr, func.node)
        self.frames.append(fr)
        self.stack.append(func.qual)
        end = self.block(func.node.body, st)
        if end is not None and end.cond is not FALSE:
            self.effect('return', end, value=NONE, node=func.node, extra={'implicit': True})
            fr.returns.append((end, NONE))
        self.frames.pop()
        self.stack.pop()
        return Summary(self, func, fr)

    def _prepare(self, fr, node):
        names = set()
        for n in walk_own(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                names.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not node:
                names.add(n.name)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                names.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                pass
            elif isinstance(n, (ast.Global, ast.Nonlocal)):
                fr.globals |= set(n.names)
        if hasattr(node, 'args'):
            a = node.args
            for p in a.posonlyargs + a.args + a.kwonlyargs:
                names.add(p.arg)
            for p in (a.vararg, a.kwarg):
                if p:
                    names.add(p.arg)
        fr.locals = names - fr.globals

    def _annotate(self, func, pname, term):
        a = func.node.args
        for p in a.posonlyargs + a.args + a.kwonlyargs:
            if p.arg == pname and p.annotation is not None:
                ann = p.annotation
                if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
                    try:
                        ann = ast.parse(ann.value, mode='eval').body
                    except SyntaxError:
                        return
                if isinstance(ann, ast.BinOp):
                    ann = ann.left
                q = self.p.resolve_expr(func.module, ann)
                if q in self.p.classes:
                    self.types[term] = q

    # -- effects -----------------------------------------------------------
    def total(self, cond):
        return And(*(self.outer + [cond]))

    def effect(self, kind, st, term=None, target=None, value=None, node=None, extra=None, caught=False):
        e = Effect()
        e.kind, e.term, e.target, e.value, e.node = kind, term, target, value, node
        e.cond = self.total(st.cond)
        e.loops = tuple((l.it, l.elem) for l in self.loops)
        e.within = tuple(self.loops)
        e.loop_ids = frozenset(map(id, self.loops))     # (the loops are kept alive below)
        self.all_loops.extend(self.loops)
        e.func = self.frames[-1].func if self.frames else None
        e.order = len(self.effects)
        e.ncalls = len(self.calls_log)
        e.handlers = tuple((tuple(t), again) for c in self.trys if c.active for (t, _), again in zip(c.handlers, c.again))
        e.in_handler, e.in_finally = self.handler_depth, self.finally_depth
        e.caught = caught
        e.extra = extra or {}
        e.stack = tuple(self.stack)
        if not self.mute:
            self.effects.append(e)
        return e

    def note_read(self, what, t, base, st):
        """a look into a container, for the order of looks and changes"""
        if not self.mute and st is not None and base.op not in ('tuple', 'const', 'glob'):
            self.reads.append((what, t, base, len(self.effects), self.total(st.cond), None))

    def opaque(self, node, tag='expr'):
        return T('opaque', tag, type(node).__name__, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0),
                 self.frames[-1].func.qual if self.frames and self.frames[-1].func else '')

    # -- statements ----------------------------------------------------------
    def block(self, stmts, st):
        for s in stmts:
            if st is None or st.cond is FALSE:
                return None
            if self.outer and self.total(st.cond) is FALSE:
                return None
            m = getattr(self, 's_' + type(s).__name__, None)
            if m is None:
                for n in ast.iter_child_nodes(s):
                    if isinstance(n, ast.expr):
                        self.ev(n, st)
                continue
            st = m(s, st)
        return st

    def s_Pass(self, s, st):
        return st

    s_Global = s_Nonlocal = s_Import = s_ImportFrom = s_Pass

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return st
        c = s.value
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'update' and isinstance(c.func.value, ast.Name) and \
                len(c.args) == 1 and not c.keywords and isinstance(c.args[0], (ast.Tuple, ast.List)) and len(c.args[0].elts) == 1 and \
                not isinstance(c.args[0].elts[0], ast.Starred):
            r = st.env.get(c.func.value.id)
            if r is not None and r.op == 'call' and r.args[0] is T('glob', 'collections.Counter'):
                # c.update((x,)) is c[x] += 1
                tgt = ast.Subscript(value=c.func.value, slice=c.args[0].elts[0], ctx=ast.Store())
                aug = ast.AugAssign(target=ast.copy_location(tgt, s), op=ast.Add(), value=ast.copy_location(ast.Constant(value=1), s))
                return self.s_AugAssign(ast.copy_location(aug, s), st)
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in UPDATERS and isinstance(c.func.value, ast.Name) \
                and c.func.value.id in st.env and len(c.args) == 1 and not c.keywords and not isinstance(c.args[0], ast.Starred):
            # a.intersection_update(b) is a &= b
            aug = ast.AugAssign(target=ast.copy_location(ast.Name(id=c.func.value.id, ctx=ast.Store()), s), op=UPDATERS[c.func.attr](), value=c.args[0])
            return self.s_AugAssign(ast.copy_location(aug, s), st)
        self.ev(s.value, st)
        return st

    def s_FunctionDef(self, s, st):
        st.env[s.name] = self.closure(s, st)
        return st

    def s_ClassDef(self, s, st):
        st.env[s.name] = self.opaque(s, 'class')
        return st

    def closure(self, node, st):
        cid = (node.lineno, node.col_offset, self.frames[-1].module.name, self.site_ctx)
        t = T('closure', cid)
        self.closures[t] = (node, self.frames[-1], dict(st.env))
        return t

    def s_Return(self, s, st):
        v = self.ev(s.value, st, alloc=len(self.frames) > 1) if s.value is not None else NONE
        self.do_return(st, v, s)
        return None

    def do_return(self, st, v, node):
        fr = self.frames[-1]
        if getattr(fr, 'depth0', True) and len(self.frames) == 1:
            self.effect('return', st, value=v, node=node)
        st.ncalls = len(self.calls_log)
        fr.returns.append((st, v))

    def s_Raise(self, s, st):
        if s.exc is None:
            term = T('reraise')
        else:
            term = self.ev(s.exc, st)
            if s.cause is not None:
                self.ev(s.cause, st)
        self.do_raise(term, st, s)
        return None

    def exc_type(self, term):
        if term.op == 'call' and term.args[0].op == 'glob':
            return term.args[0].args[0]
        if term.op == 'glob':
            return term.args[0]
        if term.op == 'exc':
            return term.args[0][0] if len(term.args[0]) == 1 else None
        return None

    def do_raise(self, term, st, node):
        q = self.exc_type(term)
        caught = False
        for c in reversed(self.trys):
            if not c.active:
                continue
            for types, states in c.handlers:
                hit = None
                if q is None:
                    if types == ['builtins.BaseException'] or types == ['builtins.Exception']:
                        hit = True
                else:
                    for t in types:
                        if self.p.is_subclass(q, t) or t in ('builtins.BaseException', 'builtins.Exception'):
                            hit = True
                            break
                if hit:
                    states.append(st.fork())
                    caught = True
                    break
            if caught:
                break
        self.effect('raise', st, term=term, node=node, caught=caught)

    def s_Assert(self, s, st):
        c = self.cond(s.test, st)
        bad = st.fork(And(st.cond, Not(c)))
        if bad.cond is not FALSE:
            self.do_raise(T('glob', 'builtins.AssertionError'), bad, s)
        st.cond = And(st.cond, c)
        return st

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                self.effect('del_sub', st, target=self.ev(t.value, st), value=self.ev(t.slice, st), node=s)
            elif isinstance(t, ast.Attribute):
                self.effect('del_attr', st, target=self.ev(t.value, st), value=const(t.attr), node=s)
        return st

    def s_Assign(self, s, st):
        v = self.ev(s.value, st, alloc=isinstance(s.targets[0], (ast.Name, ast.Attribute)))
        for t in s.targets:
            self.assign(t, v, st, s)
        return st

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            v = self.ev(s.value, st, alloc=True)
            self.assign(s.target, v, st, s)
        if isinstance(s.target, ast.Name):
            q = self.p.resolve_expr(self.frames[-1].module, s.annotation)
            if q in self.p.classes and s.target.id in st.env:
                self.types.setdefault(st.env[s.target.id], q)
        return st

    def s_AugAssign(self, s, st):
        op = type(s.op).__name__
        v = self.ev(s.value, st)
        load = ast.copy_location(_as_load(s.target), s.target)
        old = self.ev(load, st)
        if old.op == 'new' and op in ('Add', 'BitOr'):
            self.mutate(old, st)
            self.effect('emit_all', st, target=old, value=v, node=s)
            self._ne_or(old, st, truth(v))
            if isinstance(s.target, ast.Name):
                return st
            return st
        if isinstance(s.target, (ast.Attribute, ast.Subscript)):
            tgt = self.ev(_as_load(s.target), st)
            self.effect('aug', st, target=tgt, value=v, node=s, extra={'op': op})
        if isinstance(s.target, ast.Name) and op in ('Add', 'BitOr', 'Sub', 'BitAnd') and old.op in ('attr', 'sub', 'elem') and \
                (v.op == 'new' or is_listy(v) or old.op == 'attr' and self.p.holds_list(old.args[1])):
            # a list or set reached under another name is extended in place
            self.effect('aug', st, target=old, value=v, node=s, extra={'op': op})
        nv = self.binop(op, old, v, s)
        self.assign(s.target, nv, st, s, aug=True)
        return st

    def assign(self, t, v, st, node, aug=False):
        if isinstance(t, ast.Name):
            if t.id in self.frames[-1].globals:
                self.effect('global_store', st, target=T('glob', self.p.resolve_name(self.frames[-1].module, t.id)),
                            value=v, node=node)
            else:
                st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            n = len(t.elts)
            if not star:
                self.effect('unpack', st, target=const(n), value=v, node=node)
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    self.assign(e.value, T('rest', v, i), st, node)
                elif star and i > star[0]:
                    self.assign(e, self.item(v, const(i - n)), st, node)
                else:
                    self.assign(e, self.item(v, const(i)), st, node)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, st)
            if not aug:
                self.store('store_attr', T('attr', b, t.attr), v, st, node)
                if b.op == 'self' and v.op == 'param' and len(self.frames) == 1 and st.cond is TRUE and not self.loops and \
                        self.frames[-1].func is not None and self.frames[-1].func.name == '__init__' and self.p.stored_once(self.frames[-1].func, t.attr):
                    st.env['self.' + t.attr] = v
            f = self._setter(b, t.attr)
            if f is not None and self.should_inline(f):
                self.inline_call(f, [b, v], {}, st, node)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, st)
            i = self.ev(t.slice, st)
            if b.op == 'new':
                self.mutate(b, st)
                st.heap[('ne', b)] = TRUE
            if not aug:
                self.store('store_sub', T('sub', b, i), v, st, node)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, node)

    def store(self, kind, target, v, st, node):
        """x = x + 1 is x += 1"""
        if v.op == 'bin' and v.args[0] in ('Add', 'Sub', 'Mult') and v.args[1] is target and is_num(v.args[2]):
            self.effect('aug', st, target=target, value=v.args[2], node=node, extra={'op': v.args[0]})
        elif v.op == 'bin' and v.args[0] in ('Add', 'Mult') and v.args[2] is target and is_num(v.args[1]):
            self.effect('aug', st, target=target, value=v.args[1], node=node, extra={'op': v.args[0]})
        elif v.op == 'fmt' and v.args[0][0] is target:
            self.effect('aug', st, target=target, value=fmt(v.args[0][1:]), node=node, extra={'op': 'Add'})
        else:
            self.effect(kind, st, target=target, value=v, node=node)

    def deref(self, v):
        """Structural view of a freshly displayed container."""
        if v.op == 'new':
            a = self.allocs[v]
            if a.comp is None and not a.mutated and a.init is not None and v.args[0] in ('list', 'tuple'):
                return T('list', tuple(a.init))
        return v

    def _setter(self, base, name):
        q = self.typeof(base)
        if q:
            for k in self.p.mro(q):
                c = self.p.classes.get(k)
                if c and name in c.setters:
                    return c.setters[name]
        return None

    def s_If(self, s, st):
        c = self.cond(s.test, st)
        a = st.fork(And(st.cond, c))
        b = st.fork(And(st.cond, Not(c)))
        ra = self.block(s.body, a) if a.cond is not FALSE else None
        rb = self.block(s.orelse, b) if b.cond is not FALSE else None
        return join(ra, rb)

    def s_With(self, s, st):
        for it in s.items:
            v = self.ev(it.context_expr, st)
            self.effect('with', st, term=v, node=s)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, T('enter', v), st, s)
        return self.block(s.body, st)

    s_AsyncWith = s_With

    # -- try ---------------------------------------------------------------
    def handler_types(self, h, st):
        if h.type is None:
            return ['builtins.BaseException']
        nodes = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = []
        for n in nodes:
            t = self.ev(n, st)
            out.append(t.args[0] if t.op == 'glob' else pretty(t))
        return out

    def s_Try(self, s, st):
        pre = st.fork()
        handlers = [(self.handler_types(h, st), []) for h in s.handlers]
        ctx = TryCtx(handlers)
        ctx.again = [any(isinstance(x, ast.Raise) for b in h.body for x in ast.walk(b)) for h in s.handlers]
        n0 = len(self.effects)
        nret = len(self.frames[-1].returns)
        if handlers:
            self.trys.append(ctx)
        mark = len(self.calls_log)
        shots, body = [], st
        reads = None
        for b in s.body:
            if body is None:
                break
            shots.append((len(self.calls_log), dict(body.env), b))
            body = self.block([b], body)
            if handlers and may_fail_reading(b, {t for ts, _ in handlers for t in ts}):
                reads = len(self.effects), len(self.frames[-1].returns), shots[-1][1]
        calls = []
        for c in self.calls_log[mark:]:
            if c not in calls:
                calls.append(c)
        if handlers:
            self.trys.pop()
        n1, nret1 = len(self.effects), len(self.frames[-1].returns)
        last_risky = max([i + 1 for i, c in enumerate(self.calls_log) if i >= mark and not harmless(c)], default=mark)
        # what the last call that may raise has before it (simple statement) or after it
        risky_env = body.env if body is not None else None
        if last_risky > mark:
            for i, (n, env, b) in enumerate(shots):
                if n < last_risky and (i + 1 == len(shots) or shots[i + 1][0] >= last_risky):
                    if isinstance(b, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Expr, ast.Return, ast.Raise)):
                        risky_env = env
                    elif i + 1 < len(shots):
                        risky_env = shots[i + 1][1]
                    break
        elif reads is not None:
            risky_env = reads[2]
        first_risky = min([i for i, c in enumerate(self.calls_log) if i >= mark and not harmless(c)], default=None)
        first_env = {}
        for i, (n, env, b) in enumerate(shots):
            if first_risky is not None and n <= first_risky and (i + 1 == len(shots) or shots[i + 1][0] > first_risky):
                first_env = env
        assigned = assigned_names(s.body)
        ends = []
        not_raised = TRUE
        for h, (types, states) in zip(s.handlers, handlers):
            hs = None
            for x in states:
                hs = join(hs, x.fork())
            if calls or not states:
                a = atom(T('raises', tuple(sorted(types)), tuple(calls)))
                not_raised = And(not_raised, Not(a))
                imp = pre.fork(And(pre.cond, a))
                for n in assigned:
                    after = risky_env.get(n) if risky_env is not None else None
                    before = pre.env.get(n, MISSING)
                    if after is not before and after is not None:
                        imp.env[n] = after if first_env.get(n) is after else T('maybe', before, after)
                hs = join(hs, imp)
            if hs is None:
                continue
            if h.name:
                hs.env[h.name] = T('exc', tuple(types), tuple(calls))
            self.handler_depth += 1
            he = self.block(h.body, hs)
            self.handler_depth -= 1
            if he is not None:
                ends.append(he)
        # what follows the last call that may raise happens only when nothing was raised
        if not_raised is not TRUE and last_risky > mark:
            for e in self.effects[n0:n1]:
                if e.ncalls >= last_risky and len(e.loops) == len(self.loops):
                    e.cond = And(e.cond, not_raised)
            for rs, _ in self.frames[-1].returns[nret:nret1]:
                if rs.ncalls >= last_risky:
                    rs.cond = And(rs.cond, not_raised)
        elif not_raised is not TRUE and reads is not None:
            for e in self.effects[reads[0]:n1]:
                if len(e.loops) == len(self.loops):
                    e.cond = And(e.cond, not_raised)
            for rs, _ in self.frames[-1].returns[reads[1]:nret1]:
                rs.cond = And(rs.cond, not_raised)
        if body is not None:
            body.cond = And(body.cond, not_raised)
            body = self.block(s.orelse, body) if s.orelse else body
        out = body
        for e in ends:
            out = join(out, e)
        if s.finalbody:
            allst = out.fork() if out is not None else None
            for rs, _ in self.frames[-1].returns[nret:]:
                allst = join(allst, rs.fork())
            # exceptional exits also run the finally block
            fstate = pre.fork()
            for n in assigned:
                vals = {x.env.get(n, MISSING) for x in ([allst] if allst is not None else [])} | {pre.env.get(n, MISSING)}
                vals = sorted(vals, key=lambda t: t.id)
                fstate.env[n] = vals[0] if len(vals) == 1 else T('maybe', *vals)
            if allst is not None:
                # variables bound before the try keep their value
                for k, v in allst.env.items():
                    if k not in fstate.env:
                        fstate.env[k] = v
            self.finally_depth += 1
            f = self.block(s.finalbody, fstate)
            self.finally_depth -= 1
            if f is None:
                return None
            if out is not None:
                fa = assigned_names(s.finalbody)
                for n in fa:
                    if n in f.env:
                        out.env[n] = f.env[n]
        return out

    s_TryStar = s_Try

    # -- loops -----------------------------------------------------------------
    def iter_info(self, t):
        """iterable term -> (canonical iterable, function k -> element term)"""
        x = t
        while True:
            if x.op == 'call' and x.args[0].op == 'glob' and x.args[0].args[0] in TRANSPARENT_ITER and x.args[1]:
                x = x.args[1][0]
                continue
            if x.op == 'sub' and x.args[1].op == 'slice' and all(y is NONE for y in x.args[1].args[:2]):
                x = x.args[0]
                continue
            if x.op == 'call' and x.args[0].op == 'attr' and x.args[0].args[1] in ('copy', 'keys') and not x.args[1]:
                x = x.args[0].args[0]
                continue
            c = self.copied(x)
            if c is not None and x.args[0] != 'set':
                x = c
                continue
            if x.op == 'ite':
                # `x or []`: nothing is iterated when x is empty
                ls = [(g, v) for g, v in leaves(x) if not (v.op in ('list', 'tuple', 'dict', 'set') and not v.args[0])]
                if len(ls) == 1 and (ls[0][0] is truth(ls[0][1]) or ls[0][0] is Not(atom(T('is', ls[0][1], NONE)))):
                    x = ls[0][1]
                    continue
            break
        if x.op == 'call':
            fn, args = x.args[0], x.args[1]
            if fn.op == 'glob' and fn.args[0] == 'builtins.sorted' and len(args) == 1 and args[0].op == 'call' and args[0].args[0].op == 'attr' \
                    and args[0].args[0].args[1] == 'items' and not args[0].args[1] and self.first_key(dict(x.args[2]).get('key')):
                # keys are distinct: the values take no part in the order
                d = args[0].args[0].args[0]
                b = T('call', fn, (d,), tuple(a for a in x.args[2] if a[0] != 'key'))
                return b, lambda k: T('tuple', (T('elem', b, k), T('sub', d, T('elem', b, k))))
            if fn.op == 'glob' and fn.args[0] == 'builtins.sorted' and len(args) == 1 and args[0].op == 'call' and args[0].args[0].op == 'attr' \
                    and args[0].args[0].args[1] == 'keys' and not args[0].args[1]:
                b = T('call', fn, (args[0].args[0].args[0],), x.args[2])
                return b, lambda k: T('elem', b, k)
            if fn.op == 'attr' and not args:
                b = fn.args[0]
                if fn.args[1] == 'items':
                    return b, lambda k: T('tuple', (T('elem', b, k), T('sub', b, T('elem', b, k))))
                if fn.args[1] == 'values':
                    return b, lambda k: T('sub', b, T('elem', b, k))
            if fn.op == 'glob' and fn.args[0] == 'builtins.enumerate' and args:
                b, f = self.iter_info(args[0])
                start = args[1] if len(args) > 1 else dict(x.args[2]).get('start', const(0))
                if start is const(0):
                    return b, lambda k: T('tuple', (T('index', b, k), f(k)))
                return b, lambda k: T('tuple', (T('bin', 'Add', T('index', b, k), start), f(k)))
            if fn.op == 'glob' and fn.args[0] == 'builtins.range' and len(args) == 1 and args[0].op == 'call' \
                    and args[0].args[0].op == 'glob' and args[0].args[0].args[0] == 'builtins.len':
                b = args[0].args[1][0]
                return b, lambda k: T('index', b, k)
            if fn.op == 'glob' and fn.args[0] == 'builtins.zip' and args:
                fs = [self.iter_info(a) for a in args]
                base = fs[0][0]

                def together(k):
                    # the others at the place where the first one is
                    return T('tuple', (fs[0][1](k),) + tuple(
                        T('sub', b, T('index', base, k)) if f(k) is T('elem', b, k) and b.op in ('param', 'attr', 'elem', 'sub', 'self') and b is not base else f(k)
                        for b, f in fs[1:]))
                return base, together
        return x, lambda k: T('elem', x, k)

    def copied(self, x):
        """what an untouched copy was made of"""
        if x.op == 'new':
            a = self.allocs[x]
            if not a.mutated and a.comp is None and a.init and len(a.init) == 1:
                i = a.init[0]
                if isinstance(i, tuple):
                    return i[1] if i[0].op == 'star' else None
                return i.args[0] if i.op == 'star' else None

    def first_key(self, key):
        if key is None:
            return True
        if key.op != 'closure':
            return False
        node = self.closures[key][0]
        if not isinstance(node, ast.Lambda) or len(node.args.args) != 1:
            return False
        b, a = node.body, node.args.args[0].arg
        return isinstance(b, ast.Subscript) and isinstance(b.value, ast.Name) and b.value.id == a and \
            isinstance(b.slice, ast.Constant) and b.slice.value == 0

    def literal_items(self, t):
        x = t
        if x.op == 'call' and x.args[0].op == 'glob' and x.args[0].args[0] in ('builtins.tuple', 'builtins.list') \
                and len(x.args[1]) == 1:
            x = x.args[1][0]
        if x.op == 'call' and x.args[0].op == 'glob' and x.args[0].args[0] == 'builtins.enumerate' and len(x.args[1]) == 1 and not x.args[2]:
            items = self.literal_items(x.args[1][0])
            return None if items is None else [T('tuple', (const(i), v)) for i, v in enumerate(items)]
        if x.op == 'new':
            a = self.allocs[x]
            if not a.mutated and a.comp is None and a.kind in ('list', 'tuple') and a.init:
                return a.init if len(a.init) <= 10 else None
            return None
        if x.op in ('list', 'tuple', 'set') and 0 < len(x.args[0]) <= 10 and not any(i.op == 'star' for i in x.args[0]):
            return list(x.args[0])
        if x.op == 'glob':
            node = self.global_value(x.args[0])
            if isinstance(node, (ast.Tuple, ast.List)) and 0 < len(node.elts) <= 10 and \
                    all(isinstance(e, (ast.Constant, ast.Name, ast.Attribute, ast.Tuple)) for e in node.elts):
                mod = self.p.modules[x.args[0].rsplit('.', 1)[0]]
                fr = Frame(None, mod, None)
                self.frames.append(fr)
                try:
                    return [self.ev(e, State({}, {}, TRUE)) for e in node.elts]
                finally:
                    self.frames.pop()
        return None

    def global_value(self, qual):
        mod, _, name = qual.rpartition('.')
        if self.spec_side:
            v = getattr(self.p, '_spec_assigns', {}).get(qual)
            if v is not None:
                return v
        m = self.p.modules.get(mod)
        if m and len(m.assigns.get(name, ())) == 1:
            return m.assigns[name][0]
        return None

    spec_side = False
    pick = 'last'

    def s_For(self, s, st):
        # for x in <generator helper>: splice the helper around the body
        it = self.ev(s.iter, st, want_gen=True)
        if it.op == 'gencall':
            return self.splice_generator(it, s, st)
        items = self.literal_items(it)
        if items is not None and len(items) <= 10:
            return self.unrolled(s, items, st)
        parts = self.concatenated(it)
        if 1 < len(parts) <= 4 and not s.orelse and not any(isinstance(x, (ast.Break, ast.Return)) for x in ast.walk(s)):
            for part in parts:
                if st is not None:
                    items = self.literal_items(part)
                    st = self.unrolled(s, items, st) if items is not None else self.for_over(part, s, st)
            return st
        return self.for_over(it, s, st)

    def concatenated(self, it):
        """the parts of what is gone through one after the other"""
        if it.op == 'call' and it.args[0].op == 'glob' and it.args[0].args[0] == 'itertools.chain' and not any(a.op == 'star' for a in it.args[1]):
            return list(it.args[1])
        if it.op == 'bin' and it.args[0] == 'Add':
            return self.concatenated(it.args[1]) + self.concatenated(it.args[2])
        return [it]

    def for_over(self, it, s, st):
        self.note_read('__iter__', T('iter', it), it, st)
        comp = self.comp_of(it)
        if comp is not None:
            return self.loop_over_comp(s, comp, st)
        base, elemf = self.iter_info(it)
        c2 = self.comp_of(base)
        if c2 is not None and elemf(0).op == 'elem':
            return self.loop_over_comp(s, c2, st)
        if c2 is not None and elemf(0).op == 'index':
            self.index_comp[base] = c2
            r = self.loop_over_comp(s, (c2[0], elemf(0)), st)
            del self.index_comp[base]
            return r
        return self.generic_loop(base, elemf, lambda st2, el: self.assign(s.target, el, st2, s), s.body, s.orelse, st, s)

    s_AsyncFor = s_For

    def comp_of(self, t):
        """(generators, element) of a container built by a comprehension or by an appending loop"""
        if t.op == 'new':
            a = self.allocs[t]
            if a.comp is not None and not a.mutated:
                return a.comp
            if a.mutated and a.comp is None and not a.init and a.kind == 'list':
                return self.collected(t)
        elif t.op == 'call' and t.args[0].op == 'glob' and t.args[0].args[0] == 'builtins.enumerate' and t.args[1]:
            inner, args = t.args[1][0], t.args[1]
            start = args[1] if len(args) > 1 else dict(t.args[2]).get('start', const(0))
            base, elemf = self.iter_info(inner)
            c = self.comp_of(base) if elemf(0).op == 'elem' else None
            if c is not None:
                i = T('index', base, 0)
                if start is not const(0):
                    i = T('bin', 'Add', i, start)
                return c[0], T('tuple', (i, c[1]))
        return None

    def collected(self, t):
        """comprehension equivalent to the loop that filled list t by append, if that is all that happened to t"""
        found = []
        depth = len(self.loops)
        for e in self.effects:
            if e.kind == 'emit' and e.target is t:
                if e.extra and e.extra != {'by': 'append'} or e.loops[:depth] != tuple((l.it, l.elem) for l in self.loops) or len(e.loops) == depth:
                    return None
                found.append(e)
            elif e.kind == 'call' and e.term.args[0].op == 'attr' and e.term.args[0].args[0] is t and \
                    e.term.args[0].args[1] == 'append':
                continue
            elif any(x is not None and isinstance(x, Term) and t in subterms(x) for x in (e.term, e.target, e.value)):
                if e.kind == 'call' and callee_name(e.term) in ('len', 'enumerate', 'sorted', 'list', 'tuple', 'debug', 'info', 'range', 'iter'):
                    continue
                return None
        if not found or self.mute or any(e.loops != found[0].loops for e in found):
            return None
        loops = found[0].loops[depth:]
        if any(it is None or it in self.broken for it, _ in loops):
            return None
        for a in found:
            for b in found:
                if a is not b and And(a.cond, b.cond) is not FALSE:
                    return None
        v, g = found[0].value, found[0].cond
        for e in found[1:]:
            v = tite(constrain(e.cond, Or(e.cond, g)), e.value, v)
            g = Or(g, e.cond)
        return [(it, el, TRUE) for it, el in loops[:-1]] + [(loops[-1][0], loops[-1][1], g)], v

    def unrolled(self, s, items, st):
        lp = Loop(None, None)
        done = None
        cur = st
        for el in items:
            if cur is None:
                break
            lp.continues = []
            self.loop_stack.append(lp)
            self.assign(s.target, el, cur, s)
            cur = self.block(s.body, cur)
            self.loop_stack.pop()
            for x in lp.continues:
                cur = join(cur, x)
        if s.orelse and cur is not None:
            cur = self.block(s.orelse, cur)
        for x in lp.breaks:
            cur = join(cur, x)
        return cur

    def loop_over_comp(self, s, comp, st):
        gens, elt = comp

        def rec(i, st2):
            if i == len(gens):
                self.assign(s.target, elt, st2, s)
                return self.block(s.body, st2)
            it, elem, g = gens[i]
            return None
        # a single-generator comprehension: a loop over its source guarded by its filter
        it, elem, g = gens[-1]
        outer_gens = gens[:-1]
        if outer_gens:
            base, elemf = s_iter_fallback(elt)
        def bind(st2, el):
            st2.cond = And(st2.cond, g)
            self.assign(s.target, elt, st2, s)
        if not outer_gens:
            return self.generic_loop(it, lambda k: elem, bind, s.body, s.orelse, st, s, filtered=True)
        # nested: treat the product as one loop over the innermost source, inside the outer ones
        pushed = []
        conds = TRUE
        for oit, oel, og in outer_gens:
            lp = Loop(oit, oel)
            self.loops.append(lp)
            pushed.append(lp)
            conds = And(conds, og)
        saved = st.cond
        def bind2(st2, el):
            st2.cond = And(st2.cond, conds, g)
            self.assign(s.target, elt, st2, s)
        r = self.generic_loop(it, lambda k: elem, bind2, s.body, s.orelse, st, s, filtered=True)
        for _ in pushed:
            self.loops.pop()
        return r

    loop_stack = None
    calls_log = None
    broken = None

    def generic_loop(self, it, elemf, bind, body, orelse, st, node, filtered=False):
        k = sum(1 for l in self.loops if l.it is it)
        elem = elemf(k)
        lp = Loop(it, elem)
        names = assigned_names(body) | target_names(getattr(node, 'target', None))
        pre = st.fork()
        head = st.fork(TRUE)
        heads = {}
        hard = hard_assigned(body) | target_names(getattr(node, 'target', None))
        names = {n for n in names if not (n not in hard and n in st.env and st.env[n].op == 'new')}
        for n in names:
            if n in st.env:
                h = T('loopvar', (getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0)), k, n, st.env[n])
                head.env[n] = h
                heads[n] = h
        hheads = {}
        for key, v in st.heap.items():
            h = atom(T('heaphead', key[0], key[1], (getattr(node, 'lineno', 0), k)))
            head.heap[key] = h
            hheads[key] = h
        self.outer.append(st.cond)
        self.loops.append(lp)
        self.loop_stack.append(lp)
        nret = len(self.frames[-1].returns)
        tmarks = {(id(c), ti): len(states) for c in self.trys for ti, (_, states) in enumerate(c.handlers)}
        bind(head, elem)
        filt = head.cond
        start_heap_keys = set(head.heap)
        end = self.block(body, head)
        self.loop_stack.pop()
        self.loops.pop()
        self.outer.pop()
        base_elem = T('elem', it, k)
        deps = {base_elem, T('index', it, k)} | set(heads.values())
        headatoms = set()
        for h in hheads.values():
            headatoms |= set(support(h))

        def dep(a):
            return bool(subterms(a) & deps) or a in headatoms
        cont = end
        for x in lp.continues:
            cont = join(cont, x)
        if not filtered and cont is not None and isinstance(node, (ast.For, ast.comprehension)):
            for n, h in heads.items():
                e = cont.env.get(n)
                if e is not None and e.op == 'bin' and e.args[0] == 'Add' and (e.args[1] is h and e.args[2] is const(1)
                                                                               or e.args[2] is h and e.args[1] is const(1)):
                    # counts the iterations: the position of the element
                    i = T('index', it, k)
                    self.counters[h] = i if pre.env[n] is const(0) else T('bin', 'Add', i, pre.env[n])
        brk = None
        if lp.breaks:
            self.broken.add(it)
        for x in lp.breaks:
            brk = join(brk, x)
        fin = join(cont.fork() if cont else None, brk.fork() if brk else None)
        stay = fin.cond if fin is not None else FALSE
        if filtered:
            stay = Or(stay, Not(filt))
        exit_rel = Not(stay)
        lp.exit = brk.cond if brk is not None else FALSE
        for rs, _ in self.frames[-1].returns[nret:]:
            lp.exit = Or(lp.exit, rs.cond)
        left = lp.left = brk.cond if brk is not None else FALSE
        # returned states leave with the loop condition; fix their guard to be absolute
        for i in range(nret, len(self.frames[-1].returns)):
            rs, v = self.frames[-1].returns[i]
            rel = unless_left(it, k, lp.exit, rs.cond)
            rs.cond = And(pre.cond, make_any(it, k, dep, rel))
            if contains_dep(v, dep):
                self.frames[-1].returns[i] = (rs, T('first', it, k, rel, v))
        # states captured by handlers outside the loop: make their guard absolute
        for c in self.trys:
            for ti, (types, states) in enumerate(c.handlers):
                for j in range(tmarks.get((id(c), ti), len(states)), len(states)):
                    states[j].cond = And(pre.cond, make_any(it, k, dep, states[j].cond))
        out = pre.fork(And(pre.cond, Not(make_any(it, k, dep, exit_rel))))
        ran = make_any(it, k, dep, filt if filtered else TRUE)
        if fin is not None:
            for n in names | {x for x in fin.env if x not in pre.env}:
                e = fin.env.get(n, MISSING)
                init = pre.env.get(n, MISSING)
                h = heads.get(n)
                if filtered and filt is not TRUE and not (h is None and e is MISSING):
                    e = tite(filt, e, h if h is not None else MISSING)
                # set only where the loop is left: the first such element, otherwise the last one
                self.pick = 'first' if lp.breaks and (cont is None or cont.env.get(n, MISSING) is (h if h is not None else MISSING)) else 'last'
                out.env[n] = self.widen(e, init, h, it, k, dep, n, node, left)
            for key in fin.heap:
                e = fin.heap[key]
                h = hheads.get(key)
                if h is None:
                    # allocated inside the loop
                    continue
                if filtered and filt is not TRUE:
                    e = ite(filt, e, h)
                if e is h:
                    continue
                hv = support(h)[0]
                e1, e0 = restrict(e, _vars[hv], 1), restrict(e, _vars[hv], 0)
                if e1 is TRUE:
                    out.heap[key] = Or(pre.heap[key], make_any(it, k, dep, unless_left(it, k, left, constrain(e0, stay) if stay is not FALSE else e0)))
                else:
                    out.heap[key] = atom(T('heapafter', key[0], key[1], (getattr(node, 'lineno', 0), k)))
        # any(...) guards: `broke` condition for for-else
        if orelse:
            broke = make_any(it, k, dep, brk.cond) if brk is not None else FALSE
            e = out.fork(And(out.cond, Not(broke)))
            b = out.fork(And(out.cond, broke))
            re = self.block(orelse, e) if e.cond is not FALSE else None
            out = join(re, b if b.cond is not FALSE else None)
        return out

    def widen(self, e, init, h, it, k, dep, name, node, left=FALSE):
        def up(g):
            return unless_left(it, k, left, g)
        if h is not None:
            self.updates[h] = e
        if e is h and h is not None:
            return init
        if h is None and init is MISSING:
            # first bound inside the loop
            ls = [(g, v) for g, v in leaves(e) if v is not MISSING]
            vals = {v for _, v in ls}
            if len(vals) == 1 and len(ls) < len(leaves(e)):
                g, v = up(Or(*[x for x, _ in ls])), ls[0][1]
                return tite(make_any(it, k, dep, g), T(self.pick, it, k, g, v) if contains_dep(v, dep) else v, MISSING)
            return T(self.pick, it, k, e) if contains_dep(e, dep) else e
        # boolean accumulators
        flag = h is not None and e.op == 'ite' and is_flag(h) and all(is_flag(v) for _, v in leaves(e))
        if h is not None and (flag or e.op in ('bool', 'const')):
            g = truth(e)
            hv = T('truthy', h)
            if hv in _vars and (flag or e.op == 'bool' or isinstance(e.args[0], bool)):
                e1, e0 = restrict(g, _vars[hv], 1), restrict(g, _vars[hv], 0)
                if e0 is FALSE:
                    return boolean(And(truth(init), Not(make_any(it, k, dep, up(Not(e1))))))
                if e1 is TRUE:
                    return boolean(Or(truth(init), make_any(it, k, dep, up(e0))))
        ls = leaves(e)
        vals = []
        for g, v in ls:
            if v is not h and v not in vals:
                vals.append(v)
        if len(vals) == 1:
            g = FALSE
            for gg, v in ls:
                if v is vals[0]:
                    g = Or(g, gg)
            v = vals[0]
            g = up(g)
            if h is None or not contains(v, lambda x: x is h):
                if v.op == 'bool' or contains_dep(v, dep):
                    return tite(make_any(it, k, dep, g), T(self.pick, it, k, g, v), init)
                return tite(make_any(it, k, dep, g), v, init)
        if left is not FALSE:
            e = T('until', T('guard', left), e)
        return T('fold', it, k, init, e)

    def indexed(self, s, st):
        """(counter, sequence expression) of `i = 0; while i < len(x): ..x[i]..; i += 1`"""
        t = s.test
        if s.orelse or not isinstance(t, ast.Compare) or len(t.ops) != 1 or not s.body:
            return None
        a, b = t.left, t.comparators[0]
        if isinstance(t.ops[0], ast.Gt):
            a, b = b, a
        elif not isinstance(t.ops[0], (ast.Lt, ast.NotEq)):
            return None
        if not (isinstance(a, ast.Name) and isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == 'len' and
                len(b.args) == 1 and isinstance(b.args[0], (ast.Name, ast.Attribute))) or st.env.get(a.id) is not const(0):
            return None
        last = s.body[-1]
        step = isinstance(last, ast.AugAssign) and isinstance(last.target, ast.Name) and last.target.id == a.id and isinstance(last.op, ast.Add) and \
            isinstance(last.value, ast.Constant) and last.value.value == 1
        if not step or a.id in assigned_names(s.body[:-1]) or any(isinstance(x, (ast.Continue,)) for x in ast.walk(s)):
            return None
        seq = ast.unparse(b.args[0])
        if isinstance(b.args[0], ast.Name) and seq in assigned_names(s.body):
            return None
        for x in ast.walk(ast.Module(s.body, [])):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and ast.unparse(x.func.value) == seq and \
                    x.func.attr in set(ADDERS) | BULK_ADDERS | REMOVERS | OTHER_MUT:
                return None
            if isinstance(x, (ast.Subscript, ast.Attribute)) and isinstance(x.ctx, (ast.Store, ast.Del)) and ast.unparse(x).startswith(seq):
                return None
        return a.id, b.args[0]

    def s_While(self, s, st):
        ix = self.indexed(s, st)
        if ix is not None:
            name, seq = ix
            x = self.ev(seq, st)
            base = self.iter_info(x)[0]

            def bind(st2, el):
                st2.env[name] = el
            f = ast.For(target=ast.Name(id=name, ctx=ast.Store()), iter=seq, body=s.body[:-1], orelse=[])
            ast.copy_location(f, s)
            ast.fix_missing_locations(f)
            before = st.env[name]
            c = self.comp_of(base)
            if c is None:
                st = self.generic_loop(base, lambda k: T('index', base, k), bind, s.body[:-1] or [ast.Pass()], [], st, f)
                if st is not None:
                    st.env[name] = T('fold', base, 0, before, T('call', T('glob', 'builtins.len'), (x,), ()))
                return st
        first = s.body[0]
        if isinstance(s.test, ast.Constant) and s.test.value and isinstance(first, ast.If) and not first.orelse and not s.orelse and \
                len(first.body) == 1 and isinstance(first.body[0], ast.Break):
            # while True: if c: break
            f = ast.While(test=ast.UnaryOp(op=ast.Not(), operand=first.test), body=s.body[1:] or [ast.Pass()], orelse=[])
            ast.copy_location(f, s)
            s = ast.fix_missing_locations(f)
        names = assigned_names(s.body) | assigned_names([ast.Expr(s.test)])
        pre = st.fork()
        head = st.fork(TRUE)
        heads = {}
        lid = (s.lineno, s.col_offset)
        hard = hard_assigned(s.body)
        names = {n for n in names if not (n not in hard and n in st.env and st.env[n].op == 'new')}
        for n in names:
            if n in st.env:
                heads[n] = T('loopvar', lid, 0, n, st.env[n])
                head.env[n] = heads[n]
        for key in list(st.heap):
            head.heap[key] = atom(T('heaphead', key[0], key[1], (lid, 'w')))
        it = T('while', lid)
        lp = Loop(it, T('elem', it, 0))
        self.outer.append(st.cond)
        self.loops.append(lp)
        self.loop_stack.append(lp)
        nret = len(self.frames[-1].returns)
        c = self.cond(s.test, head)
        self.while_cond[it] = c
        bodyst = head.fork(c)
        end = self.block(s.body, bodyst) if c is not FALSE else None
        self.loop_stack.pop()
        self.loops.pop()
        self.outer.pop()
        for x in lp.continues:
            end = join(end, x)
        brk = None
        if lp.breaks:
            self.broken.add(it)
        for x in lp.breaks:
            brk = join(brk, x)
        lp.exit = lp.left = brk.cond if brk is not None else FALSE
        for rs, _ in self.frames[-1].returns[nret:]:
            lp.exit = Or(lp.exit, rs.cond)
        for i in range(nret, len(self.frames[-1].returns)):
            rs, v = self.frames[-1].returns[i]
            rs.cond = And(pre.cond, atom(T('during', it, T('guard', rs.cond))))
        out = pre.fork()
        fin = join(end.fork() if end else None, brk.fork() if brk else None)
        tconst = isinstance(s.test, ast.Constant) and s.test.value
        if tconst and brk is None:
            return None
        if fin is not None:
            for n in names | {x for x in fin.env if x not in pre.env}:
                e = fin.env.get(n, MISSING)
                h = heads.get(n)
                init = pre.env.get(n, MISSING)
                if h is not None:
                    self.updates[h] = e
                if e is h:
                    continue
                ls = [v for g, v in leaves(e) if v is not h]
                if e.op in ('bool', 'const') and h is not None and T('truthy', h) in _vars:
                    g = truth(e)
                    e1, e0 = restrict(g, _vars[T('truthy', h)], 1), restrict(g, _vars[T('truthy', h)], 0)
                    if e0 is FALSE:
                        out.env[n] = boolean(And(truth(init), Not(atom(T('during', it, T('guard', Not(e1)))))))
                        continue
                    if e1 is TRUE:
                        out.env[n] = boolean(Or(truth(init), atom(T('during', it, T('guard', e0)))))
                        continue
                if h is not None and len(set(ls)) == 1 and is_plain_const(ls[0]):
                    g = FALSE
                    for gg, v in leaves(e):
                        if v is ls[0]:
                            g = Or(g, gg)
                    out.env[n] = tite(atom(T('during', it, T('guard', g))), ls[0], init)
                    continue
                out.env[n] = T('fold', it, 0, init, e)
            for key in fin.heap:
                if key in pre.heap and fin.heap[key] is not head.heap.get(key):
                    out.heap[key] = atom(T('heapafter', key[0], key[1], (lid, 'w')))
        if s.orelse:
            r = self.block(s.orelse, out)
            out = join(r, brk)
        return out

    def s_Break(self, s, st):
        if self.loop_stack:
            self.loop_stack[-1].breaks.append(st)
        return None

    def s_Continue(self, s, st):
        if self.loop_stack:
            self.loop_stack[-1].continues.append(st)
        return None

    def s_Match(self, s, st):
        subj = self.ev(s.subject, st)
        rest = st
        out = None
        for case in s.cases:
            if rest is None or rest.cond is FALSE:
                break
            g, binds = self.pattern(case.pattern, subj, rest)
            a = rest.fork(And(rest.cond, g))
            for n, v in binds:
                a.env[n] = v
            if case.guard is not None:
                cg = self.cond(case.guard, a)
                a.cond = And(a.cond, cg)
                g = And(g, cg)
            out = join(out, self.block(case.body, a) if a.cond is not FALSE else None)
            rest = rest.fork(And(rest.cond, Not(g)))
        return join(out, rest if rest is not None and rest.cond is not FALSE else None)

    def pattern(self, p, subj, st):
        if isinstance(p, ast.MatchValue):
            return self.eq(subj, self.ev(p.value, st)), []
        if isinstance(p, ast.MatchSingleton):
            return self.is_(subj, const(p.value)), []
        if isinstance(p, ast.MatchOr):
            g = FALSE
            for q in p.patterns:
                g = Or(g, self.pattern(q, subj, st)[0])
            return g, []
        if isinstance(p, ast.MatchAs):
            g, b = (TRUE, []) if p.pattern is None else self.pattern(p.pattern, subj, st)
            return g, b + ([(p.name, subj)] if p.name else [])
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            return self.isinst(subj, self.ev(p.cls, st)), []
        if isinstance(p, ast.MatchSequence) and not any(isinstance(q, ast.MatchStar) for q in p.patterns):
            g, b = self.eq(T('call', T('glob', 'builtins.len'), (subj,), ()), const(len(p.patterns))), []
            if subj.op == 'tuple' and len(subj.args[0]) == len(p.patterns):
                g = TRUE
            for i, q in enumerate(p.patterns):
                g2, b2 = self.pattern(q, sub(subj, const(i)), st)
                g, b = And(g, g2), b + b2
            return g, b
        return atom(T('pattern', ast.dump(p), subj)), []

    # -- conditions ------------------------------------------------------------
    def cond(self, n, st):
        if isinstance(n, ast.BoolOp):
            saved = st.cond
            g = None
            for v in n.values:
                if isinstance(n.op, ast.And):
                    if g is not None:
                        st.cond = And(saved, g)
                    c = self.cond(v, st)
                    g = c if g is None else And(g, c)
                else:
                    if g is not None:
                        st.cond = And(saved, Not(g))
                    c = self.cond(v, st)
                    g = c if g is None else Or(g, c)
            st.cond = saved
            return g
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return Not(self.cond(n.operand, st))
        if isinstance(n, ast.Compare):
            return self.compare(n, st)
        if isinstance(n, ast.IfExp):
            c = self.cond(n.test, st)
            saved = st.cond
            st.cond = And(saved, c)
            a = self.cond(n.body, st)
            st.cond = And(saved, Not(c))
            b = self.cond(n.orelse, st)
            st.cond = saved
            return ite(c, a, b)
        return self.truth(self.ev(n, st), st)

    def truth(self, t, st):
        if t.op == 'new':
            k = ('ne', t)
            if k in st.heap:
                return st.heap[k]
            return atom(T('truthy', t))
        if t.op == 'call' and t.args[0].op == 'glob' and t.args[0].args[0] in (
                'builtins.len', 'builtins.bool', 'builtins.list', 'builtins.set', 'builtins.tuple', 'builtins.sorted') \
                and len(t.args[1]) == 1:
            return self.truth(t.args[1][0], st)
        if t.op == 'ite':
            return ite(t.args[0], self.truth(t.args[1], st), self.truth(t.args[2], st))
        return truth(t)

    def compare(self, n, st):
        left = self.ev(n.left, st)
        g = TRUE
        for op, r in zip(n.ops, n.comparators):
            right = self.ev(r, st)
            g = And(g, self.cmp(type(op).__name__, left, right, st))
            left = right
        return g

    def cmp(self, op, a, b, st=None):
        if op == 'Eq':
            return self.eq(a, b, st)
        if op == 'NotEq':
            return Not(self.eq(a, b, st))
        if op == 'Is':
            return self.is_(a, b)
        if op == 'IsNot':
            return Not(self.is_(a, b))
        if op in ('In', 'NotIn'):
            self.note_read('__contains__', T('in', a, b), b, st)
            r = self.in_(a, b)
            return r if op == 'In' else Not(r)
        if op == 'Lt':
            return self.lt(a, b, st)
        if op == 'Gt':
            return self.lt(b, a, st)
        if op == 'LtE':
            return Not(self.lt(b, a, st))
        if op == 'GtE':
            return Not(self.lt(a, b, st))
        return atom(T('cmp', op, a, b))

    def is_len(self, t):
        if t.op == 'call' and t.args[0].op == 'glob' and t.args[0].args[0] == 'builtins.len' and len(t.args[1]) == 1:
            return t.args[1][0]
        return None

    def eq(self, a, b, st=None):
        if a is b and a.op not in ('opaque',):
            return TRUE
        if a.op == 'ite' and b.op == 'const':
            return ite(a.args[0], self.eq(a.args[1], b, st), self.eq(a.args[2], b, st))
        if b.op == 'ite' and a.op == 'const':
            return self.eq(b, a, st)
        if a.op == 'const' and b.op == 'const':
            return TRUE if a.args[0] == b.args[0] else FALSE
        if a.op == 'bool' and b.op == 'bool':
            return ite(a.args[0], b.args[0], Not(b.args[0]))
        if b.op == 'const' and b.args[0] is None:
            return self.is_(a, b)
        if a.op == 'const' and a.args[0] is None:
            return self.is_(b, a)
        for x, y in ((a, b), (b, a)):
            ln = self.is_len(x)
            if ln is not None and y.op == 'const' and y.args[0] == 0 and not isinstance(y.args[0], bool):
                return Not(self.truth(ln, st) if st else truth(ln))
            if x.op == 'bool' and y.op == 'const' and isinstance(y.args[0], bool):
                return x.args[0] if y.args[0] else Not(x.args[0])
        if a.op == 'const' or (b.op != 'const' and a.id > b.id):
            a, b = b, a
        return atom(T('eq', a, b))

    def is_(self, a, b):
        if a.op == 'const' and b.op != 'const':
            a, b = b, a
        if b is NONE:
            if a is NONE:
                return TRUE
            if a.op in ('const', 'tuple', 'list', 'dict', 'set', 'fmt', 'new', 'bool', 'closure', 'exc'):
                return FALSE
            if a.op == 'ite':
                return ite(a.args[0], self.is_(a.args[1], b), self.is_(a.args[2], b))
            return atom(T('is', a, NONE))
        if b.op == 'const' and isinstance(b.args[0], bool):
            if a.op == 'const':
                return TRUE if a is b else FALSE
            if a.op == 'bool':
                return a.args[0] if b.args[0] else Not(a.args[0])
            return atom(T('eq', a, b))
        if a is b:
            return TRUE
        if a.op == 'ite':
            return ite(a.args[0], self.is_(a.args[1], b), self.is_(a.args[2], b))
        if a.id > b.id:
            a, b = b, a
        return atom(T('is', a, b))

    def in_(self, a, b):
        x = b
        while self.copied(x) is not None:
            x = self.copied(x)
        if x.op == 'ite':
            return ite(x.args[0], self.in_(a, x.args[1]), self.in_(a, x.args[2]))
        if x.op == 'new':
            x = self.deref(x)
            al = self.allocs.get(x)
            if al is not None and not al.mutated and al.comp is None and al.init is not None and al.kind == 'set':
                x = T('set', tuple(al.init))
            elif self.table_of(x) is not None:
                x = T('set', tuple(k for k, _ in self.table_of(x)))
        while True:
            if x.op == 'call' and x.args[0].op == 'glob' and x.args[0].args[0] in TRANSPARENT_ITER and len(x.args[1]) == 1:
                x = x.args[1][0]
            elif x.op == 'call' and x.args[0].op == 'glob' and x.args[0].args[0] in ('builtins.dict.fromkeys', 'collections.OrderedDict.fromkeys') and \
                    1 <= len(x.args[1]) <= 2:
                x = x.args[1][0]
            else:
                break
        if x.op == 'call' and x.args[0].op == 'attr' and x.args[0].args[1] == 'keys' and not x.args[1]:
            x = x.args[0].args[0]
        if x.op in ('tuple', 'list', 'set') and not any(i.op == 'star' for i in x.args[0]):
            g = FALSE
            for i in x.args[0]:
                g = Or(g, self.eq(a, i))
            return g
        return atom(T('in', a, x))

    def lt(self, a, b, st=None):
        if a.op == 'const' and b.op == 'const':
            try:
                return TRUE if a.args[0] < b.args[0] else FALSE
            except TypeError:
                pass
        la, lb = self.is_len(a), self.is_len(b)
        if la is not None and b.op == 'const' and isinstance(b.args[0], int):
            if b.args[0] <= 0:
                return FALSE
            if b.args[0] == 1:
                return Not(self.truth(la, st) if st else truth(la))
        if lb is not None and a.op == 'const' and isinstance(a.args[0], int):
            # c < len  <=>  not len < c+1
            return Not(self.lt(b, const(a.args[0] + 1), st))
        return atom(T('lt', a, b))

    def isinst(self, x, c):
        if c.op == 'tuple':
            g = FALSE
            for i in c.args[0]:
                g = Or(g, self.isinst(x, i))
            return g
        if c.op == 'bin' and c.args[0] == 'BitOr':
            return Or(self.isinst(x, c.args[1]), self.isinst(x, c.args[2]))
        return atom(T('isinst', x, c))

    # -- expressions -------------------------------------------------------------
    def ev(self, n, st, alloc=False, want_gen=False):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            for c in ast.iter_child_nodes(n):
                if isinstance(c, ast.expr):
                    self.ev(c, st)
            return self.opaque(n)
        if type(n) in (ast.List, ast.Dict, ast.Set):
            return m(n, st, alloc)
        if type(n) is ast.Call:
            return m(n, st, alloc=alloc, want_gen=want_gen)
        return m(n, st)

    def e_Constant(self, n, st):
        return const(n.value)

    def e_Name(self, n, st):
        fr = self.frames[-1]
        if n.id in st.env and st.env[n.id] is not None:
            return st.env[n.id]
        if n.id in fr.locals:
            return MISSING
        f = fr
        if fr.closure_env is not None and n.id in fr.closure_env:
            return fr.closure_env[n.id]
        return self.glob(fr.module, n.id)

    def glob(self, module, name):
        q = self.p.resolve_name(module, name)
        return self.globq(q)

    def globq(self, q):
        v = self.global_value(q)
        if isinstance(v, ast.Constant):
            return const(v.value)
        if isinstance(v, ast.Name) and v.id != q.rsplit('.', 1)[-1]:
            mod = self.p.modules[q.rsplit('.', 1)[0]]
            q2 = self.p.resolve_name(mod, v.id)
            if q2 in self.p.functions or q2 in self.p.classes:
                return T('glob', q2)
        if v is not None and pure_const(v):
            key = (self.spec_side, q)
            memo = self.p.__dict__.setdefault('_constmemo', {})
            cells = self.p.__dict__.setdefault('_constcells', {})
            if key not in memo:
                memo[key] = T('glob', q)
                mod = self.p.modules[q.rsplit('.', 1)[0]]
                self.frames.append(Frame(None, mod, None))
                n_eff, n_reads = len(self.effects), len(self.reads)
                had = dict(self.allocs)
                try:
                    memo[key] = self.ev(v, State({}, {}, TRUE))
                finally:
                    self.frames.pop()
                    del self.effects[n_eff:]
                    del self.reads[n_reads:]
                cells[key] = {t: a for t, a in self.allocs.items() if had.get(t) is not a}
            self.allocs.update(cells.get(key, ()))
            return memo[key]
        return T('glob', q)

    def e_Attribute(self, n, st):
        b = self.ev(n.value, st)
        return self.attr(b, n.attr, st, n)

    def attr(self, b, name, st, node=None):
        if b.op == 'self' and 'self.' + name in st.env:
            return st.env['self.' + name]
        if b.op == 'glob':
            q = self.p.canonical(b.args[0] + '.' + name)
            if q == 'sys.maxunicode':
                return const(0x10FFFF)
            c = self.p.classes.get(b.args[0])
            if c is not None:
                if name in c.attrs and isinstance(c.attrs[name], ast.Constant) and not self._is_enum(c):
                    return const(c.attrs[name].value)
                return T('glob', q)
            if b.args[0] in self.p.modules or (b.args[0].split('.')[0] not in ('lgr', 'tools')
                                               and self.global_value(b.args[0]) is None):
                return self.globq(q) if b.args[0] in self.p.modules else T('glob', q)
        ty = self.typeof(b)
        if ty:
            f = self.p.lookup_method(ty, name)
            if f is not None and f.is_property and (self.should_inline(f) or trivial_getter(f)):
                return self.inline_call(f, [b], {}, st, node)
            if f is None:
                for q in self.p.mro(ty):
                    c = self.p.classes.get(q)
                    if c and name in c.attrs:
                        if isinstance(c.attrs[name], ast.Constant) and not self._is_enum(c) and \
                                c.attrs[name].value is not None and not self._instance_stored(q, name):
                            return const(c.attrs[name].value)
                        break
                v = self.fresh_field(b, ty, name, st, node)
                if v is not None:
                    return v
        return T('attr', b, name)

    def fresh_field(self, b, ty, name, st, node):
        """the value the constructor gave a field of an object created here"""
        if b.op != 'call' or b.args[0].op != 'glob' or b.args[0].args[0] != ty or len(self.stack) >= self.MAX_DEPTH:
            return None
        f = self.p.lookup_method(ty, '__init__')
        if f is None or any(a.op == 'star' for a in b.args[1]) or any(k == '**' for k, _ in b.args[2]):
            return None
        me = f.params[0]
        hits = [s for s in ast.walk(f.node) if isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign)) for t in
                (s.targets if isinstance(s, ast.Assign) else [s.target])
                if isinstance(t, ast.Attribute) and t.attr == name and isinstance(t.value, ast.Name) and t.value.id == me]
        if len(hits) != 1 or hits[0] not in f.node.body or not isinstance(hits[0], ast.Assign):
            return None
        e = hits[0].value
        names = {x.id for x in ast.walk(e) if isinstance(x, ast.Name)}
        stored = {x.id for x in ast.walk(f.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        if me in names or names & stored or any(isinstance(x, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.Lambda)) for x in ast.walk(e)):
            return None
        for x in self.effects:
            if x.kind in ('store_attr', 'aug') and x.target is not None and x.target.op == 'attr' and x.target.args == (b, name):
                return None
        env = self.bind_params(f, [b] + list(b.args[1]), dict(b.args[2]))
        for p_, d in f.defaults.items():
            if p_ not in env:
                if not isinstance(d, ast.Constant):
                    return None
                env[p_] = const(d.value)
        fr = Frame(f, f.module, f.cls)
        self._prepare(fr, f.node)
        self.frames.append(fr)
        n_eff, n_log, n_reads = len(self.effects), len(self.calls_log), len(self.reads)
        try:
            return self.ev(e, State(env, dict(st.heap), st.cond))
        finally:
            self.frames.pop()
            del self.effects[n_eff:]
            del self.reads[n_reads:]
            del self.calls_log[n_log:]

    def _is_enum(self, c):
        return any('Enum' in (x or '') for x in self.p.mro(c.qual))

    def _instance_stored(self, q, name):
        for c in [self.p.classes[x] for x in self.p.subclasses(q)]:
            for f in c.methods.values():
                for x in ast.walk(f.node):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr == name:
                        return True
            if name in c.attrs and c.qual != q:
                return True
        return False

    def typeof(self, t):
        if t in self.types:
            return self.types[t]
        if t.op == 'call':
            if t.args[0].op == 'glob' and t.args[0].args[0] in self.p.classes:
                return t.args[0].args[0]
            return None
        if t.op == 'attr':
            bt = self.typeof(t.args[0])
            if bt:
                return self.p.field_types(bt).get(t.args[1])
        if t.op == 'super':
            return None
        return None

    def e_Subscript(self, n, st):
        b = self.ev(n.value, st)
        i = self.ev(n.slice, st)
        if i.op == 'index' and i.args[0] is b:
            c = self.index_comp.get(b)
            if c is not None:
                return c[1]
        if b.op == 'new' and self.allocs[b].default and isinstance(n.ctx, ast.Load):
            return self.setdefault(b, i, T(self.allocs[b].default, ()), n, st)
        r = self.item(b, i)
        if isinstance(n.ctx, ast.Load):
            self.note_read('__getitem__', T('sub', b, i), b, st)
        if r.op == 'sub' and isinstance(n.ctx, ast.Load) and self.trys and any('builtins.KeyError' in ty for ty, _ in self.trys[-1].handlers):
            self.calls_log.append(r)
        return r

    def item(self, b, i):
        """b[i]"""
        items = self.table_of(b)
        if items:
            return self.lookup(items, i, T('sub', b, i))
        if b.op == 'new' and i.op == 'const' and isinstance(i.args[0], int):
            c = self.comp_of(b)
            if c is not None and len(c[0]) == 1 and b.args[0] != 'dict':
                (base, elem, g), v = c[0][0], c[1]
                k = self.depth_of(base, elem)
                if g is TRUE and T('index', base, k) not in subterms(v):
                    from .canon import subst
                    return subst(v, T('elem', base, k), sub(self.deref(base), i), {})
                if i is const(0):
                    return T('first', base, k, g, v)
        return sub(self.deref(b), i)

    def e_Slice(self, n, st):
        g = lambda x: self.ev(x, st) if x is not None else NONE
        lo = g(n.lower)
        return T('slice', NONE if lo is const(0) and n.step is None else lo, g(n.upper), g(n.step))

    def e_Tuple(self, n, st):
        return T('tuple', tuple(self.ev(e, st) for e in n.elts))

    def e_Starred(self, n, st):
        return T('star', self.ev(n.value, st))

    def new(self, kind, init, n, st):
        t = T('new', kind, (n.lineno, n.col_offset, self.frames[-1].module.name, self.site_ctx))
        a = self.allocs[t] = Alloc(t, kind, init, n)
        a.cond = st.cond
        a.loops = tuple((l.it, l.elem) for l in self.loops)
        return t

    def e_List(self, n, st, alloc=False):
        items = [self.ev(e, st) for e in n.elts]
        if alloc:
            t = self.new('list', items, n, st)
            st.heap[('ne', t)] = truth(T('list', tuple(items)))
            return t
        return T('list', tuple(items))

    def e_Set(self, n, st, alloc=False):
        items = [self.ev(e, st) for e in n.elts]
        if alloc:
            t = self.new('set', items, n, st)
            st.heap[('ne', t)] = TRUE
            return t
        return T('set', tuple(items))

    def e_Dict(self, n, st, alloc=False):
        items = []
        for k, v in zip(n.keys, n.values):
            kk = self.ev(k, st) if k is not None else T('star', NONE)
            items.append((kk, self.ev(v, st, alloc=isinstance(v, (ast.List, ast.Set, ast.Dict)))))
        if alloc:
            t = self.new('dict', items, n, st)
            st.heap[('ne', t)] = TRUE if items else FALSE
            return t
        return T('dict', tuple(items))

    def e_JoinedStr(self, n, st):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.ev(v.value, st)
                parts.append(formatted(x, self.ev(v.format_spec, st) if v.format_spec else const(''), '' if v.conversion == -1 else chr(v.conversion)))
        return fmt(parts)

    def e_BinOp(self, n, st):
        return self.binop(type(n.op).__name__, self.ev(n.left, st), self.ev(n.right, st), n)

    def binop(self, op, a, b, node):
        if a.op == 'const' and b.op == 'const' and op in ('Add', 'Sub', 'Mult') and \
                isinstance(a.args[0], (int, str)) and type(a.args[0]) is type(b.args[0]):
            try:
                return const({'Add': lambda x, y: x + y, 'Sub': lambda x, y: x - y,
                              'Mult': lambda x, y: x * y}[op](a.args[0], b.args[0]))
            except TypeError:
                pass
        if op == 'Add' and (is_str(a) or is_str(b)):
            return fmt([a, b])
        if op == 'Mod' and a.op == 'const' and isinstance(a.args[0], str):
            args = list(b.args[0]) if b.op == 'tuple' else [b]
            parts = percent(a.args[0], args)
            if parts is not None:
                return fmt(parts)
        if op in ('BitAnd', 'BitOr') and is_boolish(a) and is_boolish(b):
            return boolean(And(truth(a), truth(b)) if op == 'BitAnd' else Or(truth(a), truth(b)))
        if op in ('BitAnd', 'BitOr') and (is_boolish(a) or is_boolish(b)) and (is_flag(a) or is_flag(b)):
            return boolean(And(truth(a), truth(b)) if op == 'BitAnd' else Or(truth(a), truth(b)))
        if op == 'Add' and a.op in ('list', 'tuple') and b.op == a.op:
            return T(a.op, a.args[0] + b.args[0])
        return T('bin', op, a, b)

    def e_UnaryOp(self, n, st):
        if isinstance(n.op, ast.Not):
            return boolean(Not(self.cond(n.operand, st)))
        v = self.ev(n.operand, st)
        if v.op == 'const' and isinstance(n.op, ast.USub) and isinstance(v.args[0], (int, float)):
            return const(-v.args[0])
        return T('un', type(n.op).__name__, v)

    def e_BoolOp(self, n, st):
        # a or b == a if a else b
        saved = st.cond
        vals = []
        g = TRUE
        for i, v in enumerate(n.values):
            st.cond = And(saved, g)
            if isinstance(v, (ast.Compare,)) or (isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.Not)):
                t = boolean(self.cond(v, st))
            else:
                t = self.ev(v, st)
            tr = self.truth(t, st)
            vals.append((t, tr))
            g = And(g, tr if isinstance(n.op, ast.And) else Not(tr))
        st.cond = saved
        out = vals[-1][0]
        for t, tr in reversed(vals[:-1]):
            out = tite(tr, out, t) if isinstance(n.op, ast.And) else tite(tr, t, out)
        return out

    def e_Compare(self, n, st):
        return boolean(self.compare(n, st))

    def e_IfExp(self, n, st):
        c = self.cond(n.test, st)
        saved = st.cond
        st.cond = And(saved, c)
        a = self.ev(n.body, st) if st.cond is not FALSE else MISSING
        st.cond = And(saved, Not(c))
        b = self.ev(n.orelse, st) if st.cond is not FALSE else MISSING
        st.cond = saved
        return tite(c, a, b)

    def e_NamedExpr(self, n, st):
        v = self.ev(n.value, st)
        self.assign(n.target, v, st, n)
        return v

    def e_Lambda(self, n, st):
        return self.closure(n, st)

    def e_Await(self, n, st):
        return self.ev(n.value, st)

    def e_Yield(self, n, st):
        v = self.ev(n.value, st) if n.value is not None else NONE
        self.do_yield(v, st, n)
        return self.opaque(n, 'sent')

    def do_yield(self, v, st, n):
        fr = self.frames[-1]
        if fr.yield_hook is not None:
            fr.yield_hook(v, st, n)
        else:
            self.effect('yield', st, value=v, node=n)

    def e_YieldFrom(self, n, st):
        v = self.ev(n.value, st, want_gen=True)
        if v.op == 'gencall':
            f, args, kwargs, node = self.gencalls[v]
            hook = self.frames[-1].yield_hook

            def h(val, st2, nn):
                if hook is not None:
                    hook(val, st2, nn)
                else:
                    self.effect('yield', st2, value=val, node=nn)
            self.inline_call(f, args, kwargs, st, node, hook=h)
            return NONE
        base, elemf = self.iter_info(v)
        k = sum(1 for l in self.loops if l.it is base)
        lp = Loop(base, elemf(k))
        self.loops.append(lp)
        self.do_yield(elemf(k), st, n)
        self.loops.pop()
        return NONE

    # comprehensions
    def comp(self, n, elts, kind, st):
        env = dict(st.env)
        inner = State(env, st.heap, st.cond)
        gens = []
        pushed = 0
        absguard = TRUE
        for g in n.generators:
            it = self.ev(g.iter, inner)
            c = self.comp_of(it)
            if c is not None and len(c[0]) == 1:
                base, elem, fg = c[0][0]
                el = c[1]
            else:
                base, elemf = self.iter_info(it)
                c2 = self.comp_of(base)
                if c2 is not None and len(c2[0]) == 1 and elemf(0).op == 'elem':
                    base, elem, fg = c2[0][0]
                    el = c2[1]
                else:
                    k = sum(1 for l in self.loops if l.it is base)
                    elem = elemf(k)
                    el, fg = elem, TRUE
            self.loops.append(Loop(base, elem))
            pushed += 1
            self.assign(g.target, el, inner, n)
            cg = fg
            inner.cond = And(inner.cond, fg)
            for c in g.ifs:
                x = self.cond(c, inner)
                inner.cond = And(inner.cond, x)
                cg = And(cg, x)
            gens.append((base, elem, cg))
        vals = [self.ev(e, inner) for e in elts]
        v = vals[0] if len(vals) == 1 else T('tuple', tuple(vals))
        t = self.new(kind, None, n, st)
        a = self.allocs[t]
        a.comp = (gens, v)
        a.loops = a.loops[:len(a.loops) - pushed]
        self.effect('emit', inner, target=t, value=v, node=n)
        for _ in range(pushed):
            self.loops.pop()
        st.heap[('ne', t)] = self.any_of(gens, TRUE)
        return t

    def mapped(self, name, fn, it, n, st):
        """map(f, it) and filter(f, it) as the comprehension they stand for"""
        inner = State(dict(st.env), st.heap, st.cond)
        c = self.comp_of(it)
        if c is None:
            base, elemf = self.iter_info(it)
            c2 = self.comp_of(base) if elemf(0).op == 'elem' else None
            if c2 is not None:
                c = c2
            else:
                elem = elemf(sum(1 for l in self.loops if l.it is base))
                c = [(base, elem, TRUE)], elem
        gens, el = list(c[0]), c[1]
        for base, elem, g in gens:
            self.loops.append(Loop(base, elem))
            inner.cond = And(inner.cond, g)
        v = el
        if name == 'map':
            v = self.call(fn, [el], {}, n, inner)
        else:
            g = self.truth(el if fn is NONE else self.call(fn, [el], {}, n, inner), inner)
            inner.cond = And(inner.cond, g)
            gens[-1] = (gens[-1][0], gens[-1][1], And(gens[-1][2], g))
        t = self.new('gen', None, n, st)
        self.allocs[t].comp = (gens, v)
        self.allocs[t].loops = self.allocs[t].loops[:len(self.loops) - len(gens)]
        self.effect('emit', inner, target=t, value=v, node=n)
        for _ in gens:
            self.loops.pop()
        st.heap[('ne', t)] = self.any_of(gens, TRUE)
        return t

    @staticmethod
    def depth_of(base, elem):
        for x in subterms(elem):
            if x.op in ('elem', 'index') and x.args[0] is base:
                return x.args[1]
        return 0

    def any_of(self, gens, g):
        for base, elem, cg in reversed(gens):
            k = 0
            for x in subterms(elem):
                if x.op in ('elem', 'index') and x.args[0] is base:
                    k = x.args[1]
            deps = {T('elem', base, k), T('index', base, k)}
            g = make_any(base, k, lambda a, d=deps: bool(subterms(a) & d), And(cg, g))
        return g

    def e_ListComp(self, n, st):
        g = n.generators[0]
        if len(n.generators) == 1 and not g.ifs and isinstance(g.target, ast.Name) and isinstance(g.iter, (ast.Tuple, ast.List)) and \
                1 <= len(g.iter.elts) <= 4 and all(isinstance(x, ast.Constant) for x in g.iter.elts) and \
                not any(isinstance(x, (ast.Lambda, ast.NamedExpr, ast.GeneratorExp, ast.ListComp)) for x in ast.walk(n.elt)):
            # written out
            made = self.__dict__.setdefault('_written_out', {})
            if id(n) not in made:
                elts = []
                for c in g.iter.elts:
                    e = _Put(g.target.id, c).visit(copy.deepcopy(n.elt))
                    elts.append(e)
                made[id(n)] = (n, ast.copy_location(ast.List(elts, ast.Load()), n))
            return self.ev(made[id(n)][1], st)
        return self.comp(n, [n.elt], 'list', st)

    def e_SetComp(self, n, st):
        return self.comp(n, [n.elt], 'set', st)

    def e_GeneratorExp(self, n, st):
        return self.comp(n, [n.elt], 'gen', st)

    def e_DictComp(self, n, st):
        return self.comp(n, [n.key, n.value], 'dict', st)

    # -- calls ---------------------------------------------------------------
    gencalls = None

    def known_len(self, t, cond):
        """the number of elements of t where cond holds"""
        base, elemf = self.iter_info(t)
        c = self.comp_of(base) if elemf(0).op == 'elem' else None
        if c is not None:
            if len(c[0]) != 1 or c[0][0][2] is not TRUE:
                return None
            base, elemf = c[0][0][0], lambda i: c[1]
        if elemf(0).op in ('index', 'tuple'):
            return None
        for a, pos in literals(cond):
            if pos and a.op == 'eq' and a.args[1].op == 'const' and self.is_len(a.args[0]) is base and isinstance(a.args[1].args[0], int):
                return [self.item(t, const(i)) for i in range(a.args[1].args[0])]
        return None

    def e_Call(self, n, st, alloc=False, want_gen=False):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and 'super' not in self.frames[-1].locals:
            return T('super', self.frames[-1].cls.qual if self.frames[-1].cls else '')
        fn = self.ev(n.func, st)
        if fn.op == 'attr' and fn.args[1] == 'copy' and fn.args[0].op == 'param' and not n.args and not n.keywords:
            kind = self.declared(fn.args[0].args[0])
            if kind is not None:
                call = ast.copy_location(ast.Call(func=n.func, args=[n.func.value], keywords=[]), n)
                return self.call(T('glob', 'builtins.' + kind), [fn.args[0]], {}, call, st, alloc, want_gen)
        args, kwargs = [], {}
        if fn.op == 'attr' and fn.args[1] in LOGGING_METHODS and self.is_logger(fn.args[0]):
            # what is only logged has no observable effect
            marks = len(self.calls_log), [len(c.calls) for c in self.trys]
            self.mute += 1
            for a in n.args:
                args.append(self.ev(a, st))
            self.mute -= 1
            del self.calls_log[marks[0]:]
            for c, k in zip(self.trys, marks[1]):
                del c.calls[k:]
            self.effect('log', st, term=T('call', fn, tuple(args), ()), node=n)
            return NONE
        for a in n.args:
            args.append(self.ev(a, st))
        for k in n.keywords:
            v = self.ev(k.value, st)
            if v.op == 'glob' and k.arg == 'key':
                v = self.as_closure(v)
            if k.arg is None:
                if v.op == 'dict' and all(x[0].op == 'const' for x in v.args[0]):
                    for kk, vv in v.args[0]:
                        kwargs[kk.args[0]] = vv
                elif v.op == 'new' and self.allocs[v].init is not None and self.allocs[v].kind == 'dict' \
                        and not self.allocs[v].mutated and all(x[0].op == 'const' for x in self.allocs[v].init):
                    for kk, vv in self.allocs[v].init:
                        kwargs[kk.args[0]] = vv
                else:
                    kwargs['**'] = v
            else:
                kwargs[k.arg] = v
        if any(a.op == 'star' for a in args):
            flat = []
            for a in args:
                x = a.args[0] if a.op == 'star' else None
                x = self.deref(x) if x is not None else None
                many = self.known_len(x, st.cond) if x is not None and x.op not in ('list', 'tuple') else None
                if x is not None and x.op in ('list', 'tuple'):
                    flat.extend(x.args[0])
                elif many is not None:
                    flat.extend(many)
                else:
                    flat.append(a)
            args = flat
        return self.call(fn, args, kwargs, n, st, alloc, want_gen)

    def as_closure(self, t):
        """a function of the module that the reference does not have, as what it computes"""
        f = self.p.functions.get(t.args[0])
        if f is None or f.qual in inventory() or f.cls is not None or f.is_generator:
            return t
        c = T('closure', (f.qual,))
        if c not in self.closures:
            fr = Frame(f, f.module, None)
            self._prepare(fr, f.node)
            self.closures[c] = (f.node, fr, {})
        return c

    def declared(self, name):
        """the kind of container a parameter of the current function is declared to be"""
        f = self.frames[-1].func
        if f is None:
            return None
        a = f.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            if x.arg == name and x.annotation is not None:
                t = x.annotation.value if isinstance(x.annotation, ast.Subscript) else x.annotation
                return {'Set': 'set', 'set': 'set', 'List': 'list', 'list': 'list', 'Dict': 'dict', 'dict': 'dict'}.get(
                    t.id if isinstance(t, ast.Name) else getattr(t, 'attr', None))
        return None

    def resolve(self, fn):
        """callee term -> (Func, receiver or None) | (Cls, None) | None"""
        if fn.op == 'glob':
            q = fn.args[0]
            if q in self.p.functions:
                f = self.p.functions[q]
                return f, None
            if q in self.p.classes:
                return self.p.classes[q], None
            return None
        if fn.op == 'attr':
            b, name = fn.args
            if b.op == 'super':
                mro = self.p.mro(b.args[0])[1:]
                for q in mro:
                    c = self.p.classes.get(q)
                    if c and name in c.methods:
                        return c.methods[name], T('self')
                return None
            ty = self.typeof(b)
            if ty is None and b is T('self') and self.frames[-1].cls is not None:
                ty = self.frames[-1].cls.qual
            if ty:
                f = self.p.lookup_method(ty, name)
                if f is not None:
                    # dynamic dispatch: only when no subclass overrides it, or the receiver is exact
                    return f, b
            cands = self.p.by_name.get(name, [])
            if len(cands) == 1 and cands[0].cls is not None and cands[0].qual not in inventory():
                return cands[0], b
        return None

    def should_inline_len(self, f):
        return f.qual not in self.stack and len(self.stack) < self.MAX_DEPTH

    def should_inline(self, f):
        if f.qual in self.no_inline:
            return False
        if f.qual in self.stack or len(self.stack) >= self.MAX_DEPTH:
            return False
        if f.is_abstract:
            return False
        if f.qual in self.inline_set:
            return True
        if self.inline_pred is not None and self.inline_pred(f):
            return True
        return f.qual not in inventory()

    def call(self, fn, args, kwargs, n, st, alloc=False, want_gen=False):
        # ite of callees: distribute is not attempted; treat as opaque callee
        if fn.op == 'closure':
            node, cfr, env = self.closures[fn]
            return self.inline_closure(fn, args, kwargs, st, n)
        if fn.op == 'ite' and len(cases_of(fn)) <= 13 and all(is_function(v) or v in (NONE, MISSING) or v.op == 'sub' for v, g in cases_of(fn)):
            return self.dispatch(fn, args, kwargs, n, st, alloc, want_gen)
        if fn.op == 'attr' and fn.args[1] == 'get' and len(args) in (1, 2) and not kwargs:
            items = self.table_of(fn.args[0])
            if items:
                return self.lookup(items, args[0], args[1] if len(args) == 2 else NONE)
        if is_partial(fn):
            return self.call(fn.args[1][0], list(fn.args[1][1:]) + list(args), {**dict(fn.args[2]), **kwargs}, n, st, alloc, want_gen)
        if fn.op == 'glob':
            q = fn.args[0]
            r = self.builtin(q, fn, args, kwargs, n, st, alloc)
            if r is not None:
                return r
        if fn.op == 'attr' and fn.args[1] in LOGGING_METHODS and self.is_logger(fn.args[0]):
            self.effect('log', st, term=T('call', fn, tuple(args), ()), node=n)
            return NONE
        if fn.op == 'attr' and fn.args[1] == 'format' and fn.args[0].op == 'const' and isinstance(fn.args[0].args[0], str):
            parts = self.str_format(fn.args[0].args[0], args, kwargs)
            if parts is not None:
                return fmt(parts)
        if fn.op == 'attr' and fn.args[1] == 'format' and fn.args[0].op == 'fmt':
            pass
        if fn.op == 'attr' and fn.args[1] == 'setdefault' and len(args) == 2 and not kwargs and fn.args[0].op != 'glob':
            return self.setdefault(fn.args[0], args[0], args[1], n, st)
        if fn.op == 'attr' and fn.args[0].op == 'new' and fn.args[0].args[0] == 'text':
            if fn.args[1] == 'getvalue' and not args and self.allocs[fn.args[0]].mutated:
                return T('call', T('attr', const(''), 'join'), (fn.args[0],), ())
            if fn.args[1] == 'write' and len(args) == 1:
                self.effect('emit', st, target=fn.args[0], value=args[0], node=n)
                self.mutate(fn.args[0], st)
                return T('call', fn, tuple(args), ())
        if fn.op == 'attr' and fn.args[0].op == 'const' and isinstance(fn.args[0].args[0], str) and not kwargs and \
                fn.args[1] in ('replace', 'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'title', 'capitalize') and \
                all(a.op == 'const' and isinstance(a.args[0], str) for a in args):
            try:
                return const(getattr(fn.args[0].args[0], fn.args[1])(*[a.args[0] for a in args]))
            except Exception:
                pass
        if fn.op == 'attr' and fn.args[1] in ('strip', 'lower', 'upper') and not args and not kwargs and fn.args[0].op == 'call' and \
                fn.args[0].args[0].op == 'attr' and fn.args[0].args[0].args[1] == fn.args[1] and not fn.args[0].args[1]:
            return fn.args[0]       # once is enough
        if fn.op == 'attr' and fn.args[1] == 'isdisjoint' and len(args) == 1 and not kwargs:
            return boolean(Not(truth(T('bin', 'BitAnd', fn.args[0], args[0]))))
        if fn.op == 'attr' and fn.args[1] in ('issubset', 'issuperset') and len(args) == 1 and not kwargs:
            a, b = (fn.args[0], args[0]) if fn.args[1] == 'issubset' else (args[0], fn.args[0])
            base, elemf = self.iter_info(a)
            k = sum(1 for l in self.loops if l.it is base)
            e = elemf(k)
            return boolean(Not(make_any(base, k, lambda x: e in subterms(x), Not(self.in_(e, b)))))
        r = self.resolve(fn)
        if r is not None and not hasattr(r[0], 'methods'):
            f, recv = r
            if self.should_inline(f) and not has_unknown_star(args, kwargs):
                a = list(args)
                if f.cls is not None and not f.is_static:
                    if f.is_classmethod:
                        a = [T('glob', f.cls.qual)] + a
                    elif recv is not None:
                        a = [recv] + a
                if f.is_generator:
                    t = T('gencall', f.qual, tuple(a), (n.lineno, n.col_offset, self.site_ctx))
                    if want_gen:
                        self.gencalls[t] = (f, a, kwargs, n)
                        return t
                    return self.collect_generator(f, a, kwargs, st, n)
                return self.inline_call(f, a, kwargs, st, n)
        if r is not None and not hasattr(r[0], 'methods'):
            self.called.add(r[0].qual)
        term = self.call_term(fn, args, kwargs, r)
        self.record_call(term, fn, args, kwargs, n, st)
        if r is not None and not hasattr(r[0], 'methods') and all(returns_bool(f) for f in ([r[0]] if r[0].cls is None else self.p.by_name.get(r[0].name, [r[0]]))):
            return boolean(truth(term))
        return term

    def table_of(self, d):
        """the entries of a literal table of functions"""
        items = None
        if d.op == 'dict':
            items = d.args[0]
        elif d.op == 'new':
            al = self.allocs.get(d)
            if al is not None and not al.mutated and al.comp is None and al.kind == 'dict':
                items = al.init
        if not items or len(items) > 12 or any(k.op not in ('const', 'glob') for k, _ in items) or \
                not all(is_function(v) for _, v in items):
            return None
        return items

    def lookup(self, items, key, out):
        for k, v in reversed(items):
            out = tite(self.eq(key, k), v, out)
        return out

    def dispatch(self, fn, args, kwargs, n, st, alloc, want_gen):
        saved, out = st.cond, MISSING
        for v, g in cases_of(fn):
            st.cond = And(saved, g)
            if st.cond is FALSE or not is_function(v):
                continue
            out = tite(g, self.call(v, args, kwargs, n, st, alloc, want_gen), out)
        st.cond = saved
        return out

    def setdefault(self, d, k, v, n, st):
        """stores the default where the key is missing; afterwards the entry is what the dictionary holds"""
        have = self.in_(k, d)
        inner = State(st.env, st.heap, And(st.cond, Not(have)))
        cell = sub(d, k)
        if inner.cond is not FALSE:
            self.effect('store_sub', inner, target=T('sub', d, k), value=v, node=n)
            if d.op == 'new':
                self.mutate(d, st)
                st.heap[('ne', d)] = TRUE
        v = tite(have, cell, v)
        self.cells[v] = T('sub', d, k)
        return v

    def collect_generator(self, f, a, kwargs, st, n):
        t = self.new('gen', [], n, st)
        self.allocs[t].mutated = True
        key = ('ne', t)
        st.heap[key] = FALSE

        def hook(v, st2, nn):
            self.effect('emit', st2, target=t, value=v, node=nn)
            st2.heap[key] = TRUE
        self.inline_call(f, a, kwargs, st, n, hook=hook)
        return t

    def is_logger(self, t):
        if t.op == 'glob':
            v = self.global_value(t.args[0])
            return v is not None and isinstance(v, ast.Call) and getattr(v.func, 'attr', getattr(v.func, 'id', '')) == 'getLogger' \
                or t.args[0] == 'logging'
        if t.op == 'call':
            return t.args[0].op == 'glob' and t.args[0].args[0].endswith('getLogger')
        return False

    def str_format(self, s, args, kwargs):
        import string
        parts, auto = [], 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(s):
                parts.append(const(lit))
                if field is None:
                    continue
                if field == '':
                    x = args[auto]
                    auto += 1
                elif field.isdigit():
                    x = args[int(field)]
                elif field in kwargs:
                    x = kwargs[field]
                else:
                    return None
                parts.append(formatted(x, const(spec), conv or ''))
        except (ValueError, IndexError):
            return None
        return parts

    def call_term(self, fn, args, kwargs, r):
        f = None
        if r is not None:
            if hasattr(r[0], 'methods'):
                f = self.p.lookup_method(r[0].qual, '__init__')
            else:
                f = r[0]
        elif fn.op == 'attr':
            cands = [c for c in self.p.by_name.get(fn.args[1], []) if c.cls is not None]
            if cands and all(c.params == cands[0].params for c in cands):
                f = cands[0]
        if f is not None and not any(a.op == 'star' for a in args) and '**' not in kwargs:
            params = list(f.params)
            if f.cls is not None and not f.is_static:
                params = params[1:]
            if len(args) <= len(params):
                kw = dict(kwargs)
                for p, a in zip(params, args):
                    kw.setdefault(p, a)
                order = {p: i for i, p in enumerate(params + f.kwonly)}
                # drop arguments spelled with their default value
                for p in list(kw):
                    d = f.defaults.get(p)
                    if isinstance(d, ast.Constant) and kw[p].op == 'const' and kw[p] is const(d.value):
                        del kw[p]
                return T('call', fn, (), tuple(sorted(kw.items(), key=lambda x: (order.get(x[0], 999), x[0]))))
        return T('call', fn, tuple(args), tuple(sorted(kwargs.items())))

    def record_call(self, term, fn, args, kwargs, n, st):
        if fn.op == 'attr' and fn.args[0] in self.cells:
            fn = T('attr', self.cells[fn.args[0]], fn.args[1])
            term = T('call', fn, *term.args[1:])
        e = self.effect('call', st, term=term, node=n)
        self.calls_log.append(term)
        for c in self.trys:
            c.calls.append(term)
        if fn.op == 'attr':
            b, name = fn.args
            if name in ADDERS and len(args) == 1:
                self.effect('emit', st, target=b, value=args[0], node=n, extra={'by': name})
                if b.op == 'new':
                    self.mutate(b, st)
                    st.heap[('ne', b)] = TRUE
            elif name == 'insert' and len(args) == 2:
                self.effect('emit', st, target=b, value=args[1], node=n, extra={'pos': args[0]})
                if b.op == 'new':
                    self.mutate(b, st)
                    st.heap[('ne', b)] = TRUE
            elif name in BULK_ADDERS and len(args) >= 1:
                for a in args:
                    self.effect('emit_all', st, target=b, value=a, node=n, extra={'by': name})
                if b.op == 'new':
                    self.mutate(b, st)
                    for a in args:
                        self._ne_or(b, st, self.truth(a, st))
            elif name in REMOVERS:
                if b.op == 'new':
                    self.mutate(b, st)
                    st.heap[('ne', b)] = atom(T('truthy_after', b, n.lineno))
            elif name == 'setdefault' and b.op == 'new':
                self.mutate(b, st)
                st.heap[('ne', b)] = TRUE
            elif name in OTHER_MUT and b.op == 'new':
                self.allocs[b].mutated = True
        return e

    def _ne_or(self, t, st, g):
        st.heap[('ne', t)] = Or(st.heap.get(('ne', t), FALSE), g)

    def mutate(self, t, st):
        self.allocs[t].mutated = True

    def builtin(self, q, fn, args, kwargs, n, st, alloc):
        name = q[9:] if q.startswith('builtins.') else None
        if name == 'isinstance' and len(args) == 2:
            return boolean(self.isinst(args[0], args[1]))
        if name in ('min', 'max') and len(args) == 1 and 'default' not in kwargs:
            t = args[0]
            al = self.allocs.get(t)
            if al is not None and not al.mutated and al.comp is None and al.init and al.kind == 'list':
                t = T('list', tuple(al.init))
            if t.op in ('tuple', 'list') and len(t.args[0]) > 1 and not any(i.op == 'star' for i in t.args[0]):
                args = list(t.args[0])
                if kwargs or len(args) != 2:
                    return T('call', fn, tuple(args), tuple(sorted(kwargs.items())))
        if name in ('min', 'max') and len(args) == 2 and not kwargs and not any(a.op == 'star' for a in args):
            a, b = sorted(args, key=lambda x: x.id)
            return tite(self.lt(a, b, st), *((a, b) if name == 'min' else (b, a)))
        if name == 'next' and len(args) == 2 and not kwargs:
            c = self.comp_of(args[0])
            if c is not None and len(c[0]) == 1:
                (base, elem, g), v = c[0][0], c[1]
                return tite(self.any_of(c[0], TRUE), T('first', base, self.depth_of(base, elem), g, v), args[1])
        if name == 'bool' and len(args) == 1:
            return boolean(self.truth(args[0], st))
        if name == 'len' and len(args) == 1 and not kwargs:
            ty = self.typeof(args[0])
            f = self.p.lookup_method(ty, '__len__') if ty else None
            if f is not None and trivial_len(f) and self.should_inline_len(f) and \
                    not any('__len__' in self.p.classes[c].methods for c in self.p.subclasses(ty) if c != f.cls.qual and c in self.p.classes):
                return self.inline_call(f, [args[0]], {}, st, n)
        if name in ('any', 'all') and len(args) == 1:
            t = args[0]
            c = self.comp_of(t)
            if c is not None:
                g = self.truth(c[1], st)
                if name == 'any':
                    return boolean(self.any_of(c[0], g))
                return boolean(Not(self.any_of(c[0], Not(g))))
            lit = self.deref(t)
            if lit.op in ('list', 'tuple', 'set') and not any(x.op == 'star' for x in lit.args[0]):
                gs = [self.truth(x, st) for x in lit.args[0]]
                return boolean(Or(*gs) if name == 'any' else And(*gs))
            base, elemf = self.iter_info(t)
            el = elemf(sum(1 for l in self.loops if l.it is base))
            g = self.truth(el, st)
            dep = lambda a: True
            if name == 'any':
                return boolean(make_any(base, 0, dep, g))
            return boolean(Not(make_any(base, 0, dep, Not(g))))
        if name in ('map', 'filter') and len(args) == 2 and not kwargs:
            return self.mapped(name, args[0], args[1], n, st)
        if q in ('operator.attrgetter', 'operator.itemgetter') and len(args) == 1 and args[0].op == 'const':
            src = 'lambda x: x.%s' % args[0].args[0] if q.endswith('attrgetter') else 'lambda x: x[%r]' % (args[0].args[0],)
            node = ast.parse(src, mode='eval').body
            for y in ast.walk(node):
                if hasattr(y, 'lineno'):
                    y.lineno, y.col_offset = n.lineno, n.col_offset
            return self.closure(node, st)
        if name == 'getattr' and len(args) >= 2 and args[1].op == 'const' and isinstance(args[1].args[0], str) and len(args) == 2:
            return self.attr(args[0], args[1].args[0], st, n)
        if name == 'setattr' and len(args) == 3 and args[1].op == 'const':
            self.effect('store_attr', st, target=T('attr', args[0], args[1].args[0]), value=args[2], node=n)
            return NONE
        if name == 'dict' and not args and kwargs and '**' not in kwargs:
            items = [(const(k), v) for k, v in kwargs.items()]
            if alloc:
                t = self.new('dict', items, n, st)
                st.heap[('ne', t)] = TRUE
                return t
            return T('dict', tuple(items))
        if q == 'io.StringIO' and not args and not kwargs and alloc:
            return self.new('text', [], n, st)
        if name in ('list', 'set', 'dict', 'tuple') and not args and not kwargs or \
                (q in ('collections.OrderedDict', 'collections.defaultdict', 'collections.deque') and alloc and len(args) <= 1
                 and (not args or q.endswith('defaultdict'))):
            if name == 'tuple':
                return T('tuple', ())
            if alloc:
                t = self.new({'OrderedDict': 'dict', 'defaultdict': 'dict', 'deque': 'list'}.get(q.split('.')[-1], name), [], n, st)
                if q.endswith('defaultdict') and args and args[0].op == 'glob':
                    self.allocs[t].default = {'builtins.list': 'list', 'builtins.set': 'set', 'builtins.dict': 'dict'}.get(args[0].args[0])
                st.heap[('ne', t)] = FALSE
                return t
            return T(name or 'dict', ())
        if name == 'str' and len(args) == 1 and is_str(args[0]):
            return args[0]
        if name in ('list', 'tuple', 'set', 'frozenset') and len(args) == 1 and name in ('list', 'tuple'):
            x = self.deref(args[0])
            if x.op in ('list', 'tuple') and not any(i.op == 'star' for i in x.args[0]):
                if alloc and name == 'list':
                    t = self.new('list', list(x.args[0]), n, st)
                    st.heap[('ne', t)] = truth(x)
                    return t
                return T(name, x.args[0])
        if name in ('list', 'set') and len(args) == 1 and alloc and self.comp_of(args[0]) is not None:
            t = self.new(name, None, n, st)
            self.allocs[t].comp = self.comp_of(args[0])
            st.heap[('ne', t)] = st.heap.get(('ne', args[0]), FALSE)
            c = self.allocs[t].comp
            for base, elem, g in c[0]:
                self.loops.append(Loop(base, elem))
            inner = st.fork(And(st.cond, *[g for _, _, g in c[0]]))
            self.effect('emit', inner, target=t, value=c[1], node=n)
            for _ in c[0]:
                self.loops.pop()
            return t
        if name in ('list', 'set', 'dict') and len(args) == 1 and not kwargs and alloc:
            # a copy that may be added to
            x = T('star', args[0])
            t = self.new(name, [(T('star', NONE), args[0]) if name == 'dict' else x], n, st)
            st.heap[('ne', t)] = self.truth(args[0], st)
            return t
        if name == 'super':
            return T('super', self.frames[-1].cls.qual if self.frames[-1].cls else '')
        return None

    def bind_params(self, f, args, kwargs):
        env = {}
        params = list(f.params)
        rest = []
        for i, a in enumerate(args):
            if i < len(params):
                env[params[i]] = a
            else:
                rest.append(a)
        for k, v in kwargs.items():
            if k in params or k in f.kwonly:
                env[k] = v
        if f.vararg:
            env[f.vararg] = T('tuple', tuple(rest))
        if f.kwarg:
            env[f.kwarg] = T('dict', tuple((const(k), v) for k, v in kwargs.items() if k not in params and k not in f.kwonly))
        return env

    def inline_call(self, f, args, kwargs, st, n, hook=None):
        env = self.bind_params(f, args, kwargs)
        fr = Frame(f, f.module, f.cls)
        self._prepare(fr, f.node)
        fr.yield_hook = hook
        self.inlined.add(f.qual)
        for p, d in f.defaults.items():
            if p not in env:
                fr2 = Frame(f, f.module, f.cls)
                self.frames.append(fr2)
                env[p] = self.ev(d, State({}, st.heap, st.cond))
                self.frames.pop()
        for p in f.params:
            env.setdefault(p, MISSING)
        if f.cls is not None and f.params and not f.is_static and not f.is_classmethod:
            r = env.get(f.params[0])
            if r is not None and r not in self.types:
                self.types[r] = f.cls.qual
        for p in f.params:
            if env.get(p) is not None and env[p].op in ('param', 'elem', 'attr', 'call') and env[p] not in self.types:
                self._annotate(f, p, env[p])
        return self._inline_body(f.node, fr, env, st, n, f.qual)

    def inline_closure(self, t, args, kwargs, st, n):
        node, cfr, cenv = self.closures[t]
        key = 'closure:%s' % (t.args[0],)
        if key in self.stack or len(self.stack) >= self.MAX_DEPTH:
            term = T('call', t, tuple(args), tuple(sorted(kwargs.items())))
            self.effect('call', st, term=term, node=n)
            return term
        fr = Frame(cfr.func, cfr.module, cfr.cls)
        self._prepare(fr, node)
        # free variables: the current value in the defining frame when it is the caller, else the captured one
        cur = st.env if self.frames[-1] is cfr else cenv
        fr.closure_env = dict(cenv)
        fr.closure_env.update(cur)
        if cfr.closure_env:
            for k, v in cfr.closure_env.items():
                fr.closure_env.setdefault(k, v)
        env = {}
        a = node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        for p, d in zip(reversed(params), reversed(a.defaults)):
            env[p] = self.ev(d, st)
        for p, v in zip(params, args):
            env[p] = v
        if a.vararg:
            env[a.vararg.arg] = T('tuple', tuple(args[len(params):]))
        for k, v in kwargs.items():
            env[k] = v
        if isinstance(node, ast.Lambda):
            self.frames.append(fr)
            self.stack.append(key)
            v = self.ev(node.body, State(env, st.heap, st.cond))
            self.stack.pop()
            self.frames.pop()
            return v
        return self._inline_body(node, fr, env, st, n, key)

    def _inline_body(self, node, fr, env, st, n, key):
        self.frames.append(fr)
        self.stack.append(key)
        saved_loops, self.loop_stack = self.loop_stack, []
        saved_ctx = self.site_ctx
        self.site_ctx = self.site_ctx + ((n.lineno, n.col_offset) if n is not None else (0, 0),)
        inner = State(env, st.heap, st.cond)
        end = self.block(node.body, inner)
        self.site_ctx = saved_ctx
        self.loop_stack = saved_loops
        self.stack.pop()
        self.frames.pop()
        rets = list(fr.returns)
        if end is not None and end.cond is not FALSE:
            rets.append((end, NONE))
        if not rets:
            st.cond = FALSE
            return MISSING
        # merge
        cur_s, cur_v = rets[-1]
        cond, heap, val = cur_s.cond, cur_s.heap, cur_v
        for s2, v2 in reversed(rets[:-1]):
            c = Or(s2.cond, cond)
            d = constrain(s2.cond, c)
            if d is TRUE and cond is not FALSE:
                d = atom(T('choice', T('guard', s2.cond), T('guard', cond)))
            val = tite(d, v2, val)
            nh = {}
            for k in s2.heap.keys() | heap.keys():
                x, y = s2.heap.get(k), heap.get(k)
                nh[k] = (x if y is None else y) if (x is None or y is None) else (x if x is y else ite(d, x, y))
            cond, heap = c, nh
        st.cond = cond
        heap = dict(heap)
        st.heap.clear()
        st.heap.update(heap)
        return val

    def splice_generator(self, it, s, st):
        """for x in helper(): body  --  run the helper with its yields replaced by the body."""
        f, args, kwargs, node = self.gencalls[it]
        lp = Loop(None, None)
        caller = self.frames[-1]
        cst = st
        carried = {'env': st.env}
        names = assigned_names(s.body)
        broke = []

        def hook(v, gst, nn):
            body_st = State(dict(st.env), gst.heap, gst.cond)
            for nme in names:
                if nme in st.env:
                    body_st.env[nme] = T('loopvar', (s.lineno, s.col_offset), 0, nme, st.env[nme])
            gframes = []
            while self.frames[-1] is not caller:
                gframes.append(self.frames.pop())
            saved = self.loop_stack
            self.loop_stack = [lp]
            self.assign(s.target, v, body_st, s)
            r = self.block(s.body, body_st)
            for x in lp.continues:
                r = join(r, x)
            lp.continues = []
            for x in lp.breaks:
                r = join(r, x)
            lp.breaks = []
            self.loop_stack = saved
            while gframes:
                self.frames.append(gframes.pop())
            carried['last'] = r
        pre = st.fork()
        self.inline_call(f, args, kwargs, st, node, hook=hook)
        st.env = pre.env
        r = carried.get('last')
        if r is not None:
            for nme in names:
                if nme in r.env:
                    st.env[nme] = T('fold', T('gen', f.qual), 0, pre.env.get(nme, MISSING), r.env[nme])
        st.cond = pre.cond
        if s.orelse:
            st = self.block(s.orelse, st)
        return st


Analyzer.loop_stack = property(lambda self: self.__dict__.setdefault('_ls', []),
                               lambda self, v: self.__dict__.__setitem__('_ls', v))
Analyzer.calls_log = property(lambda self: self.__dict__.setdefault('_cl', []))
Analyzer.gencalls = property(lambda self: self.__dict__.setdefault('_gc', {}))


def s_iter_fallback(x):
    return None, None


def trivial_len(f):
    """__len__ that is the len of something else"""
    body = [b for b in f.node.body if not (isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant))]
    return len(body) == 1 and isinstance(body[0], ast.Return) and isinstance(body[0].value, ast.Call) and \
        isinstance(body[0].value.func, ast.Name) and body[0].value.func.id == 'len'


def trivial_getter(f):
    body = [b for b in f.node.body if not (isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant))]
    return len(body) == 1 and isinstance(body[0], ast.Return) and isinstance(body[0].value, ast.Attribute) and \
        isinstance(body[0].value.value, ast.Name) and not f.is_abstract


def is_plain_const(t):
    return t.op == 'const'


def is_num(t):
    return t.op == 'const' and isinstance(t.args[0], (int, float)) or t.op == 'call' and t.args[0].op == 'glob' and \
        t.args[0].args[0] in ('builtins.len', 'builtins.int', 'builtins.sum') or t.op == 'bin' and all(is_num(a) for a in t.args[1:])


def is_boolish(t):
    return t.op == 'bool' or (t.op == 'const' and isinstance(t.args[0], bool))


def is_flag(t):
    return is_boolish(t) or (t.op == 'ite' and all(is_boolish(v) for _, v in leaves(t))) or \
        (t.op == 'loopvar' and is_flag(t.args[3]))


def contains_dep(v, dep):
    for x in subterms(v):
        if dep(x):
            return True
    return False


def has_unknown_star(args, kwargs):
    return any(a.op == 'star' for a in args) or '**' in kwargs


def _as_load(t):
    t2 = ast.parse(ast.unparse(t), mode='eval').body
    for x in ast.walk(t2):
        if hasattr(x, 'lineno'):
            x.lineno, x.col_offset = t.lineno, t.col_offset
    return t2


def walk_own(node):
    """Walk a function without descending into nested scopes."""
    body = node.body if isinstance(node.body, list) else [node.body]
    st = list(body)
    while st:
        n = st.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            # comprehension targets are not function locals; walrus inside is rare
            st.extend(g.iter for g in n.generators)
            continue
        st.extend(ast.iter_child_nodes(n))


def assigned_names(stmts):
    out = set()

    class Dummy:
        body = stmts
    for n in walk_own(Dummy):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
    return out


def hard_assigned(stmts):
    """Names rebound in stmts other than by augmented assignment."""
    out = set()

    class Dummy:
        body = stmts
    aug = {id(n.target) for n in walk_own(Dummy) if isinstance(n, ast.AugAssign)}
    for n in walk_own(Dummy):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and id(n) not in aug:
            out.add(n.id)
    return out


def target_names(t):
    if t is None:
        return set()
    return {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}


class Summary:
    def __init__(self, an, func, frame):
        self.an, self.func, self.frame = an, func, frame
        self.effects = an.effects
        self.allocs = an.allocs
        self.closures = an.closures

    def of(self, *kinds):
        return [e for e in self.effects if e.kind in kinds]

    def calls(self, pred):
        """call effects whose callee matches: name, or predicate on the call term"""
        out = []
        for e in self.effects:
            if e.kind == 'call':
                if callable(pred):
                    if pred(e.term):
                        out.append(e)
                elif callee_name(e.term) == pred:
                    out.append(e)
        return out

    @property
    def returns(self):
        return self.of('return')

    @property
    def raises(self):
        return self.of('raise')

    @property
    def yields(self):
        return self.of('yield')


def is_listy(t):
    return t.op in ('list', 'set', 'setop') or t.op == 'call' and t.args[0].op == 'glob' and \
        t.args[0].args[0] in ('builtins.list', 'builtins.set', 'builtins.sorted', 'builtins.frozenset')


def cases_of(t, g=TRUE):
    if t.op == 'ite':
        return cases_of(t.args[1], And(g, t.args[0])) + cases_of(t.args[2], And(g, Not(t.args[0])))
    return [(t, g)]


def is_function(t):
    return t.op in ('closure', 'attr') or is_partial(t)


def is_partial(t):
    return t.op == 'call' and t.args[0].op == 'glob' and t.args[0].args[0] == 'functools.partial' and len(t.args[1]) > 0


def callee_name(t):
    if t.op != 'call':
        return None
    fn = t.args[0]
    if fn.op == 'glob':
        return fn.args[0].rsplit('.', 1)[-1]
    if fn.op == 'attr':
        return fn.args[1]
    return None


def receiver(t):
    return t.args[0].args[0] if t.op == 'call' and t.args[0].op == 'attr' else None


def arg(t, name, idx=None, default=None):
    """argument of a call term by keyword or position"""
    for k, v in t.args[2]:
        if k == name:
            return v
    if idx is not None and idx < len(t.args[1]):
        return t.args[1][idx]
    return default
