"""Conformance of a function's summary to a reference specification.

A reference (specs/*.py, parsed and never executed) states, for one function, under which condition
each observable effect happens: what is returned, raised, yielded, stored, and which collaborators
are called with what.  The function of the current tree and its reference are summarised by the same
dataflow analysis and compared as sets of guarded items, so the two may be written differently.
"""
import ast
import os
import signal
import threading
from contextlib import contextmanager
from types import SimpleNamespace

from . import order, records
from .project import AnalysisBroken, Func, Module
from .interp import Analyzer, callee_name, receiver
from .terms import *
from .terms import _vars
from . import terms as TM
from .canon import Canon, imprecise, any_guard, strip_seq, has_hole, elements, is_list, unfold

SPECS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'specs')
PURE_CALLS = {'len', 'sorted', 'str', 'repr', 'int', 'isinstance', 'getattr', 'hasattr', 'list', 'tuple', 'set', 'dict',
              'min', 'max', 'sum', 'format', 'join', 'range', 'enumerate', 'zip', 'id', 'type', 'bool', 'get', 'keys',
              'items', 'values', 'copy', 'deepcopy', 'hash', 'iter'}


def spec_library(project):
    lib = getattr(project, '_speclib', None)
    if lib is not None:
        return lib
    lib, consts, bases, attrs = {}, {}, {}, {}
    for n in sorted(os.listdir(SPECS)):
        if not n.endswith('.py'):
            continue
        src = open(os.path.join(SPECS, n), encoding='utf-8').read()
        tree = records.split(ast.parse(src))
        mname = n[:-3].replace('__', '.')
        impl = project.modules.get(mname)
        m = Module(mname, os.path.join(SPECS, n), 'specs/' + n, tree, src)
        if impl is not None:
            m.functions, m.classes, m.assigns, m.is_pkg = impl.functions, impl.classes, impl.assigns, impl.is_pkg
            m.imports = {}
        for node in tree.body:
            if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
                consts[mname + '.' + node.targets[0].id] = node.value
                if impl is not None and node.targets[0].id not in impl.assigns:
                    impl.assigns[node.targets[0].id] = [node.value]
        for node in ast.walk(tree):
            if isinstance(node, ast.ImportFrom):
                for a in node.names:
                    m.imports.setdefault(a.asname or a.name, (node.module or '') + '.' + a.name)
            elif isinstance(node, ast.Import):
                for a in node.names:
                    m.imports.setdefault(a.asname or a.name.split('.')[0], a.name if a.asname else a.name.split('.')[0])

        if impl is not None:
            for a, b in impl.imports.items():
                m.imports.setdefault(a, b)

        def scope(body, prefix, cls, clsq):
            for node in body:
                if isinstance(node, (ast.FunctionDef,)):
                    q = prefix + '.' + node.name
                    f = Func(q, node, m, cls)
                    if clsq is not None and cls is None:
                        f.orphan = True
                    if f.is_setter:
                        f.qual = q = q + '.setter'
                    f.is_spec = True
                    lib[q] = f
                elif isinstance(node, ast.ClassDef):
                    cq = prefix + '.' + node.name
                    bases[cq] = (m, [b for b in node.bases])
                    attrs[cq] = {t.id: s.value for s in node.body if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None
                                 for t in (s.targets if isinstance(s, ast.Assign) else [s.target]) if isinstance(t, ast.Name)}
                    scope(node.body, cq, project.classes.get(cq), cq)
        scope(tree.body, mname, None, None)
    # functions the tree no longer has are known through their reference
    missing = set()
    for q, f in lib.items():
        if q not in project.functions:
            missing.add(q)
            project.functions[q] = f
            if f.cls is not None:
                (f.cls.setters if f.is_setter else f.cls.methods).setdefault(f.name, f)
            elif f.module.name in project.modules:
                project.modules[f.module.name].functions.setdefault(f.name, f)
            project.by_name.setdefault(f.name, []).append(f)
    project._speclib = lib
    project._spec_assigns, project._spec_bases, project._spec_attrs = consts, bases, attrs
    project._missing = missing
    return lib


class Item:
    __slots__ = ('key', 'cond', 'loc', 'kind', 'imp', 'twice', 'order', 'channel')

    def __init__(self, kind, key, cond, loc):
        self.kind, self.key, self.cond, self.loc = kind, key, cond, loc
        self.twice = FALSE      # when it happens at least twice
        self.order = self.channel = None    # its place among the effects of a channel where order counts

    def show(self):
        return '%s %s' % (self.kind, ' '.join(pretty(x) if not isinstance(x, str) else x for x in self.key))


def absolute(cn, loops, g):
    for it, el in reversed(loops):
        if it is None:
            continue
        k = 0
        for x in subterms(el):
            if x.op in ('elem', 'index') and x.args[0] is it:
                k = x.args[1]
        g = any_guard(cn.t(it), k, g)
    return g


def exc_name(t):
    if t.op == 'call':
        t = t.args[0]
    if t.op == 'glob':
        return t.args[0]
    if t.op == 'reraise' or t.op == 'exc':
        return 'reraise'
    return pretty(t)


def listlike(t):
    return is_list(t) or t.op in ('list', 'tuple')


def is_local(cn, t):
    return t is not None and t.op == 'new'


def items_of(an_summary, opts):
    """Observable items of a summary."""
    cn = Canon(an_summary)
    kinds = opts.kinds
    raw = Raw()
    if 'return' in kinds:
        for st, v in an_summary.frame.returns:
            for val, g in cn.split(cn.t(v), cn.g(st.cond)):
                if opts.truth:
                    from .canon import truth_c
                    tv = truth_c(val)
                    raw.append(('return', (const(True),), And(g, tv), None))
                    raw.append(('return', (const(False),), And(g, Not(tv)), None))
                else:
                    raw.append(('return', (val,), g, None))
    for e in an_summary.effects:
        k = e.kind
        if k not in kinds or k == 'return':
            continue
        raw.order, raw.channel = e.order, None
        if k == 'raise':
            if e.caught:
                continue
            args = []
            if e.term.op == 'call' and opts.exc_args:
                for a in list(e.term.args[1]) + [v for _, v in e.term.args[2]]:
                    a = cn.t(a)
                    if a.op == 'fmt' or a.op == 'const' and isinstance(a.args[0], str) or a.op == 'bin':
                        continue
                    args.append(a if not e.loops else T('arg'))
            raw.append(('raise', (exc_name(e.term),) + tuple(args), absolute(cn, e.loops, cn.when(e)), e.loc))
            continue
        loops = cn.loops(e)
        if k == 'call' and callee_name(e.term) == 'pop' and not e.term.args[2] and is_stmt(e) and not is_local(cn, receiver(e.term)) and (
                len(e.term.args[1]) == 2 or len(e.term.args[1]) == 1 and not (e.term.args[1][0].op == 'const' and
                                                                            isinstance(e.term.args[1][0].args[0], int))):
            # d.pop(k) standing alone is del d[k]
            g = cn.when(e)
            d, kx = cn.t(receiver(e.term)), cn.t(e.term.args[1][0])
            if len(e.term.args[1]) == 2:
                g = And(g, cn.in_(kx, d))
            for v, g2 in cn.split(T('pair', (d, kx)), g):
                raw.append(('del_sub', (v.args[0][0], v.args[0][1], '') + loops, g2, e.loc))
            continue
        if k == 'call':
            name = callee_name(e.term)
            if not opts.want_call(e, name):
                continue
            r = receiver(e.term)
            if is_local(cn, r) and name not in opts.calls:
                continue
            if name in ('write', 'writelines') and r is not None:
                raw.channel = ('write', cn.t(r))
            for v, g in cn.split(cn.t(e.term), cn.when(e)):
                if callee_name(v) == 'difference_update' and v.args[0].op == 'attr' and len(v.args[1]) == 1 and not v.args[2] and not has_hole(v):
                    for x, h, ls in elements(v.args[1][0], g, loops, False):
                        raw.append(('call', (T('call', T('attr', v.args[0].args[0], 'discard'), (x,), ()),) + ls, h, e.loc))
                    continue
                raw.append(('call', (v,) + loops, g, e.loc))
        elif k == 'yield':
            raw.channel = ('yield',)
            for v, g in cn.split(cn.t(e.value), cn.when(e)):
                raw.append(('yield', (v,) + loops, g, e.loc))
        elif k in ('store_attr', 'store_sub', 'aug', 'del_sub', 'del_attr', 'emit', 'emit_all', 'global_store'):
            base = e.target
            if k in ('store_sub', 'aug') and base.op == 'sub':
                base = base.args[0]
            if is_local(cn, base):
                continue
            if k in ('store_attr',) and is_local(cn, base.args[0]):
                continue
            if k == 'emit' or k == 'emit_all':
                # seen as a call as well: x.append(v), x.add(v), x.update(v)
                pass
            if not opts.want_target(e):
                continue
            if k == 'emit' and e.extra.get('by') == 'append' or k == 'emit_all' and e.extra.get('by') == 'extend':
                raw.channel = ('emit', cn.t(e.target))
            tv = T('pair', (cn.t(e.target), cn.t(e.value) if e.value is not None else NONE))
            for v, g in cn.split(tv, cn.when(e)):
                tgt, val = v.args[0]
                if tgt is val and k in ('store_attr', 'store_sub'):
                    continue
                if (k == 'emit_all' or k == 'aug' and e.extra.get('op') == 'Add' and listlike(val)) and not has_hole(val):
                    # put in one by one
                    upd = k == 'emit_all' and e.extra.get('by') == 'update'
                    if upd and val.op == 'cnew' and val.args[0] == 'dict':
                        if len(val.args) == 2 and all(i.args[0].op == 'put' for i in val.args[1]):
                            for i in val.args[1]:
                                raw.append(('store_sub', (T('sub', tgt, i.args[0].args[0]), i.args[0].args[1], '') + loops + i.args[2],
                                            And(g, i.args[1].args[0]), e.loc))
                            continue
                        raw.append((k, (tgt, val, '') + loops, g, e.loc))
                        continue
                    for x, h, ls in elements(val, g, loops, not upd):
                        for x2, h2 in cn.split(x, h):
                            raw.append(('emit', (tgt, x2, '') + ls, h2, e.loc))
                    continue
                raw.append((k, (tgt, val, e.extra.get('op', '') if k == 'aug' else '') + loops, g, e.loc))
    out = {}
    flat = []
    for (kind, key, cond, loc), order, channel in raw:
        w = HEAD.get(kind, 1)
        if len(key) > w and kind not in ('raise', 'return'):
            flat += [(kind, v + l, g, loc, order, channel) for v, g, l in unfold(key[:w], cond, key[w:])]
        else:
            flat.append((kind, key, cond, loc, order, channel))
    for i, (kind, key, cond, loc, order, channel) in enumerate(flat):
        if cond is FALSE:
            continue
        kk = (kind,) + key
        if kk in out:
            if And(out[kk].cond, cond) is not FALSE or out[kk].channel != channel:
                out[kk].channel = None
            elif out[kk].channel:
                out[kk].order.append(((order, i), cond))
            if kind in REPEATABLE or kind == 'emit' and channel:
                out[kk].twice = Or(out[kk].twice, And(out[kk].cond, cond))
            out[kk].cond = Or(out[kk].cond, cond)
        else:
            it = out[kk] = Item(kind, key, cond, loc)
            it.order, it.channel = [((order, i), cond)], channel
    return out, cn


class Raw(list):
    order = -1
    channel = None

    def append(self, x):
        list.append(self, (x, self.order, self.channel))


def out_of_order(a, b):
    """when a precedes b, or None where both can be said"""
    before = after = FALSE
    for o, g in a.order:
        for p, h in b.order:
            if o < p:
                before = Or(before, And(g, h))
            else:
                after = Or(after, And(g, h))
    return before, after


HEAD = dict.fromkeys(('store_attr', 'store_sub', 'aug', 'del_sub', 'del_attr', 'emit', 'emit_all', 'global_store'), 3)
DEFAULT = ('return', 'raise', 'yield', 'store_attr', 'store_sub', 'aug', 'del_sub', 'del_attr', 'emit', 'emit_all',
           'global_store', 'call')


REPEATABLE = ('call', 'yield', 'aug')


class Opts:
    def __init__(self, kinds=DEFAULT, calls=(), no_calls=(), targets=None, truth=False, exc_args=True, stmt_calls=True):
        self.kinds, self.calls, self.targets, self.truth, self.exc_args = set(kinds), set(calls), targets, truth, exc_args
        self.no_calls = set(no_calls)
        self.stmt_calls = stmt_calls

    def want_call(self, e, name):
        if name in self.no_calls:
            return False
        if name in self.calls:
            return True
        if self.stmt_calls and name is None and e.term.op == 'call' and e.term.args[0].op == 'closure':
            return is_stmt(e)       # a nested function that calls itself
        if not self.stmt_calls or name is None:
            return False
        if name in ('append', 'add', 'extend', 'update', 'appendleft', 'union_update'):
            return False        # emit effects
        if name in PURE_CALLS:
            return False
        fn = e.term.args[0] if e.term.op == 'call' else None
        if fn is not None and (fn.op == 'glob' and fn.args[0].startswith('logging.') or
                               fn.op == 'attr' and fn.args[0].op == 'glob' and fn.args[0].args[0] == 'logging'):
            return False
        return is_stmt(e)

    def want_target(self, e):
        if self.targets is None:
            return True
        names = {t.args[1] for t in subterms(e.target) if t.op == 'attr'}
        return bool(names & set(self.targets))


def is_stmt(e):
    """the call stands alone as a statement"""
    f = e.func
    if f is None:
        return False
    ids = getattr(f, '_stmt_calls', None)
    if ids is None:
        ids = f._stmt_calls = {id(n.value) for n in ast.walk(f.node) if isinstance(n, ast.Expr)} | only_logged(f.node) | tables(f.node)
    return id(e.node) in ids


def tables(fn):
    """calls that are the body of a function in a table, unless what they return is used"""
    tabs = {t.id: n.value for n in ast.walk(fn) if isinstance(n, ast.Assign) and isinstance(n.value, ast.Dict) for t in n.targets
            if isinstance(t, ast.Name)}
    got = {}
    for n in ast.walk(fn):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and of_table(n.value, tabs):
            got[n.targets[0].id] = of_table(n.value, tabs)
    alone = {id(n.value) for n in ast.walk(fn) if isinstance(n, ast.Expr)}
    used = {(of_table(n.func, tabs) if not isinstance(n.func, ast.Attribute) else None) or got.get(getattr(n.func, 'id', None)) for n in ast.walk(fn) if isinstance(n, ast.Call) and id(n) not in alone}
    return {id(v.body) for k, d in tabs.items() if k not in used for v in d.values if isinstance(v, ast.Lambda)}


def of_table(n, tabs):
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'get':
        n = n.func
    if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.value, ast.Name) and n.value.id in tabs and \
            (isinstance(n, ast.Subscript) or n.attr == 'get'):
        return n.value.id


LOGGERS = {'logger', 'logging', 'log', 'rule_logger'}


def only_logged(fn):
    """method calls whose result goes nowhere but into log messages"""
    made, shown = {}, set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Call) and \
                isinstance(n.value.func, ast.Attribute):
            made.setdefault(n.targets[0].id, []).append(n.value)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in LOGGERS:
            shown |= {id(x) for x in ast.walk(n)}
    if made:
        used = {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and id(n) not in shown}
    return {id(c) for name, calls in made.items() if name not in used for c in calls}


def _run(check, func, spec_func, inline, types, params=None, no_inline=(), pred=None):
    p = check.p
    lib = spec_library(p)
    an = Analyzer(p, inline=set(inline) | p._missing, no_inline=no_inline, entry_types=types, inline_all_private=pred)
    an.spec_side = getattr(func, 'is_spec', False)
    bind = None
    if params is not None and params != func.params:
        bind = {}
        for i, q in enumerate(func.params):
            if i == 0 and func.is_method:
                continue
            if i < len(params) and len(func.params) >= len(params):
                bind[q] = T('param', params[i])
            elif q in func.defaults and isinstance(func.defaults[q], ast.Constant):
                bind[q] = const(func.defaults[q].value)
    s = an.run(func, bind)
    return an, s


@contextmanager
def bounded():
    def stop(*_):
        raise TooBig('out of time')
    main = threading.current_thread() is threading.main_thread()
    if main:
        outer = signal.signal(signal.SIGALRM, stop)
        signal.setitimer(signal.ITIMER_REAL, 60)
    TM.allow(200000, 2000000)
    try:
        yield
    finally:
        TM.allow(float('inf'), float('inf'))
        if main:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, outer)


def conforms(check, rule, qual, *args, **opts):
    """One obligation per observable item of the reference (and per item it does not allow); a function that takes far more
    work than any function of the repository gets no verdict."""
    try:
        with bounded():
            return _conforms(check, rule, qual, *args, **opts)
    except (TooBig, MemoryError, RecursionError) as exc:
        check.notes.append('%s: no verdict (%s: %s)' % (qual, type(exc).__name__, exc))
        check.gave_up += 1
        return None


def _conforms(check, rule, qual, inline=(), types=None, key=None, no_inline=(), pred=None, strict_loops=True, **opts):
    p = check.p
    lib = spec_library(p)
    spec = lib.get(qual)
    if spec is None:
        raise AnalysisBroken('no reference for %s' % qual)
    if qual in p._missing:
        impl = inherited(p, spec)
        if impl is None:
            check.notes.append('%s is gone; judged through its callers' % qual)
            return
    elif qual.endswith('.setter'):
        impl = p.functions[qual]
    else:
        impl = p.func(qual)
    o = Opts(**opts)
    short = key or qual.replace('lgr.', '', 1)
    want, got, an_s, an_i, swaps = _both(check, spec, impl, inline, types, no_inline, pred, o)
    check.analysed(impl, an_i.inlined)
    # defaults of the parameters
    for q in spec.params + spec.kwonly:
        d1, d2 = spec.defaults.get(q), impl.defaults.get(q)
        if q in impl.params + impl.kwonly and d1 is not None:
            ok = d2 is not None and ast.dump(d1) == ast.dump(d2)
            if not ok:
                check.ob(rule, '%s:default:%s' % (short, q), False, impl.loc(), 'default of parameter %s changed to %s' % (
                    q, ast.unparse(d2) if d2 is not None else 'none'))
    # wrappers put around the function
    ds, di = ({ast.dump(d): ast.unparse(d) for d in f.node.decorator_list} for f in (spec, impl))
    for d, s in list(di.items()) + list(ds.items()):
        if (d in di) != (d in ds) and s.split('(')[0].rsplit('.', 1)[-1] not in PLAIN_DECORATORS:
            check.ob(rule, '%s:decorator:%s' % (short, s), False, impl.loc(), 'decorator %s %s' % (
                s, 'put on the function: it no longer runs on every call as written' if d in di else 'taken off the function'))
    oks, diffs = _compare(check, want, got)
    extra = set(inline)
    for _ in range(2):
        # the two reach their effects through different collaborators: look inside those
        alt = {q for q in an_s.called ^ an_i.called if q != spec.qual and q in p.functions} - extra
        if not diffs or not alt:
            break
        extra |= alt
        try:
            w2, g2, an_s, an_i, s2 = _both(check, spec, impl, extra, types, no_inline, pred, o)
            oks2, diffs2 = _compare(check, w2, g2)
        except TooBig:
            if distance(p, spec, impl)[1]:
                raise
            TM.allow(float('inf'), float('inf'))        # a call was only taken away: what is inside does not matter
            break
        if not diffs2:
            want, got, oks, diffs, swaps = w2, g2, oks2, diffs2, s2
    if not diffs:
        for what, g, loc in swaps():
            diffs.append((Item('order', (what,), g, None), None, Item('order', ('the code does otherwise',), g, loc)))
    for w, h in oks:
        check.ob(rule, '%s:%s' % (short, label(w)), True, h.loc or impl.loc())
    # what the analysis cannot see through in the code but can in the reference gives no verdict
    imp_spec = set()
    for k in want.values():
        imp_spec |= item_imprecise(k)
    if not diffs:
        return True
    imp_got = set()
    for x in got.values():
        imp_got |= item_imprecise(x)
    new = imp_got - imp_spec
    if new:
        check.notes.append('%s: no verdict on %d items (constructs outside the analysis: %s)' % (short, len(diffs), sorted(new)))
        return None
    far = restructured(p, spec, impl)
    if far:
        check.notes.append('%s: no verdict on %d items (%s)' % (short, len(diffs), far))
        return None
    for w, h, alt in diffs:
        if w is not None and h is not None:
            check.ob(rule, '%s:%s' % (short, label(w)), False, h.loc or impl.loc(),
                     '%s happens if [%s], required if [%s]' % (w.show()[:300], diff_guard(h.cond, w.cond), diff_guard(w.cond, h.cond)))
        elif w is not None:
            check.ob(rule, '%s:%s' % (short, label(w)), False, (alt.loc if alt is not None and alt.loc else impl.loc()),
                     'required effect missing: %s if [%s]%s' % (w.show()[:300], pretty_guard(w.cond)[:300],
                                                               '; found instead %s' % alt.show()[:300] if alt is not None else ''))
        else:
            check.ob(rule, '%s:extra:%s' % (short, label(h)), False, h.loc or impl.loc(),
                     'effect the property does not allow: %s if [%s]' % (h.show()[:300], pretty_guard(h.cond)[:300]))
    return False


def _both(check, spec, impl, inline, types, no_inline, pred, o):
    an_s, ss = _run(check, spec, spec, inline, types, None, no_inline, pred)
    an_i, si = _run(check, impl, spec, inline, types, spec.params, no_inline, pred)
    want, _ = items_of(ss, o)
    got, _ = items_of(si, o)
    if spec.name == '__hash__':
        want, got = hashed(want), hashed(got)
    return want, got, an_s, an_i, lambda: sequence(check.p, ss, si)


def sequence(p, ss, si):
    """differences in the order of looks and changes, and in what is handled where"""
    want, got = order.events(ss, Canon(ss), p), order.events(si, Canon(si), p)
    for a, b, c in order.swapped(want, got):
        yield '%s before %s' % (pretty_key(a), pretty_key(b)), a.cond, c.loc
    for e, x, through, c in order.handling(p, want, got):
        yield '%s is %shandled around %s' % (x.rsplit('.', 1)[-1], '' if through else 'not ', pretty_key(e)), e.cond, c.loc
    for e, c in order.unsteady(want, got):
        yield 'a copy is gone through: %s' % pretty_key(e), e.cond, c.loc


def pretty_key(e):
    return ' '.join(x if isinstance(x, str) else pretty(x) if isinstance(x, Term) else repr(x) for x in e.key if x is not None)[:140]


def hashed(items):
    """a hash is judged by what it depends on"""
    out = {}
    for kk, it in items.items():
        if it.kind != 'return' or not isinstance(it.key[0], Term):
            out[kk] = it
            continue
        subs = subterms(it.key[0])
        inner = {b for x in subs if x.op == 'attr' for b in (x.args[0],)}
        deps = tuple(sorted((x for x in subs if x.op == 'attr' and x not in inner or x.op in ('sub', 'elem') or
                             x.op == 'call' and callee_name(x) not in ('hash', 'tuple', 'frozenset')), key=lambda x: x.id))
        out[('return', T('hash', deps))] = Item('return', (T('hash', deps),), it.cond, it.loc)
    return out


def _compare(check, want, got):
    oks, diffs = [], []
    for kk, w in want.items():
        h = got.get(kk)
        if h is None:
            diffs.append((w, None, nearest(w, got, want)))
        elif not equiv(check, w.cond, h.cond):
            diffs.append((w, h, None))
        elif not equiv(check, w.twice, h.twice):
            diffs.append((Item(w.kind, w.key, w.twice, w.loc), Item(h.kind, h.key, h.twice, h.loc), None))
        else:
            oks.append((w, h))
    diffs += [(None, h, None) for kk, h in got.items() if kk not in want]
    # what goes out through one channel keeps its order
    chans = {}
    for w, h in oks:
        if w.channel and h.channel and w.channel == h.channel:
            chans.setdefault(w.channel, []).append((w, h))
    for ps in chans.values():
        for i, (w1, h1) in enumerate(ps):
            for w2, h2 in ps[:i]:
                (b1, a1), (b2, a2) = out_of_order(w1, w2), out_of_order(h1, h2)
                if And(b1, a2, Not(b2)) is not FALSE and not (And(b1, a1) is not FALSE) and And(b2, a2) is FALSE or \
                        And(a1, b2, Not(a2)) is not FALSE and And(b1, a1) is FALSE and And(b2, a2) is FALSE:
                    first, then = (w1, w2) if And(b1, a2) is not FALSE else (w2, w1)
                    diffs.append((Item('order', ('%s before %s' % (first.show()[:120], then.show()[:120]),), first.cond, None), None, h1))
    return oks, diffs


def source_lines(node):
    """multiset of the statements' lines, without docstrings and log calls"""
    from collections import Counter
    node = ast.parse(ast.unparse(node)).body[0]
    for n in ast.walk(node):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.body and isinstance(n.body[0], ast.Expr) and \
                isinstance(n.body[0].value, ast.Constant):
            n.body = n.body[1:] or [ast.Pass()]
    node.decorator_list = []
    return Counter(l.strip() for l in ast.unparse(node).splitlines() if 'logger.' not in l)


def loops_in(node):
    """loop statements of a function, loops of one expression"""
    st = sum(isinstance(n, (ast.For, ast.While)) for n in ast.walk(node))
    ex = sum(isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)) for n in ast.walk(node))
    return st, ex


def distance(p, spec, impl):
    """(lines of the reference that are gone, lines that are new), counting the helpers the code has and the reference has not"""
    from .interp import inventory

    def reached(node, qual):
        seen, todo = {qual: None}, [node]
        while todo:
            f = todo.pop()
            names = {n.id for n in ast.walk(f) if isinstance(n, ast.Name)} | {n.attr for n in ast.walk(f) if isinstance(n, ast.Attribute)}
            for g in p.functions.values():
                if g.name in names and g.qual not in inventory() and g.qual not in seen and not getattr(g, 'is_spec', False):
                    seen[g.qual] = g
                    if any(x is g.node for x in ast.walk(node)):
                        seen[g.qual] = None
                        continue
                    todo.append(g.node)
        return {q: g for q, g in seen.items() if g is not None}
    a, b = source_lines(spec.node), source_lines(impl.node)
    had = reached(spec.node, impl.qual)
    helpers = [g for q, g in reached(impl.node, impl.qual).items() if q not in had]
    for g in helpers:
        b += source_lines(g.node)
    return sum((a - b).values()), sum(n for l, n in (b - a).items() if l != 'pass'), len(helpers)


def restructured(p, spec, impl):
    """Why the difference of the two summaries cannot be put down to a change of behaviour: the function was written anew."""
    gone, new, helpers = distance(p, spec, impl)
    size = sum(source_lines(spec.node).values())
    if not new:         # only taken away
        return None
    if gone + new > (NEAR if not helpers else NEAR - 2) or gone + new >= SMALL and gone + new >= size:
        return 'rewritten: %d of %d lines gone, %d new, %d new helpers' % (gone, size, new, helpers)
    (a, b), (c, d) = loops_in(spec.node), loops_in(impl.node)
    if not helpers and c < a and d > b and gone + new > LOOP and gone > 2:
        return 'a loop written as an expression: %d of %d lines gone, %d new' % (gone, size, new)
    return None


NEAR = int(os.environ.get("NEAR", "9"))
LOOP = 5
SMALL = int(os.environ.get("SMALL", "4"))


def inherited(p, spec):
    """the method objects of the class get where the reference has its own and the tree no longer does"""
    if spec.cls is None or spec.is_setter:
        return None
    for q in p.mro(spec.cls.qual)[1:]:
        c = p.classes.get(q)
        f = c.methods.get(spec.name) if c else None
        if f is not None and not getattr(f, 'is_spec', False):
            return f
    return None


def hierarchy(check, rule, *modules):
    """Every class still derives from what its reference derives from."""
    p = check.p
    spec_library(p)
    for cq, (m, bs) in sorted(p._spec_bases.items()):
        if m.name not in modules:
            continue
        c = p.classes.get(cq)
        if c is None:
            check.notes.append('class %s is gone' % cq)
            continue
        have = set(p.mro(cq))
        names = {x.rsplit('.', 1)[-1] for x in have if x}
        for b in bs:
            want = p.resolve_expr(m, b)
            if want is None or want in ('builtins.object',):
                continue
            ok = want in have or want not in p.classes and want.rsplit('.', 1)[-1] in names
            check.ob(rule, '%s<%s' % (cq.replace('lgr.', '', 1), ast.unparse(b)), ok, '%s:%s' % (c.module.rel, c.node.lineno),
                     '%s no longer derives from %s' % (cq, want))


def same_value(p, mod_s, node_s, mod_i, node_i):
    if ast.dump(node_s) == ast.dump(node_i):
        return True
    out = []
    for spec, mod, node in ((True, mod_s, node_s), (False, mod_i, node_i)):
        an = Analyzer(p)
        an.spec_side = spec
        from .interp import Frame, State
        an.frames.append(Frame(None, mod, None))
        try:
            out.append(Canon(SimpleNamespace(an=an, effects=[])).t(an.ev(node, State({}, {}, TRUE))))
        except Exception:
            return False
    return out[0] is out[1]


def values(check, rule, *quals):
    """Class attributes and module constants keep the value of their reference."""
    p = check.p
    spec_library(p)
    for q in quals:
        own, _, name = q.rpartition('.')
        if own in p._spec_attrs:
            node_s = p._spec_attrs[own].get(name)
            mod_s = p._spec_bases[own][0]
            c = None
            for b in p.mro(own):
                if b in p.classes and name in p.classes[b].attrs:
                    c = p.classes[b]
                    break
            if c is None:
                check.notes.append('%s is gone' % q)
                continue
            node_i, mod_i = c.attrs[name], c.module
        else:
            node_s, mod_s = p._spec_assigns.get(q), p.modules.get(own)
            mod_i = p.modules.get(own)
            if mod_i is None or name not in mod_i.assigns:
                check.notes.append('%s is gone' % q)
                continue
            node_i = mod_i.assigns[name][-1]
            if node_i is node_s:
                check.notes.append('%s is gone' % q)
                continue
        if node_s is None:
            raise AnalysisBroken('no reference value for %s' % q)
        check.ob(rule, 'value:%s' % q.replace('lgr.', '', 1), same_value(p, mod_s, node_s, mod_i, node_i),
                 '%s:%s' % (mod_i.rel, node_i.lineno), '%s is %s, expected %s' % (q, ast.unparse(node_i)[:200], ast.unparse(node_s)[:200]))


PLAIN_DECORATORS = {'staticmethod', 'classmethod', 'property', 'abstractmethod', 'override', 'wraps', 'setter'}


def item_imprecise(it):
    out = set()
    for x in it.key:
        if isinstance(x, Term):
            out |= imprecise(x)
    for a in support(it.cond):
        out |= imprecise(a)
    return out


def label(it):
    """stable short name of an item"""
    k = it.key[0]
    s = k if isinstance(k, str) else pretty(k)
    if it.kind in ('store_attr', 'store_sub', 'emit', 'emit_all', 'aug'):
        s = pretty(it.key[0])
    return '%s:%s' % (it.kind, ''.join(s.split())[:60])


def nearest(w, got, want):
    c = [h for kk, h in got.items() if h.kind == w.kind and kk not in want]
    for h in c:
        if isinstance(h.key[0], Term) and isinstance(w.key[0], Term):
            if h.key[0] is w.key[0] or callee_name(h.key[0]) is not None and callee_name(h.key[0]) == callee_name(w.key[0]):
                return h
    return c[0] if c else None


def equiv(check, a, b):
    from .base import axioms_for
    if a is b:
        return True
    ats = set(support(a)) | set(support(b))
    ax = axioms_for(ats, check.p)
    return And(a, ax) is And(b, ax)


def diff_guard(a, b):
    """a, in the part where it differs from b"""
    d = And(a, Not(b))
    return pretty_guard(a)[:400] + ((' -- differs when [%s]' % pretty_guard(d)[:400]) if d is not FALSE else '')
