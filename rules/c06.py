"""Every resolved call supplies what its callee declares, every unpacking fits what the callee returns,
every name, import, attribute and method used is defined (whole package and command-line tools)."""
import ast
import re
import string

from sa.project import BUILTINS

EXPLANATION = __doc__
BUILTIN_METHODS = {n for t in (str, bytes, list, dict, set, frozenset, tuple, int, float, object, type, range) for n in dir(t)}


def accepts(f, call, bound):
    """None when the call binds to f's parameters, else why not"""
    if any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords):
        star = True
    else:
        star = False
    params = list(f.params)
    if bound and not f.is_static and params:
        params = params[1:]
    npos = sum(not isinstance(a, ast.Starred) for a in call.args)
    if npos > len(params) and not f.vararg:
        return 'takes %d positional arguments, %d given' % (len(params), npos)
    given = set(params[:npos])
    for k in call.keywords:
        if k.arg is None:
            continue
        if k.arg in given:
            return 'argument %s given twice' % k.arg
        if k.arg not in params and k.arg not in f.kwonly and not f.kwarg:
            return 'has no parameter %s' % k.arg
        given.add(k.arg)
    if not star:
        missing = [p for p in params + f.kwonly if p not in given and p not in f.defaults]
        if missing:
            return 'parameter %s not given' % ', '.join(missing)
    return None


def return_arities(p, f, depth=0):
    """set of tuple lengths f may return, or None when unknown"""
    if f.is_generator or depth > 3 or f.is_abstract:
        return None
    out = set()
    stack = list(f.node.body)
    local_tuples = {}
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        if isinstance(n, ast.Return):
            v = n.value
            todo = [v]
            while todo:
                v = todo.pop()
                if isinstance(v, ast.IfExp):
                    todo += [v.body, v.orelse]
                    continue
                if isinstance(v, ast.Tuple) and not any(isinstance(e, ast.Starred) for e in v.elts):
                    out.add(len(v.elts))
                elif isinstance(v, ast.Call):
                    g, _ = resolve(p, f, v)
                    if len(g) != 1:
                        return None
                    r = return_arities(p, g[0], depth + 1)
                    if r is None:
                        return None
                    out |= r
                else:
                    return None
        stack.extend(ast.iter_child_nodes(n))
    return out or None


def top(f):
    while f.parent is not None:
        f = f.parent
    return f


def local_names(fn):
    out = set()
    a = fn.args
    for x in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else []):
        out.add(x.arg)
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not fn:
            out.add(n.name)
            if isinstance(n, ast.FunctionDef):
                out |= {x.arg for x in n.args.args + n.args.kwonlyargs}
                out |= {x.arg for x in (n.args.vararg, n.args.kwarg) if x}
        elif isinstance(n, ast.Lambda):
            out |= {x.arg for x in n.args.args + n.args.kwonlyargs}
            out |= {x.arg for x in (n.args.vararg, n.args.kwarg) if x}
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            out |= {(x.asname or x.name).split('.')[0] for x in n.names}
    return out


def resolve(p, f, call):
    """(candidate callees, bound)"""
    fn = call.func
    m = f.module
    if isinstance(fn, ast.Name):
        if fn.id in local_names(top(f).node):
            nested = [g for q, g in p.functions.items() if g.parent is not None and top(g) is top(f) and g.name == fn.id]
            stores = [n for n in ast.walk(top(f).node) if isinstance(n, ast.Name) and n.id == fn.id and isinstance(n.ctx, ast.Store)]
            if fn.id in [x for x in m.imports] and not stores and not nested:
                pass
            else:
                return (nested, False) if len(nested) == 1 and not stores else ([], False)
        q = p.canonical(p.resolve_name(m, fn.id))
        if q in p.functions:
            return [p.functions[q]], False
        if q in p.classes:
            g = p.lookup_method(q, '__init__')
            return ([g] if g else []), True
        return [], False
    if isinstance(fn, ast.Attribute):
        v = fn.value
        if isinstance(v, ast.Name) and f.cls is not None and f.params and v.id == f.params[0] and not f.is_static:
            g = p.lookup_method(f.cls.qual, fn.attr)
            subs = [p.classes[s].methods[fn.attr] for s in p.subclasses(f.cls.qual) if s != f.cls.qual and fn.attr in p.classes[s].methods]
            if g is not None:
                return ([] if g.is_property else [g]), not g.is_static
            return subs, True
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'super' and f.cls is not None:
            for q in p.mro(f.cls.qual)[1:]:
                if q in p.classes and fn.attr in p.classes[q].methods:
                    return [p.classes[q].methods[fn.attr]], True
            return [], True
        if isinstance(v, (ast.Name, ast.Attribute)):
            root = v
            while isinstance(root, ast.Attribute):
                root = root.value
            if isinstance(root, ast.Name) and root.id not in local_names(top(f).node):
                q = p.resolve_expr(m, fn)
                if q in p.functions:
                    g = p.functions[q]
                    return [g], g.cls is not None and g.is_classmethod
                if q in p.classes:
                    g = p.lookup_method(q, '__init__')
                    return ([g] if g else []), True
                if q and q.split('.')[0] in ('lgr', 'tools'):
                    base = q.rsplit('.', 1)[0]
                    if base in p.modules or base in p.classes:
                        return None, False
                if q and q.split('.')[0] not in ('lgr', 'tools') and root.id in m.imports:
                    return [], False
        if fn.attr in BUILTIN_METHODS or is_logger(p, m, v):
            return [], True
        # a field whose class is known
        if isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and v.value.id == 'self' and f.cls is not None:
            t = p.field_types(f.cls.qual).get(v.attr)
            if t:
                g = p.lookup_method(t, fn.attr)
                if g is not None:
                    return [g], True
        return [g for g in p.by_name.get(fn.attr, []) if g.cls is not None and not g.is_property], True
    return [], False


FMT = re.compile(r'%(?:%|(\((?P<key>\w+)\))?[-+ #0]*(\*|\d+)?(\.(\*|\d+))?[hlL]?[diouxXeEfFgGcrsa])')


def percent_fields(s):
    """number of positional fields of a %-format, None when it uses keys or * widths"""
    n = 0
    for m in FMT.finditer(s):
        if m.group() == '%%':
            continue
        if m.group('key') or '*' in m.group():
            return None
        n += 1
    return n


def brace_fields(s):
    """(positional fields, keyword names) of a str.format template"""
    auto, idx, names = 0, set(), set()
    try:
        todo = [s]
        while todo:
            for _, field, spec, _ in string.Formatter().parse(todo.pop()):
                if field is None:
                    continue
                head = re.split(r'[.\[]', field)[0]
                if head == '':
                    auto += 1
                elif head.isdigit():
                    idx.add(int(head))
                else:
                    names.add(head)
                if spec:
                    todo.append(spec)
    except ValueError:
        return None
    return max([auto] + [i + 1 for i in idx]), names


def format_error(n, p, m):
    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
        k = percent_fields(n.left.value)
        if k is None:
            return ''
        if isinstance(n.right, ast.Tuple):
            if any(isinstance(e, ast.Starred) for e in n.right.elts):
                return ''
            return '' if len(n.right.elts) == k else '%d fields, %d values' % (k, len(n.right.elts))
        if isinstance(n.right, ast.Dict):
            return ''
        return '' if k == 1 or k > 1 and isinstance(n.right, (ast.Name, ast.Attribute, ast.Call)) else '%d fields, one value' % k
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
        star = any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords)
        if n.func.attr == 'format' and isinstance(n.func.value, ast.Constant) and isinstance(n.func.value.value, str):
            b = brace_fields(n.func.value.value)
            if b is None:
                return 'malformed template'
            if star:
                return ''
            if b[0] > len(n.args):
                return '%d fields, %d values' % (b[0], len(n.args))
            miss = b[1] - {k.arg for k in n.keywords}
            return 'no value for %s' % ', '.join(sorted(miss)) if miss else ''
        if n.func.attr in ('debug', 'info', 'warning', 'error', 'exception', 'critical') and is_logger(p, m, n.func.value) and n.args \
                and isinstance(n.args[0], ast.Constant) and isinstance(n.args[0].value, str):
            k = percent_fields(n.args[0].value)
            if k is None or star or len(n.args) == 1:
                return ''
            return '' if k == len(n.args) - 1 else '%d fields, %d values' % (k, len(n.args) - 1)
        return None
    return None


def is_logger(p, m, v):
    if isinstance(v, ast.Name):
        q = p.canonical(p.resolve_name(m, v.id))
        mod, _, n = q.rpartition('.')
        vals = p.modules[mod].assigns.get(n, []) if mod in p.modules else []
        return any(isinstance(x, ast.Call) and ast.unparse(x.func).endswith('getLogger') for x in vals) or 'logger' in v.id
    return isinstance(v, ast.Attribute) and 'logger' in v.attr or isinstance(v, ast.Call) and ast.unparse(v.func).endswith('getLogger')


def owner_functions(p):
    """function -> the AST nodes it owns (nested functions own theirs)"""
    for q, f in sorted(p.functions.items()):
        own = []
        stack = list(f.node.body)
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                stack.extend(n.decorator_list)
                stack.extend(n.args.defaults)
                continue
            own.append(n)
            stack.extend(ast.iter_child_nodes(n))
        yield f, own


def run(c, tier):
    p = c.p
    attrs = set()
    for m in p.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                attrs.add(n.attr)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                attrs.add(n.name)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and len(n.args) > 1 \
                    and isinstance(n.args[1], ast.Constant):
                attrs.add(n.args[1].value)
    for f, own in list(owner_functions(p)):
        c.analysed(f)
        names = local_names(top(f).node)
        if f.cls is not None:
            pass
        m = f.module
        for n in own:
            loc = '%s:%d' % (m.rel, getattr(n, 'lineno', 0))
            if isinstance(n, ast.Call):
                cands, bound = resolve(p, f, n)
                if cands is None:
                    c.ob('defined', '%s:%s' % (f.qual, ast.unparse(n.func)), False, loc, '%s does not exist' % ast.unparse(n.func))
                    continue
                if cands:
                    why = [accepts(g, n, bound) for g in cands]
                    c.ob('call-signature', '%s->%s' % (f.qual, ast.unparse(n.func)), any(w is None for w in why), loc,
                         'call of %s: %s' % (cands[0].qual, why[0]))
            why = format_error(n, p, m)
            if why is not None:
                c.ob('format', f.qual, not why, loc, 'format string: %s' % why)
            if isinstance(n, (ast.Assign, ast.For, ast.comprehension)):
                tgt = n.targets[0] if isinstance(n, ast.Assign) else n.target
                val = n.value if isinstance(n, ast.Assign) else None
                if isinstance(tgt, (ast.Tuple, ast.List)) and isinstance(val, ast.Call) and not any(isinstance(e, ast.Starred) for e in tgt.elts):
                    cands, bound = resolve(p, f, val)
                    if cands and len(cands) == 1:
                        r = return_arities(p, cands[0])
                        if r is not None:
                            c.ob('unpacking', '%s<-%s' % (f.qual, cands[0].qual), len(tgt.elts) in r, loc,
                                 '%d values expected, %s returns %s' % (len(tgt.elts), cands[0].qual, sorted(r)))
                if isinstance(tgt, (ast.Tuple, ast.List)) and isinstance(val, ast.Tuple) and not any(
                        isinstance(e, ast.Starred) for e in tgt.elts + val.elts):
                    c.ob('unpacking', f.qual, len(tgt.elts) == len(val.elts), loc, 'sizes differ')
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                ok = n.id in names or n.id in m.functions or n.id in m.classes or n.id in m.assigns or n.id in m.imports \
                    or n.id in BUILTINS or n.id in ('unichr', 'unicode', 'xrange', 'basestring', 'long', 'reduce', '__file__', '__name__', '__doc__', '__class__')
                if not ok:
                    c.ob('defined', '%s:%s' % (f.qual, n.id), False, loc, 'name %s is not defined' % n.id)
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == 'self' \
                    and top(f).cls is not None and names and 'self' == (top(f).params or [''])[0]:
                cls = top(f).cls
                quals = set(p.mro(cls.qual)) | set(p.subclasses(cls.qual))
                known = False
                for q in quals:
                    k = p.classes.get(q)
                    if k is None:
                        if q not in ('builtins.object',):
                            known = True
                        continue
                    if n.attr in k.methods or n.attr in k.attrs or n.attr in k.setters or q + '.' + n.attr in p.classes:
                        known = True
                    for g in list(k.methods.values()) + list(k.setters.values()):
                        for s in ast.walk(g.node):
                            if isinstance(s, ast.Attribute) and isinstance(s.ctx, ast.Store) and s.attr == n.attr:
                                known = True
                if n.attr.startswith('__'):
                    known = True
                if not known:
                    c.ob('defined', '%s:self.%s' % (f.qual, n.attr), False, loc, 'attribute %s is never defined' % n.attr)
        c.ob('names-defined', f.qual, True, f.loc())
    # imports
    for m in p.modules.values():
        for name, q in sorted(m.imports.items()):
            if q.split('.')[0] not in ('lgr', 'tools'):
                continue
            r = p.canonical(q)
            ok = r in p.functions or r in p.classes or r in p.modules
            if not ok and '.' in r:
                mod, nm = r.rsplit('.', 1)
                mm = p.modules.get(mod)
                ok = mm is not None and (nm in mm.assigns or nm in mm.imports) or mod.startswith('lgr.test_utils')
            c.ob('import', '%s:%s' % (m.name, name), ok, m.rel + ':1', '%s is imported but does not exist' % q)
    c.at_least('call-signature', 900)
    c.at_least('unpacking', 20)
