"""Local dictionaries used as records: a name bound once to a display with constant keys, whose entries are only
reached by constant keys that the display has, is taken apart into one variable per entry; where the dictionary
itself is used (after the last store), the display is put back with the variables in place.

The rewriting is done on the parsed tree, the same for the specification and for the code."""
import ast
import re

READERS = {'get', 'items', 'keys', 'values', 'copy'}


def split(tree):
    for f in [n for n in ast.walk(tree) if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef))]:
        done = set()
        while True:
            name = _candidate(f, done)
            if name is None:
                break
            done.add(name)
    return tree


def _parents(f):
    up = {}
    for n in ast.walk(f):
        for c in ast.iter_child_nodes(n):
            up[c] = n
    return up


def _chain(n, up, top):
    out = []
    while n is not top:
        n = up[n]
        out.append(n)
    return out


def _display(v):
    """[(key, value node)] of a display with constant text keys"""
    if isinstance(v, ast.Dict) and v.keys and all(isinstance(k, ast.Constant) and isinstance(k.value, str) for k in v.keys):
        keys = [k.value for k in v.keys]
        return list(zip(keys, v.values)) if len(set(keys)) == len(keys) else None
    if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'dict' and not v.args and v.keywords \
            and all(k.arg for k in v.keywords):
        return [(k.arg, k.value) for k in v.keywords]
    return None


def _candidate(f, done):
    up = None
    params = {a.arg for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs}
    for s in ast.walk(f):
        if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name)):
            continue
        name = s.targets[0].id
        if name in done or name in params:
            continue
        items = _display(s.value)
        if items is None:
            continue
        up = up or _parents(f)
        if _rewrite(f, name, s, items, up):
            return name
        done.add(name)
    return None


def _body_of(up, s):
    p = up[s]
    for fld in ('body', 'orelse', 'finalbody'):
        b = getattr(p, fld, None)
        if isinstance(b, list) and s in b:
            return b
    return None


def _pos(n):
    return n.lineno, n.col_offset


def _rewrite(f, name, s, items, up):
    keys = [k for k, _ in items]
    slots, bare = [], []
    stores = []
    for n in ast.walk(f):
        if isinstance(n, (ast.Global, ast.Nonlocal)) and name in n.names:
            return False
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)) and n is not f:
            a = n.args
            if any(p.arg == name for p in a.posonlyargs + a.args + a.kwonlyargs):
                return False
        if not (isinstance(n, ast.Name) and n.id == name) or n is s.targets[0]:
            continue
        if not isinstance(n.ctx, ast.Load):
            return False
        p = up[n]
        if isinstance(p, ast.Subscript) and p.value is n:
            k = p.slice
            if not (isinstance(k, ast.Constant) and k.value in keys) or isinstance(p.ctx, ast.Del):
                return False
            slots.append(p)
            if isinstance(p.ctx, ast.Store):
                if any(isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)) for x in _chain(p, up, f)[:-1]):
                    return False
                if any(isinstance(x, (ast.For, ast.AsyncFor)) and x.target in _chain(p, up, f) + [p] for x in _chain(p, up, f)):
                    return False
                stores.append(p)
        elif isinstance(p, ast.Attribute) and p.value is n and p.attr not in READERS:
            return False
        else:
            if any(isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)) for x in _chain(n, up, f)[:-1]):
                return False
            bare.append(n)
    if not slots:
        return False
    loops = (ast.For, ast.AsyncFor, ast.While)
    home = [x for x in _chain(s, up, f) if isinstance(x, loops)]
    for b in bare:
        chain = _chain(b, up, f)
        if any(isinstance(x, ast.Return) for x in chain):
            continue
        for x in slots:
            if _pos(x) > _pos(b):
                return False
            shared = [l for l in chain if isinstance(l, loops) and l in _chain(x, up, f)]
            if any(l not in home for l in shared) and x in stores:
                return False
    body = _body_of(up, s)
    if body is None:
        return False
    at = lambda n, like: ast.copy_location(n, like)
    var = lambda k, ctx, like: at(ast.Name(id='%s·%s' % (name, re.sub(r'\W', '_', k)), ctx=ctx), like)
    i = body.index(s)
    body[i:i + 1] = [at(ast.Assign(targets=[var(k, ast.Store(), s.targets[0])], value=v), v if hasattr(v, 'lineno') else s) for k, v in items]

    class Put(ast.NodeTransformer):
        def visit_Subscript(self, n):
            if n in slots:
                return var(n.slice.value, n.ctx, n)
            return self.generic_visit(n)

        def visit_Name(self, n):
            if n in bare:
                return at(ast.Dict(keys=[at(ast.Constant(value=k), n) for k in keys],
                                   values=[var(k, ast.Load(), n) for k in keys]), n)
            return n
    Put().visit(f)
    return True
