"""Loads the current sources of /repo and resolves names (modules, classes, imports).

Everything is derived from the syntax trees on every run; nothing is executed or imported.
"""
import ast
import builtins
import os

from . import records

REPO = os.environ.get('VERIF_REPO', '/repo')
SKIP_DIRS = {'tests', 'test', 'test_utils', '__pycache__', 'doc', '.git', 'build'}
BUILTINS = set(dir(builtins))
_parsed = {}        # (path, source text) -> tree; one process only


class AnalysisBroken(Exception):
    """An anchor of a rule vanished: the check can give no verdict."""


class Func:
    def __init__(self, qual, node, module, cls=None, parent=None):
        self.qual, self.node, self.module, self.cls, self.parent = qual, node, module, cls, parent
        self.name = node.name
        decs = [d.func if isinstance(d, ast.Call) else d for d in node.decorator_list]
        names = {d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else '' for d in decs}
        self.decorators = names
        self.is_static = 'staticmethod' in names
        self.is_classmethod = 'classmethod' in names
        self.is_property = 'property' in names or 'cached_property' in names
        self.is_setter = 'setter' in names
        self.is_abstract = 'abstractmethod' in names
        a = node.args
        self.params = [p.arg for p in a.posonlyargs + a.args]
        self.kwonly = [p.arg for p in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        d = {}
        for p, v in zip(reversed(self.params), reversed(a.defaults)):
            d[p] = v
        for p, v in zip(self.kwonly, a.kw_defaults):
            if v is not None:
                d[p] = v
        self.defaults = d
        self.is_generator = has_own_yield(node)

    @property
    def is_method(self):
        return self.cls is not None and not self.is_static

    def loc(self, node=None):
        return '%s:%d' % (self.module.rel, getattr(node or self.node, 'lineno', 0))

    def __repr__(self):
        return '<Func %s>' % self.qual


def has_own_yield(fn):
    stack = list(fn.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


class Cls:
    def __init__(self, qual, node, module):
        self.qual, self.node, self.module = qual, node, module
        self.name = node.name
        self.methods = {}      # name -> Func (getter for properties)
        self.setters = {}
        self.attrs = {}        # class level assignments name -> value node
        self.bases = []        # resolved quals
        self._fields = None

    def __repr__(self):
        return '<Cls %s>' % self.qual


class Module:
    def __init__(self, name, path, rel, tree, src):
        self.name, self.path, self.rel, self.tree, self.src = name, path, rel, tree, src
        self.imports = {}
        self.functions = {}
        self.classes = {}
        self.assigns = {}      # global name -> [value nodes]
        self.is_pkg = path.endswith('__init__.py')


NO_KEY_ERROR = {'len', 'isinstance', 'int', 'str', 'list', 'tuple', 'sorted', 'min', 'max', 'sum', 'any', 'all', 'range', 'enumerate', 'zip', 'format',
                'join', 'strip', 'split', 'append', 'add', 'extend', 'debug', 'info', 'warning', 'error', 'getLogger', 'lower', 'upper', 'replace',
                'startswith', 'endswith', 'iter', 'next', 'bool', 'super', '__init__', 'get', 'items', 'keys', 'values', 'copy', 'set', 'frozenset',
                'dict', 'hash', 'ord', 'chr', 'getattr', 'hasattr', 'setdefault', 'discard', 'update'}


def _is_script(path):
    """A Python script without the extension."""
    with open(path, 'rb') as fh:
        first = fh.readline(200)
    return first.startswith(b'#!') and b'python' in first


class Project:
    def __init__(self, root=REPO, overrides=None):
        self.root = root
        self.overrides = overrides or {}
        self.modules = {}
        self.functions = {}
        self.classes = {}
        self.by_name = {}      # simple function name -> [Func]
        self.errors = []
        self._load()

    # -- loading ---------------------------------------------------------
    def _load(self):
        files = []
        for top in ('lgr', 'tools'):
            base = os.path.join(self.root, top)
            for d, dirs, names in os.walk(base):
                dirs[:] = sorted(x for x in dirs if x not in SKIP_DIRS)
                for n in sorted(names):
                    if n.endswith('.py') and not n.startswith('test_') or '.' not in n and _is_script(os.path.join(d, n)):
                        files.append(os.path.join(d, n))
        for path in files:
            rel = os.path.relpath(path, self.root)
            name = (rel[:-3] if rel.endswith('.py') else rel).replace(os.sep, '.')
            if name.endswith('.__init__'):
                name = name[:-len('.__init__')]
            if rel in self.overrides:
                src = self.overrides[rel]
            else:
                with open(path, encoding='utf-8') as fh:
                    src = fh.read()
            try:
                tree = _parsed.get((path, src))
                if tree is None:
                    tree = records.split(ast.parse(src, path))
                    if rel not in self.overrides:
                        _parsed[(path, src)] = tree
            except SyntaxError as exc:
                self.errors.append('%s does not parse: %s' % (rel, exc))
                continue
            self.modules[name] = Module(name, path, rel, tree, src)
        for m in self.modules.values():
            self._index(m)
        for c in self.classes.values():
            c.bases = [self.resolve_expr(c.module, b) for b in c.node.bases]

    def _index(self, m):
        for node in ast.walk(m.tree):
            if isinstance(node, ast.Import):
                for a in node.names:
                    if a.asname:
                        m.imports[a.asname] = a.name
                    else:
                        m.imports[a.name.split('.')[0]] = a.name.split('.')[0]
            elif isinstance(node, ast.ImportFrom):
                base = node.module or ''
                if node.level:
                    parts = m.name.split('.')
                    if not m.is_pkg:
                        parts = parts[:-1]
                    parts = parts[:len(parts) - (node.level - 1)]
                    base = '.'.join(parts + ([node.module] if node.module else []))
                for a in node.names:
                    m.imports[a.asname or a.name] = base + '.' + a.name
        self._scope(m, m.tree.body, m.name, None)

    def _scope(self, m, body, prefix, cls):
        for node in body:
            if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                q = prefix + '.' + node.name
                f = Func(q, node, m, cls)
                if cls is not None:
                    if f.is_setter:
                        cls.setters[node.name] = f
                        q += '.setter'
                        f.qual = q
                    else:
                        cls.methods[node.name] = f
                else:
                    m.functions[node.name] = f
                self.functions[q] = f
                self.by_name.setdefault(node.name, []).append(f)
                # nested definitions are indexed for enumeration only
                for sub in ast.walk(node):
                    if sub is not node and isinstance(sub, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        sq = q + '.<locals>.' + sub.name
                        if sq not in self.functions:
                            nf = Func(sq, sub, m, None, parent=f)
                            self.functions[sq] = nf
            elif isinstance(node, ast.ClassDef):
                q = prefix + '.' + node.name
                c = Cls(q, node, m)
                self.classes[q] = c
                if cls is None:
                    m.classes[node.name] = c
                self._scope(m, node.body, q, c)
            elif isinstance(node, (ast.Assign, ast.AnnAssign)):
                tgts = node.targets if isinstance(node, ast.Assign) else [node.target]
                for t in tgts:
                    if isinstance(t, ast.Name) and node.value is not None:
                        if cls is not None:
                            cls.attrs[t.id] = node.value
                        else:
                            m.assigns.setdefault(t.id, []).append(node.value)
            elif isinstance(node, (ast.If, ast.Try, ast.With)):
                for fld in ('body', 'orelse', 'finalbody'):
                    self._scope(m, getattr(node, fld, []) or [], prefix, cls)
                for h in getattr(node, 'handlers', []) or []:
                    self._scope(m, h.body, prefix, cls)

    # -- resolution ------------------------------------------------------
    def canonical(self, qual, _seen=None):
        """Follow re-exports: lgr.tools.compare.union_lgrs -> lgr.tools.compare.union.union_lgrs"""
        _seen = _seen or set()
        if qual in _seen:
            return qual
        _seen.add(qual)
        if qual in self.functions or qual in self.classes or qual in self.modules:
            return qual
        if '.' in qual:
            mod, name = qual.rsplit('.', 1)
            mod = self.canonical(mod, _seen) if mod not in self.modules else mod
            if mod in self.modules:
                m = self.modules[mod]
                if name in m.imports:
                    return self.canonical(m.imports[name], _seen)
                return mod + '.' + name
            if mod in self.classes:
                f = self.lookup_method(mod, name)
                if f:
                    return f.qual
                return mod + '.' + name
        return qual

    def resolve_name(self, m, name):
        if name in m.functions:
            return m.functions[name].qual
        if name in m.classes:
            return m.classes[name].qual
        if name in m.assigns:
            return m.name + '.' + name
        if name in m.imports:
            return self.canonical(m.imports[name])
        if name in BUILTINS:
            return 'builtins.' + name
        return m.name + '.' + name

    def resolve_expr(self, m, node):
        if isinstance(node, ast.Name):
            return self.resolve_name(m, node.id)
        if isinstance(node, ast.Attribute):
            b = self.resolve_expr(m, node.value)
            return self.canonical(b + '.' + node.attr) if b else None
        if isinstance(node, ast.Subscript):
            return self.resolve_expr(m, node.value)
        return None

    def mro(self, qual):
        out, todo = [], [qual]
        while todo:
            q = todo.pop(0)
            if q in out or q is None:
                continue
            out.append(q)
            c = self.classes.get(q)
            if c:
                todo = [b for b in c.bases] + todo if len(c.bases) == 1 else todo + c.bases
        return out

    def lookup_method(self, clsqual, name):
        for q in self.mro(clsqual):
            c = self.classes.get(q)
            if c and name in c.methods:
                return c.methods[name]
        return None

    def subclasses(self, qual):
        return [c.qual for c in self.classes.values() if qual in self.mro(c.qual)]

    def is_subclass(self, a, b):
        if a == b:
            return True
        if a in self.classes:
            mro = self.mro(a)
            if b in mro:
                return True
            return any(x and x.startswith('builtins.') and _builtin_sub(x, b) for x in mro)
        return _builtin_sub(a, b)

    def disjoint(self, a, b):
        """no object is an instance of both"""
        builtin = {'builtins.' + n for n in ('int', 'str', 'list', 'tuple', 'dict', 'set', 'bytes', 'float')}
        if a in builtin and b in builtin:
            return a != b
        if a not in self.classes or b not in self.classes:
            return a in self.classes and b in builtin and not self.foreign_base(a) or b in self.classes and a in builtin and not self.foreign_base(b)
        m = self.__dict__.setdefault('_disjoint', {})
        if (a, b) not in m:
            m[a, b] = not set(self.subclasses(a)) & set(self.subclasses(b)) and a not in self.subclasses(b) and b not in self.subclasses(a)
        return m[a, b]

    def foreign_base(self, q):
        return any(x not in self.classes and x != 'builtins.object' for c in self.subclasses(q) + [q] for x in self.mro(c))

    def always_tuple(self, name):
        """every assignment of an attribute of this name stores a tuple"""
        m = self.__dict__.setdefault('_tuples', {})
        if not m:
            for mod in self.modules.values():
                for n in ast.walk(mod.tree) if not mod.name.endswith('.exceptions') else ():
                    if isinstance(n, ast.Assign):
                        for t in n.targets:
                            if isinstance(t, ast.Attribute):
                                v = n.value
                                ok = isinstance(v, ast.Tuple) or isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'tuple'
                                m[t.attr] = m.get(t.attr, True) and ok
            m.setdefault('', False)
        return m.get(name, False)

    def stored_once(self, func, name):
        """the attribute is stored in constructors only, in this one at one place"""
        m = self.__dict__.setdefault('_attr_stores', {})
        if not m:
            for mod in self.modules.values():
                inits = {id(x) for f in ast.walk(mod.tree) if isinstance(f, ast.FunctionDef) and f.name == '__init__' for x in ast.walk(f)}
                for x in ast.walk(mod.tree):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)):
                        m[x.attr] = m.get(x.attr, True) and id(x) in inits
                    elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('setattr', 'delattr'):
                        m[''] = True
                    elif isinstance(x, ast.FunctionDef):
                        m[x.name] = False
            m.setdefault('', False)
        return m.get(name, False) and sum(isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr == name for x in ast.walk(func.node)) == 1

    def holds_list(self, name):
        """every value stored in an attribute of this name is a list, set or dictionary of its own"""
        m = self.__dict__.setdefault('_list_attrs', {})
        if not m:
            m[''] = False

            def made(v):
                if isinstance(v, ast.BoolOp):
                    return made(v.values[-1])
                if isinstance(v, ast.IfExp):
                    return made(v.body) or made(v.orelse)
                return isinstance(v, (ast.List, ast.Set, ast.ListComp, ast.SetComp)) or \
                    isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ('list', 'set', 'sorted')
            for mod in self.modules.values():
                for x in ast.walk(mod.tree):
                    if isinstance(x, ast.Assign):
                        for t in x.targets:
                            if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self':
                                m[t.attr] = m.get(t.attr, False) or made(x.value)
        return m.get(name, False)

    def may_raise_own(self, name):
        """a call by this name may end in a raise statement of the project"""
        m = self.__dict__.setdefault('_own_errors', {})
        if name in m:
            return m[name]
        fs = list(self.by_name.get(name, ()))
        for c in self.classes.values():
            if c.name == name:
                fs += [f for f in [self.lookup_method(c.qual, '__init__')] if f is not None]
        m[name] = False
        bad = False
        for f in fs:
            for n in ast.walk(f.node):
                if isinstance(n, ast.Raise):
                    bad = True
                elif isinstance(n, ast.Call):
                    q = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else None
                    if q == 'cls' and f.cls is not None:
                        q = f.cls.name
                    if q is None or q in f.params or self.may_raise_own(q):
                        bad = True
        m[name] = bad
        return bad

    def may_raise_key_error(self, name):
        """a call by this name may fail for a missing key: it looks something up itself, or calls what is not known not to"""
        m = self.__dict__.setdefault('_key_errors', {})
        if name in m:
            return m[name]
        fs = list(self.by_name.get(name, ()))
        for c in self.classes.values():
            if c.name == name:
                fs += [f for f in [self.lookup_method(c.qual, '__init__')] if f is not None]
        if not fs:
            return name not in NO_KEY_ERROR
        m[name] = False         # (as far as it only calls itself)
        bad = False
        for f in fs:
            for n in ast.walk(f.node):
                if isinstance(n, ast.Subscript) and not isinstance(n.ctx, ast.Store) and not (
                        isinstance(n.slice, (ast.Slice, ast.UnaryOp)) or isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, int)):
                    bad = True
                elif isinstance(n, ast.Raise) and n.exc is not None and 'KeyError' in ast.unparse(n.exc):
                    bad = True
                elif isinstance(n, (ast.Delete, ast.With)):
                    bad = True
                elif isinstance(n, ast.Call):
                    q = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else None
                    if q == 'cls' and f.cls is not None:
                        q = f.cls.name
                    if q is None or self.may_raise_key_error(q):
                        bad = True
        m[name] = bad
        return bad

    def always_object(self, name):
        """every assignment of an attribute of this name stores None or an instance that is always true"""
        m = self.__dict__.setdefault('_objects', {})
        if not m:
            for mod in self.modules.values():
                for n in ast.walk(mod.tree):
                    if isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                        for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                            for x in ast.walk(t):
                                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                                    m[x.attr] = m.get(x.attr, True) and x is t and self._true_object(mod, n.value)
                    elif isinstance(n, ast.FunctionDef):
                        m[n.name] = False
            for c in self.classes.values():
                for a in c.attrs:
                    m[a] = False
            m.setdefault('', False)
        return m.get(name, False)

    def _true_object(self, mod, v):
        if isinstance(v, ast.Constant) and v.value is None:
            return True
        if isinstance(v, ast.Call):
            q = self.resolve_expr(mod, v.func)
            if q in self.classes:
                return not any(b not in self.classes or {'__len__', '__bool__'} & set(self.classes[b].methods)
                               for b in self.mro(q) if b not in ('object', 'builtins.object'))
        return False

    def func(self, qual):
        f = self.functions.get(qual)
        if f is None:
            # moved to another module / class of the hierarchy: accept a unique definition of that name
            cq, _, name = qual.rpartition('.')
            if cq in self.classes:
                f = self.lookup_method(cq, name)
            if f is None:
                c = self.canonical(qual)
                f = self.functions.get(c)
            if f is None:
                cands = [x for x in self.by_name.get(name, [])]
                if len(cands) == 1:
                    f = cands[0]
        if f is None:
            raise AnalysisBroken('function %s not found in the current tree' % qual)
        return f

    def cls(self, qual):
        c = self.classes.get(qual) or self.classes.get(self.canonical(qual))
        if c is None:
            name = qual.rsplit('.', 1)[-1]
            cands = [x for x in self.classes.values() if x.name == name]
            if len(cands) == 1:
                c = cands[0]
        if c is None:
            raise AnalysisBroken('class %s not found in the current tree' % qual)
        return c

    def all_methods(self, clsqual):
        """name -> Func through the MRO."""
        out = {}
        for q in reversed(self.mro(clsqual)):
            c = self.classes.get(q)
            if c:
                out.update(c.methods)
        return out

    def field_types(self, clsqual):
        """attribute -> class qual, from `self.a = X(...)` in any method (through the MRO)."""
        c = self.classes.get(clsqual)
        if c is None:
            return {}
        if c._fields is not None:
            return c._fields
        out = {}
        for q in reversed(self.mro(clsqual)):
            k = self.classes.get(q)
            if not k:
                continue
            for f in list(k.methods.values()) + list(k.setters.values()):
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call):
                        t = self.resolve_expr(f.module, n.value.func)
                        if t in self.classes:
                            for tg in n.targets:
                                if isinstance(tg, ast.Attribute) and isinstance(tg.value, ast.Name) and tg.value.id == 'self':
                                    out[tg.attr] = t
        c._fields = out
        return out


def _builtin_sub(a, b):
    if not (a or '').startswith('builtins.') or not (b or '').startswith('builtins.'):
        return False
    x, y = getattr(builtins, a[9:], None), getattr(builtins, b[9:], None)
    return isinstance(x, type) and isinstance(y, type) and issubclass(x, y)
