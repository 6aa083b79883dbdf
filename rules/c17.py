"""No XML entry point resolves entities, loads DTDs or fetches from the network for a document handed in, and no code path
evaluates, unpickles or spawns anything from input: every call of the XML library is enumerated and its option values resolved."""
import ast

EXPLANATION = __doc__

PARSING = {'parse', 'iterparse', 'XML', 'fromstring', 'fromstringlist', 'HTML', 'XMLID', 'parseid', 'XMLPullParser', 'iterwalk', 'XMLDTDID'}
PARSERS = {'XMLParser', 'ETCompatXMLParser', 'HTMLParser', 'XMLPullParser'}
FORBIDDEN = {'builtins.eval', 'builtins.exec', 'builtins.compile', 'builtins.__import__', 'os.system', 'os.popen', 'pickle.load',
             'pickle.loads', 'marshal.load', 'marshal.loads', 'subprocess.run', 'subprocess.call', 'subprocess.Popen',
             'subprocess.check_output', 'subprocess.check_call', 'yaml.load', 'shelve.open', 'importlib.import_module', 'dill.loads'}
UNSAFE = {'resolve_entities': (False, 'internal'), 'load_dtd': (False,), 'no_network': (True,), 'huge_tree': (False,),
          'dtd_validation': (False,), 'attribute_defaults': (False,), 'recover': (False,)}
OTHER_XML = ('xml.sax', 'xml.dom', 'xml.etree', 'lxml.html', 'lxml.objectify')


def options(p, f, call, depth=0):
    """option name -> constant value (None when not a constant), or None when some options are unknown"""
    out = {}
    for k in call.keywords:
        if k.arg is not None:
            out[k.arg] = k.value.value if isinstance(k.value, ast.Constant) else ('?', ast.unparse(k.value))
            continue
        d = mapping(p, f, k.value)
        if d is None:
            return None
        out.update(d)
    return out


def mapping(p, f, node, depth=0):
    if depth > 4:
        return None
    if isinstance(node, ast.Dict):
        out = {}
        for k, v in zip(node.keys, node.values):
            if k is None:
                d = mapping(p, f, v, depth + 1)
                if d is None:
                    return None
                out.update(d)
            elif isinstance(k, ast.Constant):
                out[k.value] = v.value if isinstance(v, ast.Constant) else ('?', ast.unparse(v))
            else:
                return None
        return out
    if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == 'dict':
        out = {}
        for a in node.args:
            d = mapping(p, f, a, depth + 1)
            if d is None:
                return None
            out.update(d)
        for k in node.keywords:
            if k.arg is None:
                d = mapping(p, f, k.value, depth + 1)
                if d is None:
                    return None
                out.update(d)
            else:
                out[k.arg] = k.value.value if isinstance(k.value, ast.Constant) else ('?', ast.unparse(k.value))
        return out
    if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr == 'copy':
        return mapping(p, f, node.func.value, depth + 1)
    if isinstance(node, ast.BinOp) and isinstance(node.op, ast.BitOr):
        a, b = mapping(p, f, node.left, depth + 1), mapping(p, f, node.right, depth + 1)
        return None if a is None or b is None else dict(a, **b)
    if isinstance(node, ast.Attribute) and isinstance(node.value, ast.Name):
        cls = f.cls if node.value.id in ('self', 'cls') else p.classes.get(p.resolve_name(f.module, node.value.id))
        if cls is not None:
            for q in p.mro(cls.qual):
                k = p.classes.get(q)
                if k and node.attr in k.attrs:
                    return mapping(p, f, k.attrs[node.attr], depth + 1)
                if k and node.attr in k.methods:
                    return returned(p, k.methods[node.attr], depth)
            # instance attribute
            vals = [n.value for q in p.mro(cls.qual) if q in p.classes for g in p.classes[q].methods.values() for n in ast.walk(g.node)
                    if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == node.attr for t in n.targets)]
            if len(vals) == 1:
                return mapping(p, f, vals[0], depth + 1)
        return None
    if isinstance(node, ast.Call):
        g = None
        if isinstance(node.func, ast.Attribute) and isinstance(node.func.value, ast.Name) and node.func.value.id == 'self' and f.cls is not None:
            g = p.lookup_method(f.cls.qual, node.func.attr)
        elif isinstance(node.func, ast.Name):
            g = p.functions.get(p.resolve_name(f.module, node.func.id))
        return returned(p, g, depth) if g is not None else None
    if isinstance(node, ast.Name):
        vals = [n.value for n in ast.walk(f.node) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == node.id for t in n.targets)]
        if not vals:
            vals = f.module.assigns.get(node.id, [])
        if len(vals) != 1:
            return None
        out = mapping(p, f, vals[0], depth + 1)
        for n in ast.walk(f.node):           # later updates
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == node.id:
                return None
        return out
    return None


def returned(p, g, depth):
    rets = [n.value for n in ast.walk(g.node) if isinstance(n, ast.Return)]
    return mapping(p, g, rets[0], depth + 1) if len(rets) == 1 else None


def parser_value(p, f, node, depth=0):
    """options of the parser object an expression denotes"""
    if isinstance(node, ast.Call):
        q = p.resolve_expr(f.module, node.func) or ''
        if q.startswith('lxml.etree.') and q.rsplit('.', 1)[1] in PARSERS:
            return options(p, f, node)
        g = None
        if isinstance(node.func, ast.Attribute) and isinstance(node.func.value, ast.Name) and node.func.value.id == 'self' and f.cls is not None:
            g = p.lookup_method(f.cls.qual, node.func.attr)
        elif q in p.functions:
            g = p.functions[q]
        if g is not None and depth < 3:
            rets = [n.value for n in ast.walk(g.node) if isinstance(n, ast.Return)]
            if len(rets) == 1:
                return parser_value(p, g, rets[0], depth + 1)
        return None
    if isinstance(node, ast.Name):
        vals = [n.value for n in ast.walk(f.node) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == node.id for t in n.targets)]
        if not vals:
            vals = f.module.assigns.get(node.id, [])
        if len(vals) == 1 and depth < 3:
            return parser_value(p, f, vals[0], depth + 1)
    return None


def run(c, tier):
    p = c.p
    n = 0
    for q, f in sorted(p.functions.items()):
        if f.parent is not None:
            continue
        for call in [x for x in ast.walk(f.node) if isinstance(x, ast.Call)]:
            name = p.resolve_expr(f.module, call.func) or ''
            loc = '%s:%d' % (f.module.rel, call.lineno)
            if name in FORBIDDEN:
                c.ob('no-evaluation', '%s:%s' % (f.qual, name), False, loc, '%s is called' % name)
                continue
            if name.startswith(OTHER_XML):
                c.ob('xml-library', '%s:%s' % (f.qual, name), False, loc, '%s parses XML without the restricted options' % name)
                continue
            if not name.startswith('lxml.etree.'):
                continue
            short = name.rsplit('.', 1)[1]
            if short not in PARSING | PARSERS:
                continue
            c.analysed(f)
            n += 1
            # strings the library serialised itself, and a registry named on the command line, are not documents handed in
            internal = f.module.name in ('lgr.parser.xml_serializer', 'tools.make_idna_repertoire')
            opts = options(p, f, call)
            if short in ('parse', 'XML', 'fromstring', 'fromstringlist', 'XMLID', 'parseid'):
                pk = [k.value for k in call.keywords if k.arg == 'parser'] or list(call.args[1:2])
                opts = parser_value(p, f, pk[0]) if pk else {}
            if opts is None:
                c.ob('parser-options', '%s:%s' % (f.qual, short), False, loc, 'the options of this parser cannot be determined')
                continue
            bad = [(k, v) for k, v in opts.items() if k in UNSAFE and v not in UNSAFE[k]]
            if not internal and opts.get('resolve_entities', True) is not False:
                bad.append(('resolve_entities', opts.get('resolve_entities', True)))
            c.ob('parser-options', '%s:%s' % (f.qual, short), not bad, loc, 'XML is parsed with %s' % ', '.join('%s=%s' % b for b in bad))
    c.ob('no-evaluation', 'whole tree', True, 'lgr, tools')
    c.at_least('parser-options', 4)
