import ast, sys, textwrap


def sub(path, pairs):
    s = open(path, encoding='utf-8').read()
    for a, b in pairs:
        assert s.count(a) == 1, (path, a, s.count(a))
        s = s.replace(a, b)
    open(path, 'w', encoding='utf-8').write(s)


def redef(path, qual, new):
    """replace a function or method by new source (which may define more than one function)"""
    s = open(path, encoding='utf-8').read()
    node = ast.parse(s)
    for part in qual.split('.'):
        node = [n for n in node.body if getattr(n, 'name', None) == part][-1]
    lines = s.split('\n')
    start = min([node.lineno] + [d.lineno for d in node.decorator_list]) - 1
    body = textwrap.indent(textwrap.dedent(new).strip('\n'), ' ' * node.col_offset)
    lines[start:node.end_lineno] = body.split('\n')
    open(path, 'w', encoding='utf-8').write('\n'.join(lines))


def strip(path):
    """the source without comments and docstrings, as ast.unparse writes it"""
    import ast
    t = ast.parse(open(path).read())
    for n in ast.walk(t):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            n.body = n.body[1:] or [ast.Pass()]
    open(path, 'w').write(ast.unparse(t) + '\n')
