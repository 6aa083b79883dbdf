#!/usr/bin/env python3
"""Development aid: start a reference file from the current source of a module (docstrings, comments and logging dropped).
The result is reviewed and edited by hand before it is used as a reference.

usage: mkspec.py lgr.core [name ...]     (writes specs/lgr__core.py)
"""
import ast, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa.project import Project

LOG = {'debug', 'info', 'warning', 'error', 'critical', 'log', 'exception'}


def is_log(n):
    return isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) \
        and n.value.func.attr in LOG and isinstance(n.value.func.value, ast.Name) and 'log' in n.value.func.value.id


class Strip(ast.NodeTransformer):
    def generic_visit(self, node):
        super().generic_visit(node)
        for fld in ('body', 'orelse', 'finalbody'):
            b = getattr(node, fld, None)
            if isinstance(b, list):
                b = [x for x in b if not is_log(x)]
                if b and isinstance(node, (ast.FunctionDef, ast.ClassDef, ast.Module)) and isinstance(b[0], ast.Expr) \
                        and isinstance(b[0].value, ast.Constant):
                    b = b[1:]
                if fld == 'body' and not b and not isinstance(node, ast.Module):
                    b = [ast.Pass()]
                setattr(node, fld, b)
        return node


def main():
    p = Project()
    m = p.modules[sys.argv[1]]
    names = set(sys.argv[2:])
    t = Strip().visit(m.tree)
    out = ['# Reference behaviour of %s (parsed by the checks, never executed).' % m.name]
    for n in t.body:
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            if isinstance(n, ast.ImportFrom) and n.level:
                parts = m.name.split('.')
                if not m.is_pkg:
                    parts = parts[:-1]
                parts = parts[:len(parts) - (n.level - 1)]
                n.module = '.'.join(parts + ([n.module] if n.module else []))
                n.level = 0
            out.append(ast.unparse(n))
    for n in t.body:
        if isinstance(n, ast.Assign) and 'getLogger' not in ast.unparse(n.value):
            out.append(ast.unparse(n))
    for n in t.body:
        if isinstance(n, ast.FunctionDef) and (not names or n.name in names):
            out.append('\n\n' + ast.unparse(n))
        elif isinstance(n, ast.ClassDef):
            body = [x for x in n.body if isinstance(x, (ast.FunctionDef, ast.Assign, ast.AnnAssign)) and
                    not (isinstance(x, ast.Assign) and any(ast.unparse(t).startswith('__') for t in x.targets)
                         and isinstance(x.value, ast.Constant))]
            if body or n.bases:
                n.body, n.keywords, n.decorator_list = body or [ast.Pass()], [], []
                out.append('\n\n' + ast.unparse(n))
    with open(os.path.join(HERE, 'specs', m.name.replace('.', '__') + '.py'), 'w') as fh:
        fh.write('\n'.join(out) + '\n')


main()
