"""Writing an LGR to XML: the writer's guarded effects are those of its reference, and every element and attribute name it
writes is one of the vocabulary the reader knows."""
import ast
import re

from sa.base import *

EXPLANATION = __doc__
WORD = re.compile(r'[a-z]+(?:[-_][a-z]+)*')


def constants(p, module):
    for n in ast.walk(module.tree):
        if isinstance(n, ast.Constant) and isinstance(n.value, str):
            yield n.value


def written(tree):
    """(name, node) of the element and attribute names handed to the XML library"""
    keys = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Call):
            f = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, 'id', '')
            if f in ('Element', 'SubElement'):
                for a in n.args:
                    yield from strings(a)
                for k in n.keywords:
                    if k.arg not in (None, 'nsmap', 'attrib'):
                        yield k.arg, n
            elif f == 'set' and len(n.args) == 2:
                yield from strings(n.args[0])
        elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store):
            yield from strings(n.slice)
        elif isinstance(n, ast.Dict) and not isinstance(getattr(n, '_parent', None), ast.Module):
            for k in n.keys:
                if k is not None:
                    yield from strings(k)
        elif isinstance(n, ast.For) and isinstance(n.iter, (ast.Tuple, ast.List)):
            for e in n.iter.elts:
                yield from strings(e)


def strings(n):
    if isinstance(n, ast.Constant) and isinstance(n.value, str) and WORD.fullmatch(n.value):
        yield n.value, n
    elif isinstance(n, ast.IfExp):
        yield from strings(n.body)
        yield from strings(n.orelse)


def vocabulary(c):
    p = c.p
    w, r = p.modules.get('lgr.parser.xml_serializer'), p.modules.get('lgr.parser.xml_parser')
    if w is None or r is None:
        raise AnalysisBroken('the XML reader or writer is gone')
    known = set()
    for s in constants(p, r):
        known |= set(WORD.findall(s))
    seen = {}
    for f in [f for f in p.functions.values() if f.module is w and not getattr(f, 'is_spec', False)]:
        for name, node in written(f.node):
            seen.setdefault(name.replace('_', '-'), (f, node))
    for name, (f, node) in sorted(seen.items()):
        c.ob('vocabulary', name, name in known, '%s:%d' % (w.rel, node.lineno),
             'the writer writes %r, which the reader never reads' % name)
    c.at_least('vocabulary', 3)


def run(c, tier):
    c.part(vocabulary)
