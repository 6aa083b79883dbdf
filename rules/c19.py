"""Policy for rejected items while reading: every handler of a library error in the readers reports the item; in the XML reader it
re-raises exactly when not forced; and every setter that takes a force option is given the reader's own."""
import ast

from sa.typestate import Pairing

EXPLANATION = __doc__

REPORT = {'error', 'warning', 'critical', 'exception', 'log'}


class Handler(Pairing):
    """which paths of an exception handler raise / do not, under which value of force"""

    def __init__(self):
        super().__init__(lambda c: ('report', '*') if isinstance(c.func, ast.Attribute) and c.func.attr in REPORT else None, lambda c: None)

    def harmless(self, c):
        return True


def force_of(state):
    for d, v, names in state[1]:
        if "attr='force'" in d or "id='force'" in d:
            return v
    return None


def reporters(p):
    """functions every path of which reports (a reporting helper)"""
    out = set()
    for q, f in p.functions.items():
        if f.module.name.startswith('lgr.parser') and any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in REPORT
                                                          for n in f.node.body[-1:] + f.node.body for n in ast.walk(n)):
            out.add(f.name)
    return out


def run(c, tier):
    p = c.p
    helpers = reporters(p)
    n = 0
    for q, f in sorted(p.functions.items()):
        if not f.module.name.startswith('lgr.parser.') or f.parent is not None:
            continue
        xml = f.module.name.endswith('xml_parser')
        for node in ast.walk(f.node):
            if isinstance(node, ast.ExceptHandler):
                types = node.type.elts if isinstance(node.type, ast.Tuple) else [node.type]
                names = {(p.resolve_expr(f.module, t) or '') if t is not None else 'builtins.BaseException' for t in types}
                lgr_exc = any(x.startswith('lgr.exceptions.') or x in ('builtins.Exception', 'builtins.BaseException') for x in names)
                if not lgr_exc and 'builtins.ValueError' not in names:
                    continue
                c.analysed(f)
                n += 1
                loc = '%s:%d' % (f.module.rel, node.lineno)
                h = Handler()
                if any(isinstance(x, ast.Call) and (isinstance(x.func, ast.Attribute) and x.func.attr in helpers and
                                                     isinstance(x.func.value, ast.Name) and x.func.value.id == 'self'
                                                     or isinstance(x.func, ast.Name) and x.func.id in helpers) for s in node.body for x in ast.walk(s)):
                    c.ob('reported', f.qual, True, loc)
                    continue
                o = h.block(node.body, {(frozenset(), frozenset())})
                silent = [s for s in o.normal | o.ret | o.brk | o.cont if not s[0]]
                c.ob('reported', f.qual, not silent, loc, 'a rejected item is dropped without being reported')
                if xml and lgr_exc:
                    swallow = [s for s in o.normal | o.ret | o.brk | o.cont if force_of(s) is not True]
                    c.ob('refused-unless-forced', f.qual, not swallow, loc, 'the error is swallowed although reading is not forced')
                    fatal = [s for s in o.exc if force_of(s) is not False]
                    c.ob('forced-reading-continues', f.qual, not fatal, loc, 'the error aborts a forced reading')
            if xml and isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute):
                cands = [g for g in p.by_name.get(node.func.attr, []) if g.cls is not None and g.cls.qual in (
                    'lgr.core.LGR', 'lgr.metadata.Metadata') and 'force' in g.params]
                if len(cands) == 1:
                    v = [k.value for k in node.keywords if k.arg == 'force']
                    star = any(k.arg is None for k in node.keywords)
                    ok = star or bool(v) and (isinstance(v[0], ast.Attribute) and v[0].attr == 'force' or isinstance(v[0], ast.Name))
                    c.ob('force-handed-over', '%s->%s' % (f.qual, node.func.attr), ok, '%s:%d' % (f.module.rel, node.lineno),
                         '%s is called without the force option of the reader' % node.func.attr)
    c.at_least('reported', 8)
    c.at_least('force-handed-over', 8)
