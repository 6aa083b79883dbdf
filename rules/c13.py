"""A refused change leaves the object as it was: in each operation, with its collaborators inlined, no store
reachable from the object happens on a path that goes on to raise (guard conjunction must be unsatisfiable)."""
import ast

from sa.base import *

EXPLANATION = __doc__

ENTRIES = {
    'lgr.core.LGR': 'add_cp add_range add_variant add_reference del_reference add_action add_rule add_class del_cp del_range '
                    'del_variant del_tag expand_range',
    'lgr.metadata.Metadata': 'add_language set_languages set_date set_validity_start set_validity_end set_unicode_version',
    'lgr.metadata.ReferenceManager': 'add_reference del_reference update_reference',
    'lgr.rule.Rule': 'add_child',
    'lgr.matcher.CompoundMatcher': 'add_child',
    'lgr.classes.CombinatorClass': 'add_child',
    'lgr.char.Repertoire': 'add_char del_char add_range del_range add_variant del_variant',
    'lgr.char.CharBase': 'add_variant del_variant',
    'lgr.char.RangeChar': 'add_variant del_variant',
}
MUTATORS = {'append', 'add', 'remove', 'discard', 'pop', 'clear', 'update', 'extend', 'insert', 'sort', 'reverse', 'popitem',
            '__setitem__', '__delitem__'}
STORES = {'emit', 'emit_all', 'store_attr', 'store_sub', 'aug', 'del_attr', 'del_sub', 'global_store'}
# raise statements that cannot be reached once the store happened, for a reason no guard expresses:
#   (operation, exception, raising function): why
UNREACHABLE = {
    ('LGR.add_range', 'CharAlreadyExists', '_add_char'): 'every code point of the range was found absent before the first insertion',
    ('LGR.add_range', 'CharAlreadyExists', 'add_range'): 'same, first test of the insertion itself',
    ('Repertoire.add_range', 'CharAlreadyExists', '_add_char'): 'same',
    ('Repertoire.add_range', 'RangeAlreadyExists', 'add_range'): 'the overlap check only sorts the list of ranges',
    ('LGR.del_cp', 'CharAlreadyExists', '_add_char'): 'the code points were removed by the expansion just before',
    ('LGR.del_cp', 'NotInLGR', 'del_char'): 'the expansion has re-inserted the code point',
    ('LGR.del_cp', 'NotInLGR', 'del_range'): 'a registered range holds all its code points',
    ('LGR.expand_range', 'CharAlreadyExists', '_add_char'): 'the code points were removed just before',
    ('LGR.expand_range', 'NotInLGR', 'del_range'): 'a registered range holds all its code points',
    ('LGR.del_range', 'NotInLGR', 'del_range'): 'a registered range holds all its code points',
    ('Repertoire.del_range', 'NotInLGR', 'del_range'): 'a registered range holds all its code points',
    ('Metadata.add_language', 'LGRFormatException', 'add_language'): 'appending raises no encoding error',
}


# the state the reasons above are about
CODE_POINTS = {'_chardict', 'ranges', 'languages'}


def state(t):
    """the attributes on the way from the object to what is stored"""
    out = set()
    while True:
        if t.op == 'attr':
            out.add(t.args[1])
        if t.op in ('attr', 'sub', 'elem', 'index'):
            t = t.args[0]
        elif t.op == 'call' and receiver(t) is not None:
            t = receiver(t)
        elif t.op == 'last':
            t = t.args[-1]
        else:
            return out


def root(t):
    while True:
        if t.op in ('attr', 'sub', 'elem', 'index'):
            t = t.args[0]
        elif t.op == 'call' and receiver(t) is not None:
            t = receiver(t)
        elif t.op == 'last':
            t = t.args[-1]
        else:
            return t


def mutating_methods(p):
    """names of methods that store in their object in every class that has them"""
    out = {}
    for q, f in p.functions.items():
        if not (q.rsplit('.', 2)[-2][:1].isupper() and isinstance(f.node, ast.FunctionDef)) or q.endswith('__'):
            continue
        name = q.rsplit('.', 1)[1]
        def own(n):
            while isinstance(n, (ast.Attribute, ast.Subscript)):
                if isinstance(n.value, ast.Name) and n.value.id == 'self':
                    return True
                n = n.value
            return False
        st = any(own(t) for n in ast.walk(f.node) for t in (n.targets if isinstance(n, (ast.Assign, ast.Delete)) else
                                                            [n.target] if isinstance(n, ast.AugAssign) else
                                                            [n.func.value] if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)
                                                            and n.func.attr in MUTATORS else []))
        out[name] = out.get(name, True) and st
    return {n for n, v in out.items() if v}


def stores(x, mutators=MUTATORS):
    found = []
    for e in x.effects:
        t = None
        if e.kind in STORES:
            t = e.target
        elif e.kind == 'call' and callee_name(e.term) in mutators:
            t = receiver(e.term)
        if t is not None and root(t).op in ('self', 'param'):
            found.append((e, t))
    restored = {(t, e.extra.get('attr')) for e, t in found if e.kind == 'store_attr' and e.in_finally}
    return [(e, t) for e, t in found if (t, e.extra.get('attr')) not in restored or e.kind != 'store_attr']


def run(c, tier):
    inl = [q for q in c.p.functions if q.rsplit('.', 2)[0].startswith(('lgr.char', 'lgr.core', 'lgr.metadata', 'lgr.classes',
                                                                       'lgr.rule', 'lgr.matcher'))]
    mutators = MUTATORS | mutating_methods(c.p)
    for cls, names in ENTRIES.items():
        for n in names.split():
            f = c.p.functions.get(cls + '.' + n)
            if f is None:
                continue
            entry = cls.rsplit('.', 1)[1] + '.' + n
            x = c.ctx(cls + '.' + n, inline=inl)
            ms = stores(x, mutators)
            done = set()
            for r in x.of('raise'):
                if r.caught:
                    continue
                if r.stack and (x.an.exc_type(r.term) or '').endswith('AssertionError'):
                    continue        # the assertions of the collaborators repeat those of the operation
                q = (x.an.exc_type(r.term) or '?').rsplit('.', 1)[-1]
                bad = None
                for m, t in ms:
                    if not (m.order < r.order or m.loop_ids & r.loop_ids):
                        continue
                    if r.stack and m.stack and m.node is r.node:
                        continue
                    g = And(m.cond, r.cond)
                    if g is FALSE or not x.feasible(g):
                        continue
                    if (entry, q, r.func.name) in UNREACHABLE and state(t) & CODE_POINTS:
                        continue
                    bad = (m, t)
                    break
                c.ob('no-store-before-refusal', '%s:%s@%s' % (entry, q, r.func.name), bad is None, r.loc,
                     '%s is raised after %s was modified at %s' % (q, pretty(bad[1])[:80] if bad else '', bad[0].loc if bad else ''))
    c.at_least('no-store-before-refusal', 60)
