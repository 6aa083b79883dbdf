"""Context rules gate every use of a character or variant."""
from sa.base import *
from sa.rulelib import *

EXPLANATION = ('Guarded-effect summaries of the functions that admit characters and variants while a label is evaluated: '
               'every admission must be guarded by the context-rule test of that very character or variant, on the label '
               'being formed and at its offset; the context-rule test itself must be the when / not-when truth table.')


def gated(c, x, e, subj, label, offs, what):
    """e is guarded by the context test of subj on `label` at offset `offs`."""
    g = eff_guard(e)
    cands = [a for a, v in literals(And(g, axioms_for(support(g), c.p))) if v and a.op == 'truthy'
             and callee_name(a.args[0]) == '_test_context_rules']
    bad = None
    for a in cands:
        t = a.args[0]
        if arg(t, 'char', 0) is not subj:
            continue
        lb, ix = arg(t, 'orig_label', 1), arg(t, 'index', 2)
        if not label(lb):
            bad = 'the rule is evaluated on %s' % pretty(lb)
            continue
        if not offs(ix):
            bad = 'the rule is evaluated at offset %s' % pretty(ix)
            continue
        return c.ob('context-gate', what, True, e.loc)
    return c.ob('context-gate', what, False, e.loc, '%s is used without its context rule being satisfied (%s); guard: %s' % (
        pretty(subj), bad or 'no such test dominates', pretty_guard(g)[:400]))


def r1(c):
    """truth table of the context-rule test"""
    x = c.ctx('lgr.core.LGR._test_context_rules')
    m = lambda r: x.g('self.rules_lookup[%s].matches(orig_label, self.rules_lookup, self.classes_lookup, '
                      'self._unicode_database, char.cp, index)' % r)
    want = ite(x.g('char.when is None'), ite(x.g('char.not_when is None'), TRUE, Not(m('char.not_when'))), m('char.when'))
    got = x.return_truth()
    c.ob('context-test-table', 'when-not-when', x.equiv(got, want), x.func.loc(),
         'the context-rule test returns true if [%s], expected [%s]' % (pretty_guard(got), pretty_guard(want)))
    c.ob('context-test-table', 'total', x.equiv(x.return_guard(), TRUE), x.func.loc(), 'some path does not answer')


def r2(c):
    """preliminary eligibility"""
    x = c.ctx('lgr.core.LGR._test_preliminary_eligibility')
    label = x.x('label')
    n = 0
    for e in x.of('emit'):
        v = strip_last(e.value)
        ch = prefix_char(v)
        if v is not ch or ch is None:
            continue
        n += 1
        pos = position_of(ch, label)
        gated(c, x, e, ch, lambda t: t is label, lambda t: pos is not None and same_var(t, pos), 'eligibility:char')
    c.ob('context-gate', 'eligibility:sites', n >= 1, x.func.loc(), 'no admitted character found in the eligibility test')


def r3(c):
    """reflexive disposition"""
    x = c.ctx('lgr.core.LGR._test_label_disposition')
    label = x.x('label')
    n = 0
    for e in x.of('emit', 'emit_all'):
        for var in variant_elems(e.value):
            n += 1
            ch = receiver(var.args[0])
            gated(c, x, e, var, lambda t: t is label, lambda t: True, 'reflexive:variant')
            gated(c, x, e, strip_last(ch), lambda t: t is label, lambda t: True, 'reflexive:char')
            offs = {arg(a.args[0], 'index', 2) for a in support(eff_guard(e)) if a.op == 'truthy'
                    and callee_name(a.args[0]) == '_test_context_rules'}
            pos = position_of(strip_last(ch), label)
            c.ob('context-gate', 'reflexive:offset', len(offs) == 1 and pos is not None and same_var(list(offs)[0], pos),
                 e.loc, 'context rules of the reflexive mapping are tested at %s' % ', '.join(map(pretty, offs)))
    c.ob('context-gate', 'reflexive:sites', n >= 1, x.func.loc(), 'no reflexive variant admitted')


def r4(c):
    """prefix list of the variant generation"""
    x = c.ctx('lgr.core.LGR._get_prefix_list')
    n = 0
    lab, pre = x.x('label'), x.x('label_prefix')
    for e in x.of('emit', 'yield'):
        ch = prefix_char(strip_last(e.value))
        if ch is None or strip_last(e.value) is not ch:
            continue
        n += 1
        full = x.x('label_prefix + p.cp + tuple(label[len(p):])', p=ch)
        gated(c, x, e, ch, lambda t: concat_eq(t, full), lambda t: t is x.x('len(label_prefix)'), 'prefix-list:char')
    c.ob('context-gate', 'prefix-list:sites', n >= 1, x.func.loc(), 'no prefix admitted')


def r5(c):
    """variant generation"""
    x = c.ctx('lgr.core.LGR._generate_label_variants')
    n = 0
    for e in x.of('emit'):
        for var in variant_elems(e.value, direct=True):
            n += 1
            ch = strip_last(receiver(var.args[0]))
            full = x.x('p + v.cp + tuple(label[len(ch):])', p=prefix_param(x, 'label_prefix'), v=var, ch=ch)
            gated(c, x, e, var, lambda t: concat_eq(t, full),
                  lambda t: t is x.x('len(p)', p=prefix_param(x, 'label_prefix')), 'variants:variant')
    c.ob('context-gate', 'variants:sites', n >= 1, x.func.loc(), 'no variant admitted in the generation')


def r6(c):
    """partitions"""
    x = c.ctx('lgr.core.LGR._generate_label_partitions')
    n = 0
    for e in x.of('emit', 'yield'):
        chs = [t for t in subterms(e.value) if t.op == 'elem' and callee_name(t.args[0]) == 'get_chars_from_prefix']
        for ch in chs:
            if not is_direct_item(e.value, ch):
                continue
            n += 1
            p = prefix_param(x, 'prefix')
            full = x.x('p + tuple(label)', p=p)
            gated(c, x, e, ch, lambda t: concat_eq(t, full), lambda t: t is x.x('len(p)', p=p), 'partition:char')
    c.ob('context-gate', 'partition:sites', n >= 2, x.func.loc(), 'expected partitions built from the characters found')


def r7(c):
    """index label"""
    x = c.ctx('lgr.core.LGR._generate_index_label_on_partition')
    n = 0
    for e in x.of('emit', 'emit_all'):
        for var in variant_elems(e.value):
            n += 1
            ch = receiver(var.args[0])

            def lbl(t, var=var):
                parts = concat_parts(t)
                return len(parts) == 3 and parts[1] is T('attr', var, 'cp') and advances(x, parts[0], 'prefix', ch) \
                    and advances(x, parts[2], 'suffix', ch)
            gated(c, x, e, var, lbl, lambda t: advances(x, t, 'index', ch), 'index:variant')
    c.ob('context-gate', 'index:sites', n >= 1, x.func.loc(), 'no variant considered by the index label')


def run(c, tier):
    for part in (r1, r2, r3, r4, r5, r6, r7):
        c.part(part)
