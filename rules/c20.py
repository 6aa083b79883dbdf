"""Checking, querying, comparing and reporting functions leave the rulesets they are given unchanged: interprocedural effect
analysis (stores reachable from each parameter, closed over the call graph)."""
from sa.base import *
from sa.conform import spec_library
from sa.purity import Purity
from rules import modstate

EXPLANATION = __doc__
ASSUMPTIONS = ['memoised patterns (Rule), the RFC 7940 check log and the expansion of ranges before a comparison are not counted as changes']

MODULES = ('lgr.validate', 'lgr.tools.compare', 'lgr.tools.annotate', 'lgr.tools.diff_collisions', 'lgr.tools.idn_review',
           'lgr.tools.idna2008_compliance', 'lgr.parser.xml_serializer', 'lgr.mixed_scripts_variant_filter', 'lgr.action', 'lgr.utils')
QUERIES = {
    'lgr.core.LGR': 'test_label_eligible compute_label_disposition compute_label_disposition_summary estimate_variant_number '
                    'generate_index_label check_cp check_range get_variants get_variant get_char get_tag_classes all_tags effective_actions '
                    'effective_actions_xml cp_in_script validate get_rfc7940_validation __getstate__ _test_eligibility '
                    '_test_preliminary_eligibility _test_label_disposition _apply_actions _generate_label_variants _get_prefix_list '
                    '_generate_label_partitions _generate_index_label_on_partition _test_context_rules _check_convert_cp',
    'lgr.char.Repertoire': '__contains__ __getitem__ __iter__ __len__ all_repertoire get_char get_variants get_variant get_variant_sets '
                           'get_chars_from_prefix',
    'lgr.char.CharBase': 'get_variants get_variant get_reflexive_variants has_variant is_prefix_of as_index',
    'lgr.rule.Rule': 'matches validate get_pattern', 'lgr.classes.Class': 'get_pattern validate',
    'lgr.metadata.Metadata': 'get_scripts',
}
# parameters that are the result under construction
RESULTS = {('lgr.tools.compare.union.union_char', 'lgr'), ('lgr.tools.compare.intersect.intersect_char', 'lgr'),
           ('lgr.tools.idn_review.variant_sets.VariantSetsReport.get_variant_data', 'reversed_variants')}
OPAQUE = {'lgr.core.LGR.expand_ranges', 'lgr.core.LGR.notify_error', 'lgr.core.LGR.notify_tested', 'lgr.rfc7940.LGRFormatTestResults.error',
          'lgr.rfc7940.LGRFormatTestResults.tested', 'lgr.rfc7940.LGRFormatTestResults.add_test_result', 'lgr.rule.Rule.precalculate_patterns'}


def ignore(f, e, t):
    return f.module.name in ('lgr.rule', 'lgr.memoize') and any(
        s.op == 'attr' and isinstance(s.args[1], str) and 'cache' in s.args[1] for s in subterms(t))


def run(c, tier):
    lib = spec_library(c.p)
    before = dict(c.funcs)
    pu = Purity(c, ignore, OPAQUE)
    c.funcs = before
    entries = []
    for q in sorted(lib):
        f = c.p.functions.get(q)
        if f is None or f.parent is not None or getattr(f, 'is_spec', False):
            continue
        if q.startswith(MODULES) and '.__init__' not in q and f.cls is None and not f.name.startswith('_'):
            entries.append(f)
    for cls, names in QUERIES.items():
        entries += [c.p.functions[cls + '.' + n] for n in names.split() if cls + '.' + n in c.p.functions]
    for f in entries:
        c.analysed(f)
        for pn in ['self' if f.is_method and i == 0 else n for i, n in enumerate(f.params)]:
            if (f.qual, pn) in RESULTS:
                continue
            why = pu.direct.get(f.qual, {}).get(pn)
            c.ob('read-only', '%s<%s>' % (f.qual, pn), why is None, why[0][0] if why else f.loc(),
                 '%s of %s is modified: %s' % (pn, f.qual, '; '.join('%s %s' % w for w in why) if why else ''))
    c.at_least('read-only', 200)
    modstate.run(c)
