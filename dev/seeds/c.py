SEEDS = [
dict(id='s07-reverse-of-sequence', property='C22',
 edits=[('lgr/validate/symmetry.py', "                if a.cp == v.cp:\n", "                if a.cp == v.cp or (len(v.cp) > len(a.cp) and a.is_prefix_of(v.cp)):\n")],
 needs='a variant whose only mapping back is to a sequence that starts with the code point',
 what_it_breaks='a missing symmetric variant is not reported when the variant maps to a longer sequence with the same start',
 demo='''
from lgr.validate.symmetry import check_symmetry
l = lgr_of('<char cp="0061"><var cp="0062" type="blocked"/></char><char cp="0061 0063"><var cp="0062" type="blocked"/></char>'
           '<char cp="0062"><var cp="0061 0063" type="blocked"/></char>')
ok, res = check_symmetry(l, {})
check(ok, False, 'a -> b has no b -> a')
'''),
dict(id='s08-transitivity-back', property='C22',
 edits=[('lgr/validate/transitivity.py', "if var.cp != a.cp", "if var.cp[0] != a.cp[0]")],
 needs='a chain of variants whose end is a sequence starting with the first code point',
 what_it_breaks='missing transitive variants to sequences that share the first code point of the source are not reported',
 demo='''
from lgr.validate.transitivity import check_transitivity
l = lgr_of('<char cp="0061"><var cp="0062" type="blocked"/></char><char cp="0061 0063"><var cp="0062" type="blocked"/></char>'
           '<char cp="0062"><var cp="0061" type="blocked"/><var cp="0061 0063" type="blocked"/></char>')
ok, res = check_transitivity(l, {})
check(ok, False, 'a -> b -> a c, no a -> a c')
'''),
dict(id='s10-annotate-rules-or', property='C28',
 edits=[('lgr/tools/annotate.py', 'reason="not in repertoire" if rules is None else', 'reason="not in repertoire" if len(label_invalid_parts) > 1 or rules is None else')],
 needs='a label with two code points that fail their context rules',
 what_it_breaks='code points that do not comply with their rules are reported as not in the repertoire',
 demo='''
from lgr.tools.annotate import annotate
l = lgr_of('<char cp="0061" when="first"/><char cp="0062"/>',
           '<rule name="first"><look-behind><start/></look-behind><anchor/></rule>')
got = ''.join(annotate(l, ['baa']))
check('not in repertoire' in got, False, 'both a are in the repertoire, but not at the start')
'''),
dict(id='s11-harmonize-type', property='C26',
 edits=[('lgr/tools/harmonize.py', "                h_lgr_1.add_variant(variant_cp, variant_cp, variant_type='out-of-repertoire'", "                h_lgr_1.add_variant(variant_cp, variant_cp, variant_type='blocked' if len(variant_cp) > 1 else 'out-of-repertoire'")],
 needs='a sequence that is variant in the second LGR only and not in the repertoire of the first',
 what_it_breaks='a sequence added to the first LGR gets a blocked mapping to itself instead of out-of-repertoire: it is not recognised as out of its repertoire',
 demo='''
from lgr.tools.harmonize import harmonize
a = lgr_of('<char cp="0061"/>')
b = lgr_of('<char cp="0061"><var cp="0062 0063" type="blocked"/></char><char cp="0062 0063"><var cp="0061" type="blocked"/></char>')
h, _, _ = harmonize(a, b)
check([v.type for v in h.get_variants([0x62, 0x63]) if v.cp == (0x62, 0x63)], ['out-of-repertoire'], 'reflexive mapping of b c')
'''),
dict(id='s12-comment-diff', property='C25',
 edits=[('lgr/tools/compare/diff.py', '        output += compare_things(first.comment, second.comment, "version comment",\n                                 show_same=show_same)\n', '        if first.value == second.value or show_same:\n            output += compare_things(first.comment, second.comment, "version comment",\n                                     show_same=show_same)\n')],
 needs='two LGRs whose versions differ in number and in comment',
 what_it_breaks='the difference of the version comments is not reported when the version numbers differ too',
 demo='''
from lgr.metadata import Version
from lgr.tools.compare.diff import diff_version
got = diff_version(Version('1', 'draft'), Version('2', 'final'))
check('Version comment values differ' in got, True, 'comment difference reported')
'''),
]
