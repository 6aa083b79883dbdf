SEEDS = [
dict(id='s03-only-variants-untyped', property='C02',
 edits=[('lgr/action.py', "            variant_matched = (only_variants\n                               and len(disp_set) > 0\n                               and disp_set.issubset(self.only_variants))\n", "            variant_matched = only_variants and disp_set <= self.only_variants\n")],
 needs='an only-variants action and a variant label all the mappings of which have no type',
 what_it_breaks='an only-variants action is triggered by a label whose variant mappings carry none of its types: the label gets the disposition of that action instead of the one of the first action that matches',
 demo='''
l = lgr_of('<char cp="0061"><var cp="0062"/></char><char cp="0062"/>',
           '<action disp="allocatable" only-variants="allocatable"/><action disp="review"/>')
got = {v[0]: v[1] for v in l.compute_label_disposition([0x61])}
check(got[(0x62,)], 'review', 'disposition of the variant b of a')
'''),
dict(id='s04-intersection-operand', property='C08',
 edits=[('lgr/classes.py', "        # __and__ does make a copy of the set\n        cp_set = set_1 & set_2\n", "        # an empty operand does not restrict the other one\n        cp_set = set_1 & set_2 if set_1 and set_2 else set_1 or set_2\n")],
 needs='an intersection one operand of which is empty (an unused tag, say)',
 what_it_breaks='the intersection with an empty class gives the other class instead of the empty set',
 demo='''
l = lgr_of('<char cp="0061" tag="t"/><char cp="0062" tag="t"/><char cp="0063"/>',
           '<intersection name="d"><class from-tag="t"/><class from-tag="unused"/></intersection>')
d = l.classes_lookup['d']
got = d.get_pattern(l.rules_lookup, l.classes_lookup, UNIDB, as_set=True)
check(set(got), set(), 'intersection with an empty class')
'''),
dict(id='s05-variant-refs', property='C16',
 edits=[('lgr/parser/xml_serializer.py', "            if len(variant.references) > 0:\n", "            if len(variant.references) > len(char.references):\n")],
 needs='a variant with references on a code point that has as many',
 what_it_breaks='references of a variant are not written to the XML',
 demo='''
from lgr.parser.xml_serializer import serialize_lgr_xml
meta = '<references><reference id="0">Zero</reference></references>'
l = lgr_of('<char cp="0061" ref="0"><var cp="0062" ref="0" type="blocked"/></char><char cp="0062"/>', meta=meta)
check(b'<var type="blocked" ref="0" cp="0062"/>' in serialize_lgr_xml(l), True, 'reference written on the variant')
'''),
dict(id='s06-scope-eq', property='C29',
 edits=[('lgr/metadata.py', "               and (self.scope_type == other.scope_type)", "               and (self.scope_type or 'domain') == (other.scope_type or 'domain')")],
 needs='two scopes of the same name, one with type domain and one without type',
 what_it_breaks='two scopes that are equal have different hashes: a set keeps both',
 demo='''
from lgr.metadata import Scope
a, b = Scope('.', 'domain'), Scope('.')
check(a != b or hash(a) == hash(b), True, 'equal scopes have equal hashes')
'''),
]
