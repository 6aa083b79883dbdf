SEEDS = [
dict(id='s21-variant-inherits-comment', property='C15',
 edits=[('lgr/parser/xml_parser.py', "                    comment = variant.get('comment', None)\n", "                    comment = variant.get('comment', comment)\n")],
 needs='a code point with a comment that has a variant without one',
 what_it_breaks='the variant is read with the comment of its code point',
 demo='''
import io
from lgr.parser.xml_parser import XMLParser
doc = b"""<?xml version="1.0" encoding="utf-8"?>
<lgr xmlns="urn:ietf:params:xml:ns:lgr-1.0"><meta/><data>
<char cp="0061" comment="first"><var cp="0062" type="blocked"/></char><char cp="0062"/></data>
<rules><rule name="w"><look-behind><char cp="0062"/></look-behind><anchor/></rule></rules></lgr>"""
p = XMLParser(io.BytesIO(doc), 'x.xml')
l = p.parse_document()
check([(v.cp, v.comment) for v in l.get_variants([0x61])], [((0x62,), None)], 'variants read')
'''),
dict(id='s22-comment-bar', property='C18',
 edits=[('lgr/parser/rfc4290_parser.py', "            char_variant = line.split('#')[0].split('|')\n", "            char_variant = line.split(' #')[0].split('|')\n")],
 needs='a comment that follows the code point without a blank and has a bar in it',
 what_it_breaks='what stands in the comment after the bar becomes a variant',
 demo='''
import io
from lgr.parser.rfc4290_parser import RFC4290Parser
p = RFC4290Parser(io.StringIO('U+0061#letter|U+0062\\nU+0062\\n'), 'x.txt')
l = p.parse_document()
check([(c.cp, [v.cp for v in c.get_variants()]) for c in l.repertoire], [((0x61,), []), ((0x62,), [])], 'read')
'''),
dict(id='s23-forced-duplicate-variants', property='C19',
 edits=[('lgr/parser/xml_parser.py', """                    logger.error("Cannot add code point '%s': %s",
                                 format_cp(codepoint), exc)
                    self.rfc7940_checks.error('parse_xml')
                    self.rfc7940_checks.error('codepoint_valid')
                    if not self.force:
                        raise
""", """                    logger.error("Cannot add code point '%s': %s",
                                 format_cp(codepoint), exc)
                    self.rfc7940_checks.error('parse_xml')
                    self.rfc7940_checks.error('codepoint_valid')
                    if not self.force:
                        raise
                    continue
""")],
 needs='a forced reading of a file that lists a code point twice, the second time with a variant',
 what_it_breaks='the valid variants under a refused code point are dropped without a report',
 demo='''
import io
from lgr.parser.xml_parser import XMLParser
doc = b"""<?xml version="1.0" encoding="utf-8"?>
<lgr xmlns="urn:ietf:params:xml:ns:lgr-1.0"><meta/><data>
<char cp="0061"/><char cp="0061"><var cp="0062" type="blocked"/></char><char cp="0062"/></data></lgr>"""
p = XMLParser(io.BytesIO(doc), 'x.xml', force=True)
l = p.parse_document()
check([v.cp for v in l.get_variants([0x61])], [(0x62,)], 'variants kept')
'''),
dict(id='s24-union-language-order', property='C23',
 edits=[('lgr/tools/compare/union.py', """    output.languages = list(OrderedDict.fromkeys(list(first.languages) +
                                                 list(second.languages)))
""", """    output.languages = sorted(set(first.languages) | set(second.languages))
""")],
 needs='languages that are not listed in alphabetical order',
 what_it_breaks='the languages of the union are not in the order of the first LGR, so its first language (its script) is another one',
 demo='''
from lgr.metadata import Metadata
from lgr.tools.compare.union import union_metadata
a, b = Metadata(), Metadata()
a.languages = ['und-Latn', 'fr']
b.languages = ['de']
check(union_metadata(a, b).languages, ['und-Latn', 'fr', 'de'], 'languages')
'''),
dict(id='s25-pattern-cache-database', property='C30',
 edits=[('lgr/rule.py', "        cache_key = (id(rules_lookup), id(classes_lookup), id(unicode_database), is_look_behind)\n",
         "        cache_key = (id(rules_lookup), id(classes_lookup), is_look_behind)\n")],
 needs='a rule made of a property class, asked for with two Unicode databases',
 what_it_breaks='the pattern of the first database is used with the second',
 demo='''
from lgr.rule import Rule
class Match:
    def get_pattern(self, rules, classes, unidb, is_look_behind=False):
        return unidb.pattern
class DB:
    def __init__(self, pattern):
        self.pattern = pattern
r = Rule('r')
r.add_child(Match())
rules, classes, one, two = {}, {}, DB('a'), DB('b')
check([r.get_pattern(rules, classes, one), r.get_pattern(rules, classes, two)], ['a', 'b'], 'patterns')
'''),
dict(id='s26-intersection-of-three', property='C09',
 edits=[('lgr/classes.py', """        if len(self._children) != 2:
            logger.error("'Intersection' class MUST""", """        if len(self._children) < 2:
            logger.error("'Intersection' class MUST""")],
 needs='an intersection with three elements',
 what_it_breaks='it is admitted, and its third element has no effect',
 demo='''
from lgr.classes import IntersectionClass, Class
from lgr.exceptions import LGRFormatException
c = IntersectionClass(name='i')
for n in (1, 2, 3):
    k = Class()
    k.add_codepoint(0x60 + n)
    c._children.append(k)
try:
    c.validate([], {}, {})
    check('admitted', 'refused', 'intersection of three')
except LGRFormatException:
    pass
'''),
dict(id='s27-sequence-in-repertoire', property='C12',
 edits=[('lgr/core.py', """        if validating_repertoire is not None:
            for cp in cp_or_sequence:
                cp_valid""", """        if validating_repertoire is not None:
            for cp in cp_or_sequence[:1]:
                cp_valid""")],
 needs='a sequence whose second code point is not in the validating repertoire',
 what_it_breaks='the sequence is admitted',
 demo='''
from lgr.core import LGR
from lgr.exceptions import NotInRepertoire
r = LGR()
r.add_cp([0x61])
l = LGR()
try:
    l.add_cp([0x61, 0x62], validating_repertoire=r)
    check('admitted', 'refused', 'sequence')
except NotInRepertoire:
    pass
'''),
dict(id='s28-validation-stops', property='C35',
 edits=[('lgr/validate/__init__.py', """            result.append((check_function.__name__, exc))
""", """            result.append((check_function.__name__, exc))
            break
""")],
 needs='a validation check that raises one of the library exceptions',
 what_it_breaks='the checks after it do not run and are not in the result',
 demo='''
import lgr.validate as v
from lgr.exceptions import LGRException
def bad(l, o):
    raise LGRException()
def good(l, o):
    return True, {}
v.CHECKS[:] = [bad, good]
check([n for n, _ in v.validate_lgr(None, {})], ['bad', 'good'], 'checks run')
'''),
dict(id='s29-no-rules-dump', property='C37',
 edits=[('tools/lgr_diff_collisions.py', "collision(lgr1, label_input, None, args.generate, args.no_rules)", "collision(lgr1, label_input, None, args.no_rules, args.generate)")],
 needs='a collision run on one LGR with only one of --generate and --no-rules',
 what_it_breaks='each of the two options does what the other says',
 demo='''
import sys, tempfile, os
sys.path.insert(0, 'tools')
d = tempfile.mkdtemp()
open(os.path.join(d, 'l.xml'), 'w').write('<?xml version="1.0"?><lgr xmlns="urn:ietf:params:xml:ns:lgr-1.0"><meta/><data><char cp="0061"/></data></lgr>')
open(os.path.join(d, 's.txt'), 'w').write('a\\n')
import lgr_diff_collisions as t
seen = []
t.collision = lambda lgr, labels, tlds, full_dump, no_rules: seen.append((full_dump, no_rules)) or []
t.write_output = lambda *a: None
t.LgrToolArgParser.get_unidb = lambda self: None
sys.argv = ['x', '-l', 'none', '-1', os.path.join(d, 'l.xml'), '-s', os.path.join(d, 's.txt'), '-g']
t.main()
import shutil
shutil.rmtree(d)
check(seen, [(True, False)], 'options')
'''),
dict(id='s30-unconditional-reverse', property='C32',
 edits=[('lgr/tools/idn_review/variant_sets.py', """        for v in self.get_rev_vars():
            if not v.when and not v.not_when:
""", """        for v in self.get_rev_vars():
            if not (v.when and v.not_when):
""")],
 needs='a reverse variant with a when or a not-when rule before the unconditional one',
 what_it_breaks='the type of the conditional variant is compared as that of the unconditional one',
 demo='''
from lgr.char import Variant
from lgr.tools.idn_review.variant_sets import VariantData
d = VariantData(True)
d.get_rev_vars = lambda: [Variant((0x62,), variant_type='blocked', when='w'), Variant((0x62,), variant_type='allocatable')]
check(d.get_rev_non_conditional_type(), 'allocatable', 'unconditional type')
'''),
dict(id='s31-scope-order', property='C31',
 edits=[('lgr/tools/compare/union.py', """    output.scopes = list(OrderedDict.fromkeys(list(first.scopes) +
                                              list(second.scopes)))
""", """    output.scopes = list(set(first.scopes).union(second.scopes))
""")],
 needs='two LGRs with several scopes, and another hash seed',
 what_it_breaks='the scopes of a union come in an order that changes from run to run',
 demo='''
import subprocess, sys, os
code = """from lgr.metadata import Metadata, Scope
from lgr.tools.compare.union import union_metadata
a, b = Metadata(), Metadata()
a.scopes = [Scope(x) for x in ('com', 'net', 'org')]
b.scopes = [Scope(x) for x in ('info', 'name')]
print([s.value for s in union_metadata(a, b).scopes])"""
outs = {subprocess.check_output([sys.executable, '-c', code], env=dict(os.environ, PYTHONHASHSEED=str(n))) for n in range(1, 9)}
check(len(outs), 1, 'different outputs')
'''),
dict(id='s32-tags-sorted-in-place', property='C20',
 edits=[('lgr/tools/compare/diff.py', """    output += compare_things(first.tags, second.tags, "tags",
""", """    for tags in (first.tags, second.tags):
        tags.sort()
    output += compare_things(first.tags, second.tags, "tags",
""")],
 needs='a code point whose tags are not in alphabetical order',
 what_it_breaks='comparing two LGRs reorders the tags of the code points of both',
 demo='''
from lgr.core import LGR
from lgr.tools.compare.diff import diff_char
a, b = LGR(), LGR()
a.add_cp([0x61], tag=['two', 'one'])
b.add_cp([0x61], comment='x', tag=['two', 'one'])
diff_char(a.get_char([0x61]), b.get_char([0x61]), False)
check(list(a.get_char([0x61]).tags), ['two', 'one'], 'tags after the comparison')
'''),
dict(id='s33-refused-class-found', property='C13',
 edits=[('lgr/core.py', """        logger.debug("Add '%s'", cls)
        try:
            cls.validate(""", """        logger.debug("Add '%s'", cls)
        self.classes_lookup[cls.name] = cls
        try:
            cls.validate("""), ('lgr/core.py', """                raise exc
        self.classes_lookup[cls.name] = cls
        self.classes""", """                raise exc
        self.classes""")],
 needs='a class that is refused and has the name of one that is there',
 what_it_breaks='rules and classes that refer to the name get the refused class',
 demo='''
from lgr.core import LGR
from lgr.classes import IntersectionClass, Class
from lgr.exceptions import LGRException
l = LGR()
good = Class(name='c')
good.add_codepoint(0x61)
l.add_class(good)
bad = IntersectionClass(name='c')
try:
    l.add_class(bad)
    check('admitted', 'refused', 'empty intersection')
except LGRException:
    pass
check(l.classes_lookup['c'] is good, True, 'class found under the name')
'''),
]
