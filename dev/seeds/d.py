SEEDS = [
dict(id='s13-adjacent-ranges', property='C11',
 edits=[('lgr/char.py', "            if last_cp is not None and last_cp < index:\n", "            if last_cp is not None and last_cp + 1 < index:\n")],
 needs='two ranges of which the second starts right after the first ends',
 what_it_breaks='going through the repertoire gives the second range by its second code point instead of its first',
 demo='''
from lgr.core import LGR
l = LGR()
l.add_range(0x61, 0x64)
l.add_range(0x65, 0x68)
check([c.cp for c in l.repertoire], [(0x61,), (0x65,)], 'ranges gone through')
'''),
dict(id='s14-del-reference-sequences', property='C14',
 edits=[('lgr/char.py', '''        for cp_list in self._chardict.values():
            for char in cp_list:
                char.references''', '''        for cp_list in self._chardict.values():
            for char in {c.cp[:2]: c for c in cp_list}.values():
                char.references''')],
 needs='two sequences that share their first two code points and cite the same reference',
 what_it_breaks='deleting a reference leaves it on one of two sequences that start alike',
 demo='''
from lgr.core import LGR
l = LGR()
l.add_reference('one', ref_id='1')
l.add_cp([0x61, 0x62, 0x63], ref=['1'])
l.add_cp([0x61, 0x62, 0x64], ref=['1'])
l.del_reference('1')
check([list(c.references) for c in l.repertoire], [[], []], 'references left')
'''),
dict(id='s15-class-tags', property='C24',
 edits=[('lgr/tools/merge_set.py', '''    # ignore tags containing ':'
    class_xml = re.sub(r'from-tag="([^:"]+)"', r'from-tag="{}-\\1"'.format(script), class_xml)

    return new_class_name''', '''    # ignore tags containing ':'
    class_xml = re.sub(r'from-tag="([^:"]+)"', r'from-tag="{}-\\1"'.format(script), class_xml, count=1)

    return new_class_name''')],
 needs='a named class that combines two classes made from tags',
 what_it_breaks='the second tag of a combined class keeps its old name in the merged LGR: the class is empty there',
 demo='''
from lgr.tools.merge_set import rename_class
class C:
    name = 'both'
_, xml = rename_class(C, '<union name="both"><class from-tag="one"/><class from-tag="two"/></union>', 'Latn')
check('from-tag="Latn-two"' in xml, True, 'second tag renamed')
'''),
dict(id='s16-tld-dispositions', property='C27',
 edits=[('lgr/tools/diff_collisions.py', "with_labels=[l['cp'] for l in primaries] if not keep else None):", "with_labels=[l['cp'] for l in primaries if l['cat'] == PRIMARY] if not keep else None):")],
 needs='a label that collides with a TLD',
 what_it_breaks='the disposition of the colliding TLD is missing from the report of the label',
 demo='''
from lgr.tools.diff_collisions import _generate_indexes
l = lgr_of('<char cp="0061"><var cp="0062" type="blocked"/></char><char cp="0062"><var cp="0061" type="blocked"/></char>')
idx, _ = _generate_indexes(l, ['aa'], tlds={'bb'}, quiet=False)
(entries,) = idx.values()
tld = [e for e in entries if e['label'] == 'bb'][0]
check(tld['disp'].get('aa'), 'blocked', 'disposition of bb as a variant of aa')
'''),
dict(id='s17-second-hash', property='C36',
 edits=[('lgr/tools/utils.py', "            pos = label.find('#')\n", "            pos = label.find('#') and label.rfind('#')\n")],
 needs='a label with a comment that contains a # itself',
 what_it_breaks='part of the comment is read as part of the label',
 demo='''
from lgr.tools.utils import read_labels
got = [l[0] for l in read_labels(['abc # see #12'])]
check(got, ['abc'], 'label without its comment')
'''),
dict(id='s18-unicode-version-tail', property='C34',
 edits=[('lgr/metadata.py', "if re.match(r'\\d{1,}\\.\\d{1,}\\.\\d{1,}$', unicode_version) is None:", "if re.match(r'\\d{1,}\\.\\d{1,}\\.\\d{1,}', unicode_version) is None:")],
 needs='a Unicode version with something after its three numbers',
 what_it_breaks='a Unicode version that is not of the form x.y.z is accepted and stored',
 demo='''
from lgr.metadata import Metadata
from lgr.exceptions import LGRFormatException
m = Metadata()
try:
    m.set_unicode_version('6.3.0.beta')
except LGRFormatException:
    sys.exit(0)
check(m.unicode_version, None, 'version refused')
'''),
dict(id='s19-choice-behind', property='C07',
 edits=[('lgr/matcher.py', '''                 ')|(?:'.join([m.get_pattern(rules_lookup,
                                             classes_lookup,
                                             unicode_database,
                                             is_look_behind)
                               for m in self._children]) + \\''', '''                 ')|(?:'.join([m.get_pattern(rules_lookup,
                                             classes_lookup,
                                             unicode_database)
                               for m in self._children]) + \\''')],
 needs='a choice inside a look-behind, one alternative of which is repeated without an upper bound',
 what_it_breaks='the look-behind pattern becomes unbounded: the rule cannot be compiled',
 demo='''
from lgr.matcher import ChoiceMatcher, LookBehindMatcher, CharMatcher
look, choice = LookBehindMatcher(), ChoiceMatcher()
choice.add_child(CharMatcher([0x61], count='1+'))
look.add_child(choice)
pattern = look.get_pattern({}, {}, None)
check('{1,}' in pattern, False, 'unbounded repetition in %s' % pattern)
'''),
dict(id='s20-validity-start-today', property='C21',
 edits=[('lgr/validate/metadata.py', '''    if vstart is not None and vstart > today:
''', '''    if success and vstart is not None and vstart > today:
''')],
 needs='an LGR whose validity is in the future and ends before it starts',
 what_it_breaks='a validity that starts in the future is not recorded as an error when another date test failed',
 demo='''
from lgr.core import LGR
from lgr.validate.metadata import check_metadata
l = LGR()
l.metadata.validity_start, l.metadata.validity_end = '2998-01-01', '2997-01-01'
seen = []
l.notify_error = seen.append
check_metadata(l, {})
check('validity_started' in seen, True, 'error recorded')
'''),
]
