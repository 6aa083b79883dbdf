SEEDS = [
dict(id='s01-prefix-suffix', property='C01',
 edits=[('lgr/core.py', "            prefixed_label = label_prefix + prefix.cp + tuple(label[len(prefix):])\n", "            prefixed_label = label_prefix + prefix.cp + tuple(label[1:])\n")],
 needs='a code point sequence with variants and a when rule that looks at what follows the sequence',
 what_it_breaks='while variants are generated the context rule of a sequence is tested on a label in which the tail of the sequence appears twice: a sequence whose rule does not hold is used ',
 demo='''
l = lgr_of('<char cp="0061 0062" when="before-b"><var cp="0078" type="blocked"/></char><char cp="0061"/><char cp="0062"/><char cp="0063"/>'
           '<char cp="0064"/>',
           '<rule name="before-b"><look-behind><start/></look-behind><anchor/><look-ahead><char cp="0062"/></look-ahead></rule>')
got = sorted(set(v[0] for v in l._generate_label_variants((0x61, 0x62, 0x62)) if len(v[0]) == 2))
check(got, [(0x78, 0x62)], 'variants of abb')
got = sorted(set(v[0] for v in l._generate_label_variants((0x61, 0x62, 0x64)) if len(v[0]) == 2))
check(got, [], 'variants of abd')
'''),
dict(id='s02-reflexive-context', property='C04',
 edits=[('lgr/core.py', "                if var.cp == char.cp:\n                    has_reflexive_mapping = True\n                char_perms.append", "                char_perms.append"),
        ('lgr/core.py', '                rule_logger.debug("Variant %s", format_cp(var.cp))\n\n                # Generate variant label', '                rule_logger.debug("Variant %s", format_cp(var.cp))\n                if var.cp == char.cp:\n                    has_reflexive_mapping = True\n\n                # Generate variant label')],
 needs='a reflexive variant whose when rule does not hold at the place the code point has in the label',
 what_it_breaks='the original code point is left out of the permutations although its reflexive mapping does not apply: labels are missing from the enumeration',
 demo='''
l = lgr_of('<char cp="0061"><var cp="0061" type="r-original" when="first"/><var cp="0078" type="blocked"/></char><char cp="0062"/>',
           '<rule name="first"><look-behind><start/></look-behind><anchor/></rule>')
got = sorted(v[0] for v in l._generate_label_variants((0x62, 0x61)))
check(got, [(0x62, 0x61), (0x62, 0x78)], 'variants of ba')
'''),
]
