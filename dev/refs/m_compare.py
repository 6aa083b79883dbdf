D, I, U, CU, A, H, C8 = ['lgr/tools/%s.py' % n for n in ('compare/diff', 'compare/intersect', 'compare/union', 'compare/utils', 'annotate', 'harmonize', 'idna2008_compliance')]
S = 'STRIP'
REFS = [
 ('d_sets', [(D, S, [("""    only_first = list(first - second)
    only_second = list(second - first)
    common = list(first & second)
    if len(common) == 0:
        common = 'None'
    else:
        common = format_fct(common)
""", """    only_first, only_second = (list(first - second), list(second - first))
    shared = list(first & second)
    common = format_fct(shared) if shared else 'None'
""")])]),
 ('d_things', [(D, S, [("""    if first != second:
        if is_set:
            return '\\n{} values differ:\\n{}\\n'.format(name.capitalize(), compare_sets(first, second, format_fct))
        else:
            return""", """    if first == second:
        if not show_same:
            return ''
        value = list(first) if is_set else first
        return "\\nSame {} value for both LGR: '{}'.".format(name, format_fct(value))
    if True:
        title = name.capitalize()
        if is_set:
            return '\\n{} values differ:\\n{}\\n'.format(title, compare_sets(first, second, format_fct))
        else:
            return"""), ("""    elif show_same:
        value = list(first) if is_set else first
        return "\\nSame {} value for both LGR: '{}'.".format(name, format_fct(value))
    else:
        return ''
""", "")])]),
 ('d_version', [(D, S, [("""    if first is not None and second is not None:
        output += compare_things(first.value, second.value, 'version', show_same=show_same)
        output += compare_things(first.comment, second.comment, 'version comment', show_same=show_same)
    if output:
        output = 'Compare Version:' + output + '\\n\\n'
    return output
""", """    if not (first is None or second is None):
        for name, attr in (('version', 'value'), ('version comment', 'comment')):
            output += compare_things(getattr(first, attr), getattr(second, attr), name, show_same=show_same)
    return 'Compare Version:%s\\n\\n' % output if output else ''
""")])]),
 ('d_meta', [(D, S, [("""    output += compare_things(first.date, second.date, 'date', show_same=show_same)
    output += compare_things(first.validity_start, second.validity_start, 'validity start', show_same=show_same)
    output += compare_things(first.validity_end, second.validity_end, 'validity end', show_same=show_same)
    output += compare_things(first.unicode_version, second.unicode_version, 'unicode version', show_same=show_same)
    if output:
        if not is_set:
            output = '** Compare Metadata **\\n\\n' + output
        else:
            output = '** Compare Metadata on merged LGRs **\\n\\n' + output
    return output
""", """    for attr in ('date', 'validity_start', 'validity_end', 'unicode_version'):
        output += compare_things(getattr(first, attr), getattr(second, attr), attr.replace('_', ' '), show_same=show_same)
    if not output:
        return output
    title = '** Compare Metadata on merged LGRs **' if is_set else '** Compare Metadata **'
    return title + '\\n\\n' + output
""")])]),
 ('d_char', [(D, S, [("""    variant_first = {VariantProperties(v.cp, v.type, v.when, v.not_when, v.comment) for v in first.get_variants()}
    variant_second = {VariantProperties(v.cp, v.type, v.when, v.not_when, v.comment) for v in second.get_variants()}
    if not show_same and first.comment == second.comment and (first.tags == second.tags) and (variant_first == variant_second):
        return output
""", """    variant_first = _variants(first)
    variant_second = _variants(second)
    same = first.comment == second.comment and first.tags == second.tags and variant_first == variant_second
    if same and not show_same:
        return ''
"""), ("""def diff_char(""", """def _variants(char):
    return {VariantProperties(v.cp, v.type, v.when, v.not_when, v.comment) for v in char.get_variants()}

def diff_char(""")])]),
 ('d_actions', [(D, S, [("""    actions_1 = [a.disp for a in lgr1.actions]
    actions_2 = [a.disp for a in lgr2.actions]
    return compare_things(set(actions_1), set(actions_2), 'actions', True, show_same=show_same)
""", """    return compare_things({a.disp for a in lgr1.actions}, {a.disp for a in lgr2.actions}, 'actions', is_set=True, show_same=show_same)
""")])]),
 ('d_lgrs', [(D, S, [("""    for cp in set.intersection(first_cps, second_cps):
        char1 = lgr1.get_char(cp)
        char2 = lgr2.get_char(cp)
        diff = diff_char(char1, char2, show_same=show_same)
        if not show_same and (not diff):
            identical += 1
        else:
            output += '\\n\\n    + Compare code point {}'.format(format_cp(cp))
            output += diff
    if not show_same and identical > 0:
""", """    for cp in first_cps & second_cps:
        diff = diff_char(lgr1.get_char(cp), lgr2.get_char(cp), show_same=show_same)
        if show_same or diff:
            output += '\\n\\n    + Compare code point {}{}'.format(format_cp(cp), diff)
            continue
        identical += 1
    if identical and not show_same:
""")])]),
 ('d_lgrs_list', [(D, S, [("""    output = ''
    lgr1.expand_ranges()
    lgr2.expand_ranges()
    output += diff_metadata(lgr1.metadata, lgr2.metadata, show_same=show_same)
    output += diff_reference_manager(lgr1.reference_manager, lgr2.reference_manager, show_same=show_same)
    output += '\\n\\n\\n** Compare repertoire **\\n'
""", """    for lgr in (lgr1, lgr2):
        lgr.expand_ranges()
    output = diff_metadata(lgr1.metadata, lgr2.metadata, show_same=show_same) + \\
        diff_reference_manager(lgr1.reference_manager, lgr2.reference_manager, show_same=show_same) + \\
        '\\n\\n\\n** Compare repertoire **\\n'
"""), ("""    output += diff_actions(lgr1, lgr2)
    output += diff_rules(lgr1, lgr2)
    output += diff_classes(lgr1, lgr2)
    return output
""", """    for diff_fct in (diff_actions, diff_rules, diff_classes):
        output += diff_fct(lgr1, lgr2)
    return output
""")])]),
 ('d_set_scripts', [(D, S, [("""            try:
                script = lgr.metadata.languages[0]
                if script in lgr_scripts:
                    out += "More than one LGR in set '{set}' match script '{script}'".format(set=lgr_set_name, script=script)
                lgr_scripts.setdefault(script, []).append(lgr)
            except (AttributeError, IndexError):
                pass
""", """            try:
                script = lgr.metadata.languages[0]
            except (AttributeError, IndexError):
                continue
            if script in lgr_scripts:
                out += "More than one LGR in set '{set}' match script '{script}'".format(set=lgr_set_name, script=script)
            lgr_scripts.setdefault(script, []).append(lgr)
""")])]),
 ('d_set_common', [(D, S, [("""    common_script = [script for script in lgr_scripts_1 if script in lgr_scripts_2]
    for script in [s for s in lgr_scripts_1 if s not in lgr_scripts_2]:
        output""", """    for script in lgr_scripts_1:
        if script in lgr_scripts_2:
            continue
        output"""), ("""    for script in common_script:
        for l1""", """    for script in [script for script in lgr_scripts_1 if script in lgr_scripts_2]:
        for l1""")])]),
 ('d_set_out', [(D, S, [("""    output = ''

    def get_scripts""", """
    def get_scripts"""), ("""    lgr_scripts_1, out = get_scripts(lgr_set_1, lgr1.name)
    output += out
    lgr_scripts_2, out = get_scripts(lgr_set_2, lgr2.name)
    output += out
""", """    lgr_scripts_1, out_1 = get_scripts(lgr_set_1, lgr1.name)
    lgr_scripts_2, out_2 = get_scripts(lgr_set_2, lgr2.name)
    output = out_1 + out_2
""")])]),
 ('i_desc', [(I, S, [("""    if first.description_type == second.description_type:
        value = let_user_choose(first.value, second.value)
        description_type = first.description_type
    else:
        description_type""", """    if first.description_type == second.description_type:
        return Description(let_user_choose(first.value, second.value), first.description_type)
    if True:
        description_type""")])]),
 ('i_refs', [(I, S, [("""    first_ref = OrderedDict.fromkeys((r['value'] for r in first.values()))
    second_ref = OrderedDict.fromkeys((r['value'] for r in second.values()))
    output = ReferenceManager()
    for ref in [r for r in first_ref if r in second_ref]:
        output.add_reference(ref)
    return output
""", """    second_ref = {r['value'] for r in second.values()}
    output = ReferenceManager()
    for ref in OrderedDict.fromkeys((r['value'] for r in first.values())):
        if ref in second_ref:
            output.add_reference(ref)
    return output
""")])]),
 ('i_char', [(I, S, [("""    when = first.when if first.when == second.when else None
    not_when = first.not_when if first.not_when == second.not_when else None
    lgr.add_cp(""", """    when, not_when = common(first.when, second.when), common(first.not_when, second.not_when)
    lgr.add_cp("""), ("""    for v in [v for v in variant_first if v in variant_second]:
        lgr.add_variant(first.cp, v[0], when=v[1], not_when=v[2])
""", """    for v in variant_first:
        if v in variant_second:
            cp, v_when, v_not_when = v
            lgr.add_variant(first.cp, cp, when=v_when, not_when=v_not_when)

def common(a, b):
    return a if a == b else None
""")])]),
 ('i_char_set', [(I, S, [("""    variant_second = OrderedDict.fromkeys(((v.cp, v.when, v.not_when) for v in second.get_variants()))
    for v in [v for v in variant_first if v in variant_second]:
        lgr.add_variant(first.cp, v[0], when=v[1], not_when=v[2])
""", """    variant_second = {(v.cp, v.when, v.not_when) for v in second.get_variants()}
    for cp, v_when, v_not_when in variant_first:
        if (cp, v_when, v_not_when) not in variant_second:
            continue
        lgr.add_variant(first.cp, cp, when=v_when, not_when=v_not_when)
""")])]),
 ('i_rules', [(I, S, [("""        if rule_1 == rule_2:
            rules_xml.append(rule_1)
            rules.append(rule_name)
            continue
        rule_1 = rule_1.replace(rule_name, rule_name + '_1')
        rule_2 = rule_2.replace(rule_name, rule_name + '_2')
        rules_xml.append(rule_1)
        rules_xml.append(rule_2)
        rules.append(rule_name + '_1')
        rules.append(rule_name + '_2')
""", """        if rule_1 == rule_2:
            rules_xml.append(rule_1)
            rules.append(rule_name)
        else:
            for suffix, rule in (('_1', rule_1), ('_2', rule_2)):
                rules_xml.append(rule.replace(rule_name, rule_name + suffix))
                rules.append(rule_name + suffix)
""")])]),
 ('i_shared', [(I, S, [("""def intersect_rules(lgr1, lgr2):
    logger.debug('Intersection of rules')
    rules = []
    rules_xml = []
    for rule_name in [r for r in lgr1.rules if r in lgr2.rules]:
        rule_1 = lgr1.rules_xml[lgr1.rules.index(rule_name)]
        rule_2 = lgr2.rules_xml[lgr2.rules.index(rule_name)]
        if rule_1 == rule_2:
            rules_xml.append(rule_1)
            rules.append(rule_name)
            continue
        rule_1 = rule_1.replace(rule_name, rule_name + '_1')
        rule_2 = rule_2.replace(rule_name, rule_name + '_2')
        rules_xml.append(rule_1)
        rules_xml.append(rule_2)
        rules.append(rule_name + '_1')
        rules.append(rule_name + '_2')
    return (rules, rules_xml)
""", """def intersect_rules(lgr1, lgr2):
    logger.debug('Intersection of rules')
    return _intersect_named(lgr1.rules, lgr1.rules_xml, lgr2.rules, lgr2.rules_xml)

def _intersect_named(names1, xml1, names2, xml2):
    names = []
    xmls = []
    for name in [r for r in names1 if r in names2]:
        first = xml1[names1.index(name)]
        second = xml2[names2.index(name)]
        if first == second:
            xmls.append(first)
            names.append(name)
            continue
        xmls.append(first.replace(name, name + '_1'))
        xmls.append(second.replace(name, name + '_2'))
        names.append(name + '_1')
        names.append(name + '_2')
    return (names, xmls)
"""), ("""    classes = []
    classes_xml = []
    for class_name in [c for c in lgr1.classes if c in lgr2.classes]:
        class_1 = lgr1.classes_xml[lgr1.classes.index(class_name)]
        class_2 = lgr2.classes_xml[lgr2.classes.index(class_name)]
        if class_1 == class_2:
            classes_xml.append(class_1)
            classes.append(class_name)
            continue
        class_1 = class_1.replace(class_name, class_name + '_1')
        class_2 = class_2.replace(class_name, class_name + '_2')
        classes_xml.append(class_1)
        classes_xml.append(class_2)
        classes.append(class_name + '_1')
        classes.append(class_name + '_2')
    return (classes, classes_xml)
""", """    return _intersect_named(lgr1.classes, lgr1.classes_xml, lgr2.classes, lgr2.classes_xml)
""")])]),
 ('i_lgrs', [(I, S, [("""    first_cps = {c.cp for c in lgr1.repertoire}
    second_cps = {c.cp for c in lgr2.repertoire}
    for cp in set.intersection(first_cps, second_cps):
        char1 = lgr1.get_char(cp)
        char2 = lgr2.get_char(cp)
        intersect_char(lgr, char1, char2)
    actions, actions_xml = intersect_actions(lgr1, lgr2)
    lgr.actions = copy.deepcopy(actions)
    lgr.actions_xml = actions_xml
""", """    common_cps = {c.cp for c in lgr1.repertoire} & {c.cp for c in lgr2.repertoire}
    for cp in common_cps:
        intersect_char(lgr, lgr1.get_char(cp), lgr2.get_char(cp))
    actions, lgr.actions_xml = intersect_actions(lgr1, lgr2)
    lgr.actions = copy.deepcopy(actions)
""")])]),
 ('i_name', [(I, S, [("""    name = 'Intersection of %s and %s' % (lgr1.name, lgr2.name)
    lgr1.expand_ranges()
    lgr2.expand_ranges()
    metadata = copy.deepcopy(intersect_metadata(lgr1.metadata, lgr2.metadata))
    lgr = LGR(name=name, metadata=metadata)
    references = intersect_reference_manager(lgr1.reference_manager, lgr2.reference_manager)
    lgr.reference_manager = references
""", """    lgr1.expand_ranges()
    lgr2.expand_ranges()
    lgr = LGR(name='Intersection of {} and {}'.format(lgr1.name, lgr2.name),
              metadata=copy.deepcopy(intersect_metadata(lgr1.metadata, lgr2.metadata)))
    lgr.reference_manager = intersect_reference_manager(lgr1.reference_manager, lgr2.reference_manager)
""")])]),
 ('u_desc', [(U, S, [("""    if first is None:
        return second
    if second is None:
        return first
    if first == second:
        return first
    all_html = all((d.description_type == 'text/html' for d in (first, second)))
    if all_html:
""", """    if first is None or second is None:
        return first or second
    if first == second:
        return first
    if first.description_type == 'text/html' and second.description_type == 'text/html':
""")])]),
 ('u_version', [(U, S, [("""    if first is None:
        return second
    if second is None:
        return first
    if first == second:
        return first
    value = let_user_choose(first.value, second.value)
    comment = let_user_choose(first.comment, second.comment)
    return Version(value, comment)
""", """    if first is None:
        return second
    if second is None or first == second:
        return first
    return Version(let_user_choose(first.value, second.value), let_user_choose(first.comment, second.comment))
""")])]),
 ('u_add', [(U, S, [("""    for cp in set.difference(first_cps, second_cps):
        char = lgr1.get_char(cp)
        lgr.add_cp(char.cp, comment=char.comment, tag=char.tags, when=char.when, not_when=char.not_when)
        for v in char.get_variants():
            lgr.add_variant(char.cp, v.cp, variant_type=v.type, when=v.when, not_when=v.not_when, comment=v.comment)
    for cp in set.difference(second_cps, first_cps):
        char = lgr2.get_char(cp)
        lgr.add_cp(char.cp, comment=char.comment, tag=char.tags, when=char.when, not_when=char.not_when)
        for v in char.get_variants():
            lgr.add_variant(char.cp, v.cp, variant_type=v.type, when=v.when, not_when=v.not_when, comment=v.comment)
""", """    for cp in first_cps - second_cps:
        copy_char(lgr, lgr1.get_char(cp))
    for cp in second_cps - first_cps:
        copy_char(lgr, lgr2.get_char(cp))
"""), ("""def union_lgrs(""", """def copy_char(lgr, char):
    lgr.add_cp(char.cp, comment=char.comment, tag=char.tags, when=char.when, not_when=char.not_when)
    for v in char.get_variants():
        lgr.add_variant(char.cp, v.cp, variant_type=v.type, when=v.when, not_when=v.not_when, comment=v.comment)

def union_lgrs(""")])]),
 ('u_add2', [(U, S, [("""    for cp in set.difference(first_cps, second_cps):
        char = lgr1.get_char(cp)
        lgr.add_cp(char.cp, comment=char.comment, tag=char.tags, when=char.when, not_when=char.not_when)
        for v in char.get_variants():
            lgr.add_variant(char.cp, v.cp, variant_type=v.type, when=v.when, not_when=v.not_when, comment=v.comment)
    for cp in set.difference(second_cps, first_cps):
        char = lgr2.get_char(cp)
        lgr.add_cp(char.cp, comment=char.comment, tag=char.tags, when=char.when, not_when=char.not_when)
        for v in char.get_variants():
            lgr.add_variant(char.cp, v.cp, variant_type=v.type, when=v.when, not_when=v.not_when, comment=v.comment)
""", """    for source, cps in ((lgr1, first_cps - second_cps), (lgr2, second_cps - first_cps)):
        for cp in cps:
            char = source.get_char(cp)
            lgr.add_cp(char.cp, comment=char.comment, tag=char.tags, when=char.when, not_when=char.not_when)
            for v in char.get_variants():
                lgr.add_variant(char.cp, v.cp, variant_type=v.type, when=v.when, not_when=v.not_when, comment=v.comment)
""")])]),
 ('u_actions', [(U, S, [("""    actions = OrderedDict()
    actions_xml = OrderedDict()
    actions.update(OrderedDict.fromkeys(lgr1.actions))
    actions.update(OrderedDict.fromkeys(lgr2.actions))
    actions_xml.update(OrderedDict.fromkeys(lgr1.actions_xml))
    actions_xml.update(OrderedDict.fromkeys(lgr2.actions_xml))
    return (list(actions.keys()), list(actions_xml.keys()))
""", """    actions = list(OrderedDict.fromkeys(list(lgr1.actions) + list(lgr2.actions)))
    actions_xml = list(OrderedDict.fromkeys(list(lgr1.actions_xml) + list(lgr2.actions_xml)))
    return (actions, actions_xml)
""")])]),
 ('u_rules', [(U, S, [("""    for rule_name in [r for r in lgr1.rules if r not in rules_lgr2]:
        rules_xml.append(lgr1.rules_xml[lgr1.rules.index(rule_name)])
        rules.append(rule_name)
    for rule_name in [r for r in lgr2.rules if r not in rules_lgr1]:
        rules_xml.append(lgr2.rules_xml[lgr2.rules.index(rule_name)])
        rules.append(rule_name)
""", """    for lgr, others in ((lgr1, rules_lgr2), (lgr2, rules_lgr1)):
        for rule_name in lgr.rules:
            if rule_name not in others:
                rules.append(rule_name)
                rules_xml.append(lgr.rules_xml[lgr.rules.index(rule_name)])
""")])]),
 ('u_char', [(U, S, [("""    tags = list(OrderedDict.fromkeys(list(first.tags) + list(second.tags)))
    when = first.when if first.when == second.when else None
    not_when = first.not_when if first.not_when == second.not_when else None
    lgr.add_cp(first.cp, comment=comment, tag=tags, when=when, not_when=not_when)
    for v in OrderedDict.fromkeys(list(first.get_variants()) + list(second.get_variants())):
""", """    when, not_when = (None, None)
    if first.when == second.when:
        when = first.when
    if first.not_when == second.not_when:
        not_when = first.not_when
    lgr.add_cp(first.cp, comment=comment, tag=list(OrderedDict.fromkeys(list(first.tags) + list(second.tags))), when=when, not_when=not_when)
    variants = list(first.get_variants()) + list(second.get_variants())
    for v in OrderedDict.fromkeys(variants):
""")])]),
 ('cu_cmp', [(CU, S, [("""    if first is None:
        return second
    if second is None:
        return first
    return cmp_fct(first, second)
""", """    if first is not None and second is not None:
        return cmp_fct(first, second)
    return second if first is None else first
"""), ("""    return max(first, second, key=lambda version: [int(n) for n in re.findall('\\\\d+', version)])
""", """    def numbers(version):
        return [int(n) for n in re.findall('\\\\d+', version)]
    return max(first, second, key=numbers)
""")])]),
 ('cu_max', [(CU, S, [("""    return max(first, second, key=lambda version: [int(n) for n in re.findall('\\\\d+', version)])
""", """    return max((first, second), key=lambda v: list(map(int, re.findall(r'\\d+', v))))
""")])]),
 ('a_out', [(A, S, [("""        yield ' Code point {cp} {reason}\\n'.format(cp='U+{:04X}'.format(cp_not_in_lgr), reason='not in repertoire' if rules is None else "does not comply with rules '{}'".format(','.join(rules)))
""", """        if rules is None:
            reason = 'not in repertoire'
        else:
            reason = "does not comply with rules '%s'" % ','.join(rules)
        yield ' Code point U+{:04X} {}\\n'.format(cp_not_in_lgr, reason)
""")])]),
 ('a_annot', [(A, S, [("""        if valid:
            label_cp = tuple([ord(c) for c in label])
            eligible, _, label_invalid_parts, disp, action_idx, _ = lgr.test_label_eligible(label_cp, collect_log=False)
            for l in _out_valid_label(lgr, label, eligible, label_invalid_parts, disp, action_idx):
                yield l
        else:
            yield ('%s: %s\\n' % (label, error))
""", """        if not valid:
            yield '{}: {}\\n'.format(label, error)
            continue
        label_cp = tuple(ord(c) for c in label)
        eligible, _, invalid_parts, disp, action_idx, _ = lgr.test_label_eligible(label_cp, collect_log=False)
        yield from _out_valid_label(lgr, label, eligible, invalid_parts, disp, action_idx)
""")])]),
 ('a_set1', [(A, S, [("""        if not valid:
            yield ('%s: %s\\n' % (label, error))
        else:
            label_cp = tuple([ord(c) for c in label])
            if not lgr._test_preliminary_eligibility(label_cp)[0]:
                yield ('%s: invalid\\n' % label)
            else:
                filtered_set.append(label)
""", """        if not valid:
            yield ('%s: %s\\n' % (label, error))
            continue
        eligible = lgr._test_preliminary_eligibility(tuple(map(ord, label)))[0]
        if eligible:
            filtered_set.append(label)
        else:
            yield ('%s: invalid\\n' % label)
""")])]),
 ('a_set2', [(A, S, [("""            collision = ''
            if eligible:
                if label in filtered_set:
                    collision = 'Label is in the LGR set labels'
                indexes = get_collisions(lgr, filtered_set + [label], quiet=False)
                if any((l['label'] == label for collisions in indexes.values() for l in collisions)):
                    collision = 'Label collides with the LGR set labels'
            out = disp
            if collision:
                out = '{} - {}'.format(disp, collision)
""", """            collision = _collision(lgr, label, filtered_set) if eligible else ''
            out = '{} - {}'.format(disp, collision) if collision else disp
"""), ("""def lgr_set_annotate(""", """def _collision(lgr, label, filtered_set):
    from lgr.tools.diff_collisions import get_collisions
    collision = 'Label is in the LGR set labels' if label in filtered_set else ''
    indexes = get_collisions(lgr, filtered_set + [label], quiet=False)
    for collisions in indexes.values():
        for l in collisions:
            if l['label'] == label:
                return 'Label collides with the LGR set labels'
    return collision

def lgr_set_annotate(""")])]),
 ('a_set3', [(A, S, [("""                if any((l['label'] == label for collisions in indexes.values() for l in collisions)):
                    collision = 'Label collides with the LGR set labels'
            out = disp
            if collision:
                out = '{} - {}'.format(disp, collision)
""", """                colliding = [l['label'] for collisions in indexes.values() for l in collisions]
                if label in colliding:
                    collision = 'Label collides with the LGR set labels'
            out = ' - '.join((disp, collision)) if collision else disp
""")])]),
 ('h_helper', [(H, S, [("""        for variant_cp in lgr_1_variants - lgr_2_variants:
            if variant_cp not in h_lgr_2.repertoire:
                h_lgr_2.add_cp(variant_cp, comment='Out-of-repertoire')
                h_lgr_2.add_variant(variant_cp, variant_cp, variant_type='out-of-repertoire', comment='Out-of-repertoire')
            elif variant_cp == cp:
                continue
            h_lgr_2.add_variant(cp, variant_cp, variant_type='blocked')
        for variant_cp in lgr_2_variants - lgr_1_variants:
            if variant_cp not in h_lgr_1.repertoire:
                h_lgr_1.add_cp(variant_cp, comment='Out-of-repertoire')
                h_lgr_1.add_variant(variant_cp, variant_cp, variant_type='out-of-repertoire', comment='Out-of-repertoire')
            elif variant_cp == cp:
                continue
            h_lgr_1.add_variant(cp, variant_cp, variant_type='blocked')
""", """        add_missing(h_lgr_2, cp, lgr_1_variants - lgr_2_variants)
        add_missing(h_lgr_1, cp, lgr_2_variants - lgr_1_variants)
"""), ("""def harmonize(""", """def add_missing(lgr, cp, variants):
    for variant_cp in variants:
        if variant_cp not in lgr.repertoire:
            lgr.add_cp(variant_cp, comment='Out-of-repertoire')
            lgr.add_variant(variant_cp, variant_cp, variant_type='out-of-repertoire', comment='Out-of-repertoire')
        elif variant_cp == cp:
            continue
        lgr.add_variant(cp, variant_cp, variant_type='blocked')

def harmonize(""")])]),
 ('h_loop', [(H, S, [("""        for variant_cp in lgr_1_variants - lgr_2_variants:
            if variant_cp not in h_lgr_2.repertoire:
                h_lgr_2.add_cp(variant_cp, comment='Out-of-repertoire')
                h_lgr_2.add_variant(variant_cp, variant_cp, variant_type='out-of-repertoire', comment='Out-of-repertoire')
            elif variant_cp == cp:
                continue
            h_lgr_2.add_variant(cp, variant_cp, variant_type='blocked')
        for variant_cp in lgr_2_variants - lgr_1_variants:
            if variant_cp not in h_lgr_1.repertoire:
                h_lgr_1.add_cp(variant_cp, comment='Out-of-repertoire')
                h_lgr_1.add_variant(variant_cp, variant_cp, variant_type='out-of-repertoire', comment='Out-of-repertoire')
            elif variant_cp == cp:
                continue
            h_lgr_1.add_variant(cp, variant_cp, variant_type='blocked')
""", """        for target, missing in ((h_lgr_2, lgr_1_variants - lgr_2_variants), (h_lgr_1, lgr_2_variants - lgr_1_variants)):
            for variant_cp in missing:
                if variant_cp not in target.repertoire:
                    target.add_cp(variant_cp, comment='Out-of-repertoire')
                    target.add_variant(variant_cp, variant_cp, variant_type='out-of-repertoire', comment='Out-of-repertoire')
                elif variant_cp == cp:
                    continue
                target.add_variant(cp, variant_cp, variant_type='blocked')
""")])]),
 ('h_copy', [(H, S, [("""    h_lgr_1 = deepcopy(lgr_1) if _copy else lgr_1
    h_lgr_2 = deepcopy(lgr_2) if _copy else lgr_2
    h_lgr_1.expand_ranges()
    h_lgr_2.expand_ranges()
    for lgr in (h_lgr_1, h_lgr_2):
        if lgr.metadata.version is not None:
            lgr.metadata.version.comment = (lgr.metadata.version.comment or '') + ' - Harmonized'
    if rz_lgr is not None:
        rz_lgr_work = deepcopy(rz_lgr)
        harmonize(h_lgr_1, rz_lgr_work, _copy=False)
        rz_lgr_work = deepcopy(rz_lgr)
        harmonize(h_lgr_2, rz_lgr_work, _copy=False)
""", """    h_lgr_1, h_lgr_2 = (deepcopy(lgr_1), deepcopy(lgr_2)) if _copy else (lgr_1, lgr_2)
    for lgr in (h_lgr_1, h_lgr_2):
        lgr.expand_ranges()
    for lgr in (h_lgr_1, h_lgr_2):
        version = lgr.metadata.version
        if version is not None:
            version.comment = '%s - Harmonized' % (version.comment or '')
    if rz_lgr is not None:
        for lgr in (h_lgr_1, h_lgr_2):
            harmonize(lgr, deepcopy(rz_lgr), _copy=False)
""")])]),
 ('h_ret', [(H, S, [("""    not_touched_cp = lgr_1_repertoire ^ lgr_2_repertoire
    return (h_lgr_1, h_lgr_2, (lgr_1_repertoire & not_touched_cp, lgr_2_repertoire & not_touched_cp))
""", """    return (h_lgr_1, h_lgr_2, (lgr_1_repertoire - lgr_2_repertoire, lgr_2_repertoire - lgr_1_repertoire))
""")])]),
 ('c8_any', [(C8, S, [("""    for v in char.get_reflexive_variants():
        if v.type and v.type.lower().startswith('out-of-repertoire'):
            return True
    return False
""", """    return any(v.type and v.type.lower().startswith('out-of-repertoire') for v in char.get_reflexive_variants())
""")])]),
 ('c8_loop', [(C8, S, [("""    for data in report:
        data['idna2003_compliant'] = True
        for c in data['cp']:
            if unidb.is_idna2003_disallowed(c):
                data['idna2003_compliant'] = False
                break
""", """    for data in report:
        data['idna2003_compliant'] = not any(unidb.is_idna2003_disallowed(c) for c in data['cp'])
""")])]),
 ('c8_chars', [(C8, S, [("""    report = cp_report(unidb, [char for char in idn_table.repertoire.all_repertoire() if not is_out_of_repertoire(char) and (not is_idna_valid_cp_or_sequence(char.cp, unidb)[0])])
""", """    chars = []
    for char in idn_table.repertoire.all_repertoire():
        if is_out_of_repertoire(char):
            continue
        valid, _ = is_idna_valid_cp_or_sequence(char.cp, unidb)
        if not valid:
            chars.append(char)
    report = cp_report(unidb, chars)
"""), ("""    return {'contains_non_compliant': len(report) > 0, 'non""", """    return {'contains_non_compliant': bool(report), 'non""")])]),
]
