M = 'lgr/mixed_scripts_variant_filter.py'
R = 'lgr/tools/idn_review/repertoire.py'
H = 'lgr/tools/harmonize.py'
A = 'lgr/tools/annotate.py'
I = 'lgr/tools/idna2008_compliance.py'
S = 'lgr/tools/merge_set.py'
U = 'lgr/utils.py'
REFS = [
 ('mx_all', [(M, None, [('''        for char in cp:
            script = self.unidb.get_script(char)
            if script not in scripts:
                return False
        return True
''', '''        return all(self.unidb.get_script(char) in scripts for char in cp)
''')])]),
 ('mx_base_comp', [(M, None, [('''        scripts = set()
        for c in label:
            script = self.unidb.get_script(c)
            if script not in self.IGNORED_SCRIPTS:
                scripts.add(self.unidb.get_script(c))
        return get_permitted_scripts(scripts)
''', '''        scripts = {self.unidb.get_script(c) for c in label}
        return get_permitted_scripts(scripts - self.IGNORED_SCRIPTS)
''')])]),
 ('mx_base_use', [(M, None, [('scripts.add(self.unidb.get_script(c))\n        return', 'scripts.add(script)\n        return')])]),
 ('mx_perm_or', [(M, None, [("permitted_scripts = base_scripts.copy()", "permitted_scripts = set(base_scripts)"), ("permitted_scripts.update({'Han', 'Latin', 'Katakana', 'Hiragana'})", "permitted_scripts |= {'Han', 'Latin', 'Katakana', 'Hiragana'}"),
   ("        permitted_scripts.update({'Latin'})\n    if", "        permitted_scripts.add('Latin')\n    if")])]),
 ('mx_perm_any', [(M, None, [("if 'Katakana' in base_scripts or 'Hiragana' in base_scripts:", "if {'Katakana', 'Hiragana'} & base_scripts:")])]),
 ('mx_perm_const', [(M, None, [("def get_permitted_scripts(", "JAPANESE = frozenset(('Han', 'Latin', 'Katakana', 'Hiragana'))\n\n\ndef get_permitted_scripts("), ("permitted_scripts.update({'Han', 'Latin', 'Katakana', 'Hiragana'})", "permitted_scripts.update(JAPANESE)")])]),
 ('mx_rolling', [(M, None, [("""
        for i, c in enumerate(label):
""", """        rest = tuple(label)

        for c in label:
            here, rest = rest, rest[1:]
"""), ('char.is_prefix_of(label[i:])', 'char.is_prefix_of(here)')])]),
 ('mx_inter', [(M, None, [('''                scripts = set(scripts_for_char)
            else:
                scripts.intersection_update(scripts_for_char)
''', '''                scripts = scripts_for_char
            else:
                scripts &= scripts_for_char
''')])]),
 ('mx_ret', [(M, None, [('''        if scripts is None:
            return set()
        return scripts - self.base_scripts
''', '''        return scripts - self.base_scripts if scripts is not None else set()
''')])]),
 ('mx_helper', [(M, None, [('''            for char in chars_from_prefix:
                # Ensure prefix is valid for label
                if not char.is_prefix_of(current_label):
                    continue

                for v in char.get_variants():
                    for cp in v.cp:
                        scripts_for_char.add(self.unidb.get_script(cp))
''', '''            for char in chars_from_prefix:
                # Ensure prefix is valid for label
                if char.is_prefix_of(current_label):
                    scripts_for_char |= self._variant_scripts(char)
'''), ('''    def get_filter_for_other_script(self''', '''    def _variant_scripts(self, char):
        return {self.unidb.get_script(cp) for v in char.get_variants() for cp in v.cp}

    def get_filter_for_other_script(self''')])]),
 ('rp_tags', [(R, None, [('''        for tag in set(t for t in set(self.idn_table_char.tags) ^ set(self.reference_lgr_char.tags) if
                       not t.startswith('sc:')):
            if tag not in self.idn_table_char.tags:
                result = IdnReviewResult.REVIEW
                remark = "Tags do not match"
                break
            if tag not in self.reference_lgr_char.tags and not result:
                result = IdnReviewResult.NOTE
                remark = "Tags not required in Reference LGR"
                # continue in case we have a REVIEW later
''', '''        idn_tags = {t for t in self.idn_table_char.tags if not t.startswith('sc:')}
        ref_tags = {t for t in self.reference_lgr_char.tags if not t.startswith('sc:')}
        if ref_tags - idn_tags:
            result = IdnReviewResult.REVIEW
            remark = "Tags do not match"
        elif idn_tags - ref_tags:
            result = IdnReviewResult.NOTE
            remark = "Tags not required in Reference LGR"
''')])]),
 ('rp_helper', [(R, None, [('''        idn_rule_name = None
        if self.idn_table_char.when:
            idn_rule_name = f'when-{self.idn_table_char.when}'
        elif self.idn_table_char.not_when:
            idn_rule_name = f'not-when-{self.idn_table_char.not_when}'

        ref_rule_name = None
        if self.reference_lgr_char.when:
            ref_rule_name = f'when-{self.reference_lgr_char.when}'
        elif self.reference_lgr_char.not_when:
            ref_rule_name = f'not-when-{self.reference_lgr_char.not_when}'
''', '''        idn_rule_name = self._rule_name(self.idn_table_char)
        ref_rule_name = self._rule_name(self.reference_lgr_char)
'''), ('''    def compare_char(self)''', '''    @staticmethod
    def _rule_name(char):
        if char.when:
            return 'when-' + char.when
        if char.not_when:
            return 'not-when-' + char.not_when
        return None

    def compare_char(self)''')])]),
 ('rp_sets', [(R, None, [('''    for cp in sorted(idn_table_repertoire.keys() | reference_lgr_repertoire.keys()):
''', '''    for cp in sorted(set(idn_table_repertoire).union(reference_lgr_repertoire)):
''')])]),
 ('rp_comp', [(R, None, [('''    reports = []
    for cp in sorted(idn_table_repertoire.keys() | reference_lgr_repertoire.keys()):
        idn_char = idn_table_repertoire.get(cp)
        ref_char = reference_lgr_repertoire.get(cp)
        report = RepertoireReport(idn_char, ref_char, set(reference_lgr.rules_lookup.keys()), unidb)
        reports.append(report.to_dict())
''', '''    rules_names = set(reference_lgr.rules_lookup)
    all_cp = sorted(idn_table_repertoire.keys() | reference_lgr_repertoire.keys())
    reports = [RepertoireReport(idn_table_repertoire.get(cp), reference_lgr_repertoire.get(cp),
                                rules_names, unidb).to_dict() for cp in all_cp]
''')])]),
 ('rp_core', [(R, None, [('''    invalid = 0
    for c in report:
        idna_props = set(c['idna_property'].split(' '))
        if idna_props != {'PVALID'}:
            invalid += 1
''', '''    invalid = sum(1 for c in report if set(c['idna_property'].split(' ')) != {'PVALID'})
''')])]),
 ('rp_core2', [(R, None, [('''        if idna_props != {'PVALID'}:
            invalid += 1
''', '''        if any(p != 'PVALID' for p in idna_props):
            invalid += 1
''')])]),
 ('rp_seq_guard', [(R, None, [('''        if len(char) > 1:
            for cp in char.cp:
                single_char = Char(cp)
                if single_char not in reference_lgr.repertoire and single_char in idn_table.repertoire:
                    results.append({
                        'idn_cp': single_char.cp,
                        'idn_glyph': str(single_char),
                        'idn_name': " ".join(unidb.get_char_name(cp) for cp in single_char.cp),
                        'ref_cp': char.cp,
                        'ref_glyph': str(char),
                        'ref_name': " ".join(unidb.get_char_name(cp) for cp in char.cp),
                    })
''', '''        if len(char) <= 1:
            continue
        for cp in char.cp:
            single_char = Char(cp)
            if single_char in reference_lgr.repertoire or single_char not in idn_table.repertoire:
                continue
            results.append({
                'idn_cp': single_char.cp,
                'idn_glyph': str(single_char),
                'idn_name': " ".join(unidb.get_char_name(c) for c in single_char.cp),
                'ref_cp': char.cp,
                'ref_glyph': str(char),
                'ref_name': " ".join(map(unidb.get_char_name, char.cp)),
            })
''')])]),
 ('hz_loop', [(H, None, [('''        # Find variants present in LGR 1 but not 2
        for variant_cp in lgr_1_variants - lgr_2_variants:
            if variant_cp not in h_lgr_2.repertoire:
                # Add variant to repertoire
                h_lgr_2.add_cp(variant_cp, comment='Out-of-repertoire')
                # Add identity mapping for newly added code point
                h_lgr_2.add_variant(variant_cp, variant_cp, variant_type='out-of-repertoire', comment='Out-of-repertoire')
            elif variant_cp == cp:
                # Do not consider identity mappings for in-repertoire code points
                continue
            # Add variant to LGR 2
            h_lgr_2.add_variant(cp, variant_cp, variant_type='blocked')
        # Find variants present in LGR 2 but not 1
        for variant_cp in lgr_2_variants - lgr_1_variants:
            if variant_cp not in h_lgr_1.repertoire:
                # Add variant to repertoire
                h_lgr_1.add_cp(variant_cp, comment='Out-of-repertoire')
                # Add identity mapping for newly added code point
                h_lgr_1.add_variant(variant_cp, variant_cp, variant_type='out-of-repertoire', comment='Out-of-repertoire')
            elif variant_cp == cp:
                # Do not consider identity mappings for in-repertoire code points
                continue
            # Add variant to LGR 1
            h_lgr_1.add_variant(cp, variant_cp, variant_type='blocked')
''', '''        _add_missing(h_lgr_2, cp, lgr_1_variants - lgr_2_variants)
        _add_missing(h_lgr_1, cp, lgr_2_variants - lgr_1_variants)
'''), ('''def harmonize(lgr_1''', '''def _add_missing(lgr, cp, variants):
    for variant_cp in variants:
        if variant_cp not in lgr.repertoire:
            # Add variant to repertoire
            lgr.add_cp(variant_cp, comment='Out-of-repertoire')
            # Add identity mapping for newly added code point
            lgr.add_variant(variant_cp, variant_cp, variant_type='out-of-repertoire', comment='Out-of-repertoire')
        elif variant_cp == cp:
            # Do not consider identity mappings for in-repertoire code points
            continue
        lgr.add_variant(cp, variant_cp, variant_type='blocked')


def harmonize(lgr_1''')])]),
 ('hz_pairs', [(H, None, [('''    if rz_lgr is not None:
        rz_lgr_work = deepcopy(rz_lgr)
        harmonize(h_lgr_1, rz_lgr_work, _copy=False)
        rz_lgr_work = deepcopy(rz_lgr)
        harmonize(h_lgr_2, rz_lgr_work, _copy=False)
''', '''    if rz_lgr is not None:
        for lgr in (h_lgr_1, h_lgr_2):
            harmonize(lgr, deepcopy(rz_lgr), _copy=False)
''')])]),
 ('hz_const', [(H, None, [("comment='Out-of-repertoire')\n                # Add identity mapping for newly added code point\n                h_lgr_2", "comment=OOR)\n                # Add identity mapping for newly added code point\n                h_lgr_2"), ("logger = logging", "OOR = 'Out-of-repertoire'\n\nlogger = logging")])]),
 ('hz_review', [(H, None, [('''    not_touched_cp = lgr_1_repertoire ^ lgr_2_repertoire

    return h_lgr_1, h_lgr_2, (lgr_1_repertoire & not_touched_cp, lgr_2_repertoire & not_touched_cp)
''', '''    return h_lgr_1, h_lgr_2, (lgr_1_repertoire - lgr_2_repertoire, lgr_2_repertoire - lgr_1_repertoire)
''')])]),
 ('hz_ver', [(H, None, [('''        if lgr.metadata.version is not None:
            lgr.metadata.version.comment = (lgr.metadata.version.comment or '') + ' - Harmonized'
''', '''        version = lgr.metadata.version
        if version is not None:
            version.comment = '{} - Harmonized'.format(version.comment or '')
''')])]),
 ('an_yieldfrom', [(A, None, [('''            for l in _out_valid_label(lgr, label, eligible, label_invalid_parts, disp, action_idx):
                yield l
        else:
            yield "%s: %s\\n" % (label, error)
''', '''            yield from _out_valid_label(lgr, label, eligible, label_invalid_parts, disp, action_idx)
        else:
            yield "{}: {}\\n".format(label, error)
''')])]),
 ('an_guard', [(A, None, [('''        if valid:
            label_cp = tuple([ord(c) for c in label])
            (eligible, _, label_invalid_parts, disp, action_idx, _) = lgr.test_label_eligible(label_cp,
                                                                                              collect_log=False)
            for l in _out_valid_label(lgr, label, eligible, label_invalid_parts, disp, action_idx):
                yield l
        else:
            yield "%s: %s\\n" % (label, error)
''', '''        if not valid:
            yield "%s: %s\\n" % (label, error)
            continue
        label_cp = tuple(map(ord, label))
        (eligible, _, label_invalid_parts, disp, action_idx, _) = lgr.test_label_eligible(label_cp,
                                                                                          collect_log=False)
        for line in _out_valid_label(lgr, label, eligible, label_invalid_parts, disp, action_idx):
            yield line
''')])]),
 ('an_reason', [(A, None, [('''        yield " Code point {cp} {reason}\\n".format(
            cp="U+{:04X}".format(cp_not_in_lgr),
            reason="not in repertoire" if rules is None else "does not comply with rules '{}'".format(','.join(rules))
        )
''', '''        if rules is None:
            reason = "not in repertoire"
        else:
            reason = "does not comply with rules '{}'".format(','.join(rules))
        yield " Code point U+{:04X} {}\\n".format(cp_not_in_lgr, reason)
''')])]),
 ('id_any', [(I, None, [('''    for v in char.get_reflexive_variants():
        if v.type and v.type.lower().startswith('out-of-repertoire'):
            return True
    return False
''', '''    return any(v.type and v.type.lower().startswith('out-of-repertoire') for v in char.get_reflexive_variants())
''')])]),
 ('id_2003', [(I, None, [('''        data['idna2003_compliant'] = True
        for c in data['cp']:
            if unidb.is_idna2003_disallowed(c):
                data['idna2003_compliant'] = False
                break
''', '''        data['idna2003_compliant'] = not any(unidb.is_idna2003_disallowed(c) for c in data['cp'])
''')])]),
 ('id_chars', [(I, None, [('''    report = cp_report(unidb, [char for char in idn_table.repertoire.all_repertoire() if
                               not is_out_of_repertoire(char) and not is_idna_valid_cp_or_sequence(char.cp, unidb)[0]])
''', '''    invalid_chars = []
    for char in idn_table.repertoire.all_repertoire():
        if is_out_of_repertoire(char):
            continue
        valid, _ = is_idna_valid_cp_or_sequence(char.cp, unidb)
        if not valid:
            invalid_chars.append(char)
    report = cp_report(unidb, invalid_chars)
''')])]),
 ('ms_script', [(S, None, [('''    try:
        return lgr.metadata.languages[0]
    except IndexError:
        return ''
''', '''    languages = lgr.metadata.languages
    return languages[0] if languages else ''
''')])]),
 ('ms_version', [(S, None, [('''    for version in [lgr.metadata.version for lgr in lgr_set]:
        if not version:
            continue
        if version.value:
            values.update(OrderedDict.fromkeys([version.value]))
        if version.comment:
            comments.update(OrderedDict.fromkeys([version.comment]))
''', '''    for lgr in lgr_set:
        version = lgr.metadata.version
        if not version:
            continue
        if version.value:
            values[version.value] = None
        if version.comment:
            comments[version.comment] = None
''')])]),
 ('ms_version_list', [(S, None, [('''    values = OrderedDict()
    comments = OrderedDict()
    for version''', '''    values = []
    comments = []
    for version'''), ('''        if version.value:
            values.update(OrderedDict.fromkeys([version.value]))
        if version.comment:
            comments.update(OrderedDict.fromkeys([version.comment]))

    return Version('|'.join(values.keys()), '|'.join(comments.keys()))
''', '''        if version.value and version.value not in values:
            values.append(version.value)
        if version.comment and version.comment not in comments:
            comments.append(version.comment)

    return Version('|'.join(values), '|'.join(comments))
''')])]),
 ('ms_desc', [(S, None, [('''    values = []
    all_html = True
    for lgr in lgr_set:
        description = lgr.metadata.description
        script = get_script(lgr)
        if description:
            values.append((script, description))
            all_html &= description.description_type == 'text/html'
''', '''    values = [(get_script(lgr), lgr.metadata.description) for lgr in lgr_set if lgr.metadata.description]
    all_html = all(description.description_type == 'text/html' for _, description in values)
''')])]),
 ('ms_refs', [(S, None, [('''            if ref not in inserted_references:
                if ref_id not in merged_lgr.reference_manager.keys():
                    merged_lgr.reference_manager.add_reference(ref, ref_id=ref_id, comment=ref_dict.get('comment'))
                else:
                    new_id = merged_lgr.add_reference(ref, comment=ref_dict.get('comment'))
                    ref_mapping[script][ref_id] = new_id
            else:
                if ref_id != inserted_references[ref]:
                    ref_mapping[script][ref_id] = inserted_references[ref]
''', '''            if ref in inserted_references:
                if ref_id != inserted_references[ref]:
                    ref_mapping[script][ref_id] = inserted_references[ref]
            elif ref_id in merged_lgr.reference_manager:
                ref_mapping[script][ref_id] = merged_lgr.add_reference(ref, comment=ref_dict.get('comment'))
            else:
                merged_lgr.reference_manager.add_reference(ref, comment=ref_dict.get('comment'), ref_id=ref_id)
''')])]),
 ('ms_rename', [(S, None, [('''    if action.match:
        if action.match not in MSR_2_RULES:
            new_action.match = script + '-' + action.match
        else:
            # Prefix MSR action with 'Common-'
            new_action.match = 'Common-' + action.match
''', '''    if action.match:
        prefix = 'Common' if action.match in MSR_2_RULES else script
        new_action.match = '{}-{}'.format(prefix, action.match)
''')])]),
 ('ms_actions_zip', [(S, None, [('''    for idx in range(len(lgr.actions)):
        action = lgr.actions[idx]
        action_xml = lgr.actions_xml[idx]
''', '''    for action, action_xml in zip(lgr.actions, lgr.actions_xml):
''')])]),
 ('ms_newref', [(S, None, [('''def merge_actions(''', '''def _map_refs(ref_mapping, script, references):
    mapping = ref_mapping.get(script, {})
    return [mapping.get(ref, ref) for ref in references]


def merge_actions('''), ('''        new_ref = [ref_mapping.get(script, {}).get(x, x) for x in action.references]
''', '''        new_ref = _map_refs(ref_mapping, script, action.references)
'''), ('''        new_ref = [ref_mapping.get(script, {}).get(x, x) for x in rule.references]
''', '''        new_ref = _map_refs(ref_mapping, script, rule.references)
''')])]),
 ('ms_fmt', [(S, None, [('''    new_class_name = script + '-' + classe.name
''', '''    new_class_name = f'{script}-{classe.name}'
'''), ('''r'name="{}-\\1"'.format(script), class_xml)''', '''r'name="' + script + r'-\\1"', class_xml)''')])]),
 ('ms_exist', [(S, None, [('''        existing_char = None
        if char in merged_chars:
            existing_char = merged_chars[char]

        if existing_char:
''', '''        existing_char = merged_chars.get(char)
        if existing_char:
''')])]),
 ('ms_tags', [(S, None, [('''            existing_char.tags = sorted(set.union(set(existing_char.tags), set(new_tags)))
''', '''            existing_char.tags = sorted(set(existing_char.tags) | set(new_tags))
'''), ('''                          tag=list(new_tags),
''', '''                          tag=new_tags,
''')])]),
 ('ms_when', [(S, None, [('''        when = None
        not_when = None
        if char.when:
            when = script + '-' + char.when
        if char.not_when:
            not_when = script + '-' + char.not_when

        new_ref''', '''        when = script + '-' + char.when if char.when else None
        not_when = script + '-' + char.not_when if char.not_when else None

        new_ref''')])]),
 ('ms_trans', [(S, None, [('''                for cp, var_cp in ((v1.cp, v2.cp), (v2.cp, v1.cp)):
                    try:
                        merged_lgr.add_variant(cp, var_cp, variant_type='blocked',
                                               comment='New variant for merge to keep transitivity')
                    except VariantAlreadyExists:
                        # already added because of another code point shared by both scripts
                        pass
''', '''                _add_once(merged_lgr, v1.cp, v2.cp)
                _add_once(merged_lgr, v2.cp, v1.cp)
'''), ('''def merge_lgr_set(''', '''def _add_once(lgr, cp, var_cp):
    try:
        lgr.add_variant(cp, var_cp, variant_type='blocked',
                        comment='New variant for merge to keep transitivity')
    except VariantAlreadyExists:
        # already added because of another code point shared by both scripts
        pass


def merge_lgr_set(''')])]),
 ('ut_label', [(U, None, [("return ''.join((wide_unichr(c) for c in cp_or_sequence))", "return ''.join(map(wide_unichr, cp_or_sequence))")])]),
 ('ut_fmt', [(U, None, [("return ' '.join(['U+{0}'.format(cp_to_str(c)) for c in cp_or_sequence])", "return ' '.join('U+{:04X}'.format(c) for c in cp_or_sequence)")])]),
 ('ut_fmt2', [(U, None, [("return ' '.join(['U+{0}'.format(cp_to_str(c)) for c in cp_or_sequence])", "return ' '.join('U+' + cp_to_str(c) for c in cp_or_sequence)")])]),
 ('ut_script_table', [(U, None, [('''    if script == 'Aran':
        return ['Arab']
    elif script == 'Geok':
        return ['Geor']
    elif script in ['Hans', 'Hant']:
        return ['Hani']
    elif script == 'Hrkt':
        return ['Hira', 'Kana']
    elif script == 'Jpan':
        return ['Hani', 'Hira', 'Kana']
    elif script == 'Kore':
        return ['Hani', 'Hang']
    elif script in ['Latf', 'Latg']:
        return ['Latn']
    elif script in ['Syre', 'Syrj', 'Syrn']:
        return ['Syrc']
    return [script]
''', '''    return {
        'Aran': ['Arab'],
        'Geok': ['Geor'],
        'Hans': ['Hani'],
        'Hant': ['Hani'],
        'Hrkt': ['Hira', 'Kana'],
        'Jpan': ['Hani', 'Hira', 'Kana'],
        'Kore': ['Hani', 'Hang'],
        'Latf': ['Latn'],
        'Latg': ['Latn'],
        'Syre': ['Syrc'],
        'Syrj': ['Syrc'],
        'Syrn': ['Syrc'],
    }.get(script, [script])
''')])]),
 ('ut_script_tuple', [(U, None, [("elif script in ['Hans', 'Hant']:", "elif script in ('Hant', 'Hans'):"), ("elif script in ['Latf', 'Latg']:", "elif script in {'Latf', 'Latg'}:")])]),
 ('ut_collapse', [(U, None, [('''    first_cp = codepoints[0]
    last_cp = codepoints[0]
    for cp in codepoints[1:]:
        if cp == last_cp + 1:
            # Code point is continuous of last one, extend range
            last_cp = cp
        else:
            # Code point is not successor of last one, create new range
            result.append((first_cp, last_cp))
            first_cp = cp
            last_cp = cp
''', '''    first_cp = last_cp = codepoints[0]
    for cp in codepoints[1:]:
        if cp != last_cp + 1:
            # Code point is not successor of last one, create new range
            result.append((first_cp, last_cp))
            first_cp = cp
        last_cp = cp
''')])]),
 ('ut_choose', [(U, None, [('''    if first is None:
        return second
    if second is None:
        return first
    if first == second:
        return first
    return '{0!s}{1!s}{2!s}'.format(first, separator, second)
''', '''    if first is None:
        return second
    if second is None or first == second:
        return first
    return str(first) + separator + str(second)
''')])]),
 ('ut_idna', [(U, None, [('''        prop = udata.get_idna_prop(cp)
        if prop not in VALID_IDNA_PROPERTY_VALUES:
            all_invalid[cp] = prop
            if not check_all:
                return False, all_invalid
    return len(all_invalid) == 0, all_invalid
''', '''        prop = udata.get_idna_prop(cp)
        if prop in VALID_IDNA_PROPERTY_VALUES:
            continue
        all_invalid[cp] = prop
        if not check_all:
            break
    return not all_invalid, all_invalid
''')])]),
 ('ut_lang', [(U, None, [('''        splitted = tag.split('-', 1)
        lang = splitted[0]
''', '''        lang, rest = tag.split('-', 1)
'''), ('''        splitted[0] = lang_2
        tag = '-'.join(splitted)
''', '''        tag = lang_2 + '-' + rest
''')])]),
]
