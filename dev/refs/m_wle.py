W = 'lgr/tools/idn_review/whole_label_evaluation_rules.py'
L = 'lgr/tools/idn_review/language_tag.py'
C = 'lgr/tools/idn_review/classes.py'
A = 'lgr/tools/idn_review/actions.py'
S = 'lgr/tools/idn_review/summary.py'
H = 'lgr/tools/idn_review/header.py'
REFS = [
 ('w_rtl_any', [(W, None, [('''        self.is_rtl = False
        for script in self.idn_table.metadata.get_scripts(allow_invalid=True):
            if self.idn_table.unicode_database.is_script_rtl(script):
                self.is_rtl = True
''', '''        self.is_rtl = any(self.idn_table.unicode_database.is_script_rtl(script)
                          for script in self.idn_table.metadata.get_scripts(allow_invalid=True))
''')])]),
 ('w_rtl_break', [(W, None, [('''                self.is_rtl = True

    def get_language_tags''', '''                self.is_rtl = True
                break

    def get_language_tags''')])]),
 ('w_tags', [(W, None, [('''        for language_tag in sorted(table.metadata.languages):
            tag = tags.tag(language_tag)
            if tag.language:
                self.language_tags.append(tag.language.format)
        self.language_tags.extend(table''', '''        parsed = [tags.tag(language_tag) for language_tag in sorted(table.metadata.languages)]
        self.language_tags += [tag.language.format for tag in parsed if tag.language]
        self.language_tags.extend(table''')])]),
 ('w_unidb', [(W, None, [('''        nbr_digits = 0
        for char in self.idn_table''', '''        nbr_digits = 0
        unidb = self.idn_table.unicode_database
        for char in self.idn_table'''), ('if self.idn_table.unicode_database.is_digit(cp)', 'if unidb.is_digit(cp)'), ('if self.idn_table.unicode_database.is_combining_mark(cp)', 'if unidb.is_combining_mark(cp)')])]),
 ('w_digits', [(W, None, [('''                    nbr_digits += 1
                    self.has_digits = True
''', '''                    nbr_digits += 1
'''), ('''        self.has_multiple_digits_sets = nbr_digits > 10
''', '''        self.has_digits = nbr_digits > 0
        self.has_multiple_digits_sets = nbr_digits > 10
''')])]),
 ('w_when', [(W, None, [('''            if char.when:
                self.idn_table_context_rules.setdefault(char.when, set()).add(char.cp)
            elif char.not_when:
                self.idn_table_context_rules.setdefault(char.not_when, set()).add(char.cp)
            elif''', '''            rule = char.when or char.not_when
            if rule:
                self.idn_table_context_rules.setdefault(rule, set()).add(char.cp)
            elif''')])]),
 ('w_when_loop', [(W, None, [('''                if char.when:
                    self.reference_lgr_context_rules.setdefault(char.when, set()).add(char.cp)
                if char.not_when:
                    self.reference_lgr_context_rules.setdefault(char.not_when, set()).add(char.cp)
''', '''                for rule in (char.when, char.not_when):
                    if rule:
                        self.reference_lgr_context_rules.setdefault(rule, set()).add(char.cp)
''')])]),
 ('w_labels', [(W, None, [('''            ls = SAME_SCRIPTS.get(ls, ls)
            l = collection.get(ls)
            if l:
                labels.extend(l)
        return labels
''', '''            labels.extend(collection.get(SAME_SCRIPTS.get(ls, ls), []))
        return labels
''')])]),
 ('w_labels_comp', [(W, None, [('''        labels = []
        for ls in self.language_tags:
            ls = SAME_SCRIPTS.get(ls, ls)
            l = collection.get(ls)
            if l:
                labels.extend(l)
        return labels
''', '''        return [label for ls in self.language_tags for label in collection.get(SAME_SCRIPTS.get(ls, ls), [])]
''')])]),
 ('w_report', [(W, None, [('''        result = None
        if condition:
            for label in self.get_labels(collection):
                if not self.check_label_cp_in_repertoire(label):
                    result = None
                    break
                result = not self.test_label(label)
                if not result:
                    # label is eligible, rule does not exist, stop here
                    break

        return {
            'applicable': condition,
            'exists': result,
        }
''', '''        return {
            'applicable': condition,
            'exists': self._rule_exists(collection) if condition else None,
        }

    def _rule_exists(self, collection):
        result = None
        for label in self.get_labels(collection):
            if not self.check_label_cp_in_repertoire(label):
                return None
            result = not self.test_label(label)
            if not result:
                # label is eligible, rule does not exist, stop here
                return result
        return result
''')])]),
 ('w_check', [(W, None, [('''            if isinstance(char, CharSequence):
                if not char.is_prefix_of(label):
                    continue
                else:
                    result |= self.check_label_cp_in_repertoire(label[len(char):])
            elif len(label) > 1:
                result |= self.check_label_cp_in_repertoire(label[1:])
            else:
                return True

        return result
''', '''            if isinstance(char, CharSequence):
                if char.is_prefix_of(label):
                    result = self.check_label_cp_in_repertoire(label[len(char):]) or result
            elif len(label) <= 1:
                return True
            else:
                result = self.check_label_cp_in_repertoire(label[1:]) or result

        return result
''')])]),
 ('w_check_early', [(W, None, [('''                else:
                    result |= self.check_label_cp_in_repertoire(label[len(char):])
''', '''                if self.check_label_cp_in_repertoire(label[len(char):]):
                    return True
''')])]),
 ('w_lang', [(W, None, [('''        is_language = False
        for ls in self.language_tags:
            if SAME_SCRIPTS.get(ls, ls) == language_code:
                is_language = True
        return is_language
''', '''        return language_code in [SAME_SCRIPTS.get(ls, ls) for ls in self.language_tags]
''')])]),
 ('w_eligible', [(W, None, [('''        result, a, b, c, d, e = self.idn_table.test_label_eligible(label)
        return result
''', '''        return self.idn_table.test_label_eligible(label)[0]
''')])]),
 ('w_gen', [(W, None, [('''    reports = []
    for rule_name in sorted(idn_table.rules_lookup.keys() | reference_lgr.rules_lookup.keys()):
        report = WholeLabelEvaluationRuleReport(''', '''    reports = []
    rule_names = set(idn_table.rules_lookup) | set(reference_lgr.rules_lookup)
    for rule_name in sorted(rule_names):
        report = WholeLabelEvaluationRuleReport('''), ('''    result = {
        'comparison': reports,
        'additional_cp': check.additional_cp_report(),
    }
    result.update(generate_additional_general_rules(check))
    return result
''', '''    return {
        'comparison': reports,
        'additional_cp': check.additional_cp_report(),
        **generate_additional_general_rules(check),
    }
''')])]),
 ('w_cmp', [(W, None, [('''        if str(self.idn_table_rule) == str(self.reference_lgr_rule):
            if not (self.idn_table_context ^ self.reference_lgr_context):
                return IdnReviewResult.MATCH, "Exact Match (matched names and content)"

        return IdnReviewResult.MANUAL_CHECK, "Check the content of the rule"
''', '''        if (str(self.idn_table_rule) != str(self.reference_lgr_rule) or
                self.idn_table_context != self.reference_lgr_context):
            return IdnReviewResult.MANUAL_CHECK, "Check the content of the rule"
        return IdnReviewResult.MATCH, "Exact Match (matched names and content)"
''')])]),
 ('w_disjoint', [(W, None, [('not (self.idn_table_repertoire & self.reference_lgr_context)', 'self.idn_table_repertoire.isdisjoint(self.reference_lgr_context)')])]),
 ('l_cmp', [(L, None, [('''        if idn_language == ref_language and idn_script == ref_script:
''', '''        if (idn_language, idn_script) == (ref_language, ref_script):
''')])]),
 ('l_errs', [(L, None, [('''        if idn_tag.ERR_UNKNOWN in [e.code for e in idn_tag.errors]:
''', '''        error_codes = {e.code for e in idn_tag.errors}
        if idn_tag.ERR_UNKNOWN in error_codes:
'''), ('''            if idn_tag.ERR_SUPPRESS_SCRIPT in [e.code for e in idn_tag.errors]:
''', '''            if idn_tag.ERR_SUPPRESS_SCRIPT in error_codes:
''')])]),
 ('l_any', [(L, None, [('''        if idn_tag.ERR_UNKNOWN in [e.code for e in idn_tag.errors]:
''', '''        if any(e.code == idn_tag.ERR_UNKNOWN for e in idn_tag.errors):
''')])]),
 ('l_sorted', [(L, None, [('''        for tag in self.reference_lgr_languages:
            result''', '''        for tag in sorted(self.reference_lgr_languages):
            result'''), ('''sorted(comparisons, key=lambda x: x['reference_lgr_language_tag'])''', 'comparisons')])]),
 ('l_key', [(L, None, [('''key=lambda x: x['reference_lgr_language_tag']''', '''key=itemgetter('reference_lgr_language_tag')'''), ('import logging\n', 'import logging\nfrom operator import itemgetter\n')])]),
 ('l_gen', [(L, None, [('''    reports: List[Dict] = []
    language_tags = sorted(idn_table.metadata.languages)
    for language_tag in language_tags:
        reports.append(LanguageTagReport(language_tag, reference_lgr.metadata.languages).to_dict())
    if not language_tags:
        reports.append(LanguageTagReport(None, reference_lgr.metadata.languages).to_dict())
    return reports
''', '''    language_tags = sorted(idn_table.metadata.languages) or [None]
    return [LanguageTagReport(language_tag, reference_lgr.metadata.languages).to_dict()
            for language_tag in language_tags]
''')])]),
 ('c_neq', [(C, None, [('if not self.idn_table_cp ^ self.ref_lgr_cp:', 'if self.idn_table_cp == self.ref_lgr_cp:')])]),
 ('c_extra', [(C, None, [('if extra_idn and extra_idn & self.reference_lgr_repertoire:', 'if extra_idn & self.reference_lgr_repertoire:')])]),
 ('c_remark', [(C, None, [('''        result = None
        remark = []
        if extra_idn and''', '''        remark = []
        if extra_idn and'''), ('''            result = IdnReviewResult.REVIEW
            remark.append("Mismatch class members (extra''', '''            remark.append("Mismatch class members (extra'''), ('''            result = IdnReviewResult.REVIEW
            remark.append("Mismatch class members (missing''', '''            remark.append("Mismatch class members (missing'''), ('''        if result:
            return result, '\\n'.join(remark)
''', '''        if remark:
            return IdnReviewResult.REVIEW, '\\n'.join(remark)
''')])]),
 ('c_key', [(C, None, [('''# TODO factorize with''', '''def _class_order(name):
    return name.startswith(TAG_CLASSNAME_PREFIX), name


# TODO factorize with'''), ('''    for clz_name in sorted(lgr.classes_lookup.keys(), key=lambda x: (x.startswith(TAG_CLASSNAME_PREFIX), x)):
        clz = lgr.classes_lookup[clz_name]
''', '''    for clz_name in sorted(lgr.classes_lookup, key=_class_order):
        clz = lgr.classes_lookup[clz_name]
'''), ('''ref_lgr_members.keys(),
                           key=lambda x: (x.startswith(TAG_CLASSNAME_PREFIX), x)):''', '''ref_lgr_members.keys(), key=_class_order):''')])]),
 ('c_items', [(C, None, [('''    for clz_name in sorted(lgr.classes_lookup.keys(), key=lambda x: (x.startswith(TAG_CLASSNAME_PREFIX), x)):
        clz = lgr.classes_lookup[clz_name]
        if clz.implicit:
            # Class is implicit
            continue
        try:
            clz_members = clz.get_pattern(lgr.rules_lookup, lgr.classes_lookup,
                                          lgr.unicode_database, as_set=True) & repertoire
        except RuntimeError:
            clz_members = []
        members[clz_name] = clz_members
''', '''    for clz_name, clz in sorted(lgr.classes_lookup.items(), key=lambda x: (x[0].startswith(TAG_CLASSNAME_PREFIX), x[0])):
        if clz.implicit:
            # Class is implicit
            continue
        try:
            members[clz_name] = clz.get_pattern(lgr.rules_lookup, lgr.classes_lookup,
                                                lgr.unicode_database, as_set=True) & repertoire
        except RuntimeError:
            members[clz_name] = []
''')])]),
 ('c_name', [(C, None, [('''    for clz_name in sorted(idn_table_members''', '''    idn_set, ref_set = set(idn_table_repertoire), set(ref_lgr_repertoire)
    for clz_name in sorted(idn_table_members'''), ('''set(idn_table_repertoire), set(ref_lgr_repertoire)).to_dict()''', '''idn_set, ref_set).to_dict()''')])]),
 ('a_enum', [(A, None, [('''    idx = 0
    for a in idn_table.actions:
        idx += 1
        name''', '''    for idx, a in enumerate(idn_table.actions, 1):
        name'''), ('''    idx = 0
    for a in reference_lgr.actions:
        idx += 1
        name''', '''    for idx, a in enumerate(reference_lgr.actions, start=1):
        name''')])]),
 ('a_helper', [(A, None, [('''    idn_actions = OrderedDict()  # only necessary for Python < 3.7
    ref_actions = OrderedDict()
    idx = 0
    for a in idn_table.actions:
        idx += 1
        name = f' ({a.comment})' if a.comment else ''
        idn_actions[f'IDN Table-{idx}{name}'] = a
    idx = 0
    for a in reference_lgr.actions:
        idx += 1
        name = f' ({a.comment})' if a.comment else ''
        ref_actions[f'Ref. LGR-{idx}{name}'] = a
''', '''    idn_actions = _named('IDN Table', idn_table.actions)
    ref_actions = _named('Ref. LGR', reference_lgr.actions)
'''), ('''def generate_actions_report(''', '''def _named(prefix, actions):
    named = OrderedDict()
    for idx, a in enumerate(actions, 1):
        name = f' ({a.comment})' if a.comment else ''
        named[f'{prefix}-{idx}{name}'] = a
    return named


def generate_actions_report(''')])]),
 ('a_comp', [(A, None, [('''    matching_idn_actions_ordered: List[Action] = []
    matching_ref_actions_ordered: List[Action] = []
    for action in idn_actions.values():
        if action in matching_actions:
            matching_idn_actions_ordered.append(action)
    for action in ref_actions.values():
        if action in matching_actions:
            matching_ref_actions_ordered.append(action)
''', '''    matching_idn_actions_ordered = [a for a in idn_actions.values() if a in matching_actions]
    matching_ref_actions_ordered = [a for a in ref_actions.values() if a in matching_actions]
''')])]),
 ('a_tern', [(A, None, [('''    sequence_match: IdnReviewResult.name = IdnReviewResult.MANUAL_CHECK.name
    if idn_actions.values() and  matching_idn_actions_ordered == matching_ref_actions_ordered:
        sequence_match = IdnReviewResult.MATCH.name
''', '''    same_sequence = idn_actions.values() and matching_idn_actions_ordered == matching_ref_actions_ordered
    sequence_match = (IdnReviewResult.MATCH if same_sequence else IdnReviewResult.MANUAL_CHECK).name
''')])]),
 ('a_in', [(A, None, [('''        if action in matching_ref_actions_ordered:
            continue
        action_reports.append(
            ActionReport(name, False, True, IdnReviewResult.MANUAL_CHECK, 'Mismatch (missing action)'))
''', '''        if action not in matching_actions:
            action_reports.append(
                ActionReport(name, False, True, IdnReviewResult.MANUAL_CHECK, 'Mismatch (missing action)'))
''')])]),
 ('s_res', [(S, None, [('''            result = report[res_k] if result and IdnReviewResult[report[res_k].replace(' ', '_')] > IdnReviewResult[
                result.replace(' ', '_')] else result
''', '''            current = IdnReviewResult[report[res_k].replace(' ', '_')]
            if result and current > IdnReviewResult[result.replace(' ', '_')]:
                result = report[res_k]
''')])]),
 ('s_cnt', [(S, None, [('''            remarks.update((report[rem_k],))
''', '''            remarks[report[rem_k]] += 1
''')])]),
 ('s_keys', [(S, None, [('''    keys = keys or (('result', 'remark'),)
''', '''    if not keys:
        keys = (('result', 'remark'),)
''')])]),
 ('s_list', [(S, None, [('''    return {
        'overall': result,
        'results': [{
            'result': result_remarks[k],
            'remark': k,
            'count': v
        } for k, v in remarks.items()]
    }
''', '''    results = []
    for remark, count in remarks.items():
        results.append({'result': result_remarks[remark], 'remark': remark, 'count': count})
    return {'overall': result, 'results': results}
''')])]),
 ('h_helper', [(H, None, [('''def generate_header(''', '''def _version(lgr):
    try:
        return lgr.metadata.version.value
    except BaseException:
        return None


def generate_header('''), ('''    try:
        idn_table_version = idn_table.metadata.version.value
    except BaseException:
        idn_table_version = None
''', '''    idn_table_version = _version(idn_table)
'''), ('''        try:
            ref_lgr_version = reference_lgr.metadata.version.value
        except BaseException:
            ref_lgr_version = None
''', '''        ref_lgr_version = _version(reference_lgr)
''')])]),
]
