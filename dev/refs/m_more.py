F = 'lgr/rfc7940.py'
U = 'lgr/tools/compare/union.py'
I = 'lgr/tools/compare/intersect.py'
M = 'lgr/metadata.py'
T = 'lgr/utils.py'
C = 'lgr/char.py'
V = 'lgr/tools/idn_review/variant_sets.py'
def r(name, f, *pairs):
    return (name, [(f, None, list(pairs))])
REFS = [
 r('f_nopolicy', F, ('''        if policy is None:
            if False in self.test_result.values():
                return "FAIL"
            return "PASS"
''', '''        if policy is None:
            return "FAIL" if False in self.test_result.values() else "PASS"
''')),
 r('f_desc', F, ('''            elif not self.test_result[test]:
                p = policy[test]
                if p == "IGNORE":
                    if verbose:
                        info += "IGNORE: " + desc + " - NOK\\n"
                elif p == "WARNING":
                    got_warning = True
                    if verbose:
                        info += "WARNING: " + desc + " - NOK\\n"
                else:
                    got_error = True
                    if verbose:
                        info += "ERROR: " + desc + " - NOK\\n"
''', '''            elif not self.test_result[test]:
                level = policy[test]
                if level not in ("IGNORE", "WARNING"):
                    level = "ERROR"
                if level == "WARNING":
                    got_warning = True
                elif level == "ERROR":
                    got_error = True
                if verbose:
                    info += level + ": " + desc + " - NOK\\n"
''')),
 r('f_items', F, ('''        for test in policy:
            desc''', '''        for test, p in policy.items():
            desc'''), ('''                p = policy[test]
                if p ==''', '''                if p ==''')),
 r('f_final', F, ('''        if verbose:
            info += "Validation result: "
        if got_error:
            info += "FAIL"
        elif got_warning:
            info += "WARN"
        else:
            info += "PASS"
        return info
''', '''        result = "FAIL" if got_error else "WARN" if got_warning else "PASS"
        if verbose:
            return info + "Validation result: " + result
        return info + result
''')),
 r('f_format', F, ('''info += "PASS: " + desc + " - OK\\n"
''', '''info += "PASS: {} - OK\\n".format(desc)
''')),
 r('u_sets', U, ('''    for cp in set.intersection(first_cps, second_cps):
''', '''    for cp in first_cps & second_cps:
'''), ('''    for cp in set.difference(first_cps, second_cps):
''', '''    for cp in first_cps - second_cps:
'''), ('''    for cp in set.difference(second_cps, first_cps):
''', '''    for cp in second_cps.difference(first_cps):
''')),
 r('u_copy_fn', U, ('''    for cp in set.difference(second_cps, first_cps):
        char = lgr2.get_char(cp)

        lgr.add_cp(char.cp,
                   comment=char.comment,
                   #ref=char.references,
                   tag=char.tags,
                   when=char.when, not_when=char.not_when)

        for v in char.get_variants():
            lgr.add_variant(char.cp, v.cp, variant_type=v.type,
                            when=v.when, not_when=v.not_when,
                            comment=v.comment)
''', '''    for cp in set.difference(second_cps, first_cps):
        _copy_char(lgr, lgr2.get_char(cp))
'''), ('''def union_lgrs(''', '''def _copy_char(lgr, char):
    lgr.add_cp(char.cp,
               comment=char.comment,
               tag=char.tags,
               when=char.when, not_when=char.not_when)
    for v in char.get_variants():
        lgr.add_variant(char.cp, v.cp, variant_type=v.type,
                        when=v.when, not_when=v.not_when,
                        comment=v.comment)


def union_lgrs(''')),
 r('u_assign', U, ('''    (actions, actions_xml) = union_actions(lgr1, lgr2)
    lgr.actions = copy.deepcopy(actions)
    lgr.actions_xml = actions_xml

    (rules, rules_xml) = union_rules(lgr1, lgr2)
    lgr.rules = rules
    lgr.rules_xml = rules_xml
''', '''    lgr.rules, lgr.rules_xml = union_rules(lgr1, lgr2)

    (actions, lgr.actions_xml) = union_actions(lgr1, lgr2)
    lgr.actions = copy.deepcopy(actions)
''')),
 r('u_refs', U, ('''    references = union_reference_manager(lgr1.reference_manager,
                                         lgr2.reference_manager)
    lgr.reference_manager = references
''', '''    lgr.reference_manager = union_reference_manager(lgr1.reference_manager,
                                                    lgr2.reference_manager)
''')),
 r('i_rules', I, ('''    for rule_name in [r for r in lgr1.rules if r in lgr2.rules]:
        rule_1 = lgr1''', '''    for rule_name in lgr1.rules:
        if rule_name not in lgr2.rules:
            continue
        rule_1 = lgr1''')),
 r('i_else', I, ('''        if rule_1 == rule_2:
            rules_xml.append(rule_1)
            rules.append(rule_name)
            continue

        rule_1 =''', '''        if rule_1 == rule_2:
            rules.append(rule_name)
            rules_xml.append(rule_1)
            continue

        rule_1 =''')),
 r('i_extend', I, ('''        rules_xml.append(rule_1)
        rules_xml.append(rule_2)

        rules.append(rule_name + '_1')
        rules.append(rule_name + '_2')
''', '''        rules_xml.extend([rule_1, rule_2])
        rules.extend([rule_name + '_1', rule_name + '_2'])
''')),
 r('i_plus', I, ('''        rules_xml.append(rule_1)
        rules_xml.append(rule_2)

        rules.append(rule_name + '_1')
        rules.append(rule_name + '_2')
''', '''        rules_xml += [rule_1, rule_2]
        rules += ['{}_{}'.format(rule_name, n) for n in (1, 2)]
''')),
 r('m_date', M, ('''            date_elements = [int(d) for d in date_elements]
            date_object = datetime.date(date_elements[0],
                                        date_elements[1],
                                        date_elements[2])
            if date_object.isoformat() == date:
''', '''            date_object = datetime.date(*[int(d) for d in date_elements])
            if date_object.isoformat() == date:
''')),
 r('m_date_unpack', M, ('''            date_elements = [int(d) for d in date_elements]
            date_object = datetime.date(date_elements[0],
                                        date_elements[1],
                                        date_elements[2])
            if date_object.isoformat() == date:
''', '''            year, month, day = (int(d) for d in date_elements)
            date_object = datetime.date(year, month, day)
            if date_object.isoformat() == date:
''')),
 r('m_date_pass', M, ('''        except ValueError:
            logger.log(logging.WARNING if force else logging.ERROR,
                       "Invalid date format: '%s'", date)
            if force:
                return date
            else:
                raise LGRFormatException(LGRFormatException.
                                         LGRFormatReason.INVALID_DATE_TAG)

    logger''', '''        except ValueError:
            pass

    logger''')),
 r('m_date_notforce', M, ('''               "Invalid date format: '%s'", date)
    if force:
        return date
    else:
        raise LGRFormatException(LGRFormatException.
                                 LGRFormatReason.INVALID_DATE_TAG)


class Version''', '''               "Invalid date format: '%s'", date)
    if not force:
        raise LGRFormatException(LGRFormatException.LGRFormatReason.INVALID_DATE_TAG)
    return date


class Version''')),
 r('t_collapsed', T, ('''        if start == end:
            formatted.append('U+{0}'.format(cp_to_str(start)))
        elif end == start + 1:
            formatted.extend(['U+{0}'.format(cp_to_str(start)), 'U+{0}'.format(cp_to_str(end))])
        else:
            formatted.append('-'.join(['U+{0}'.format(cp_to_str(start)), 'U+{0}'.format(cp_to_str(end))]))
''', '''        first, last = 'U+' + cp_to_str(start), 'U+' + cp_to_str(end)
        if start == end:
            formatted.append(first)
        elif end - start == 1:
            formatted += [first, last]
        else:
            formatted.append(first + '-' + last)
''')),
 r('t_collapsed2', T, ('''            formatted.extend(['U+{0}'.format(cp_to_str(start)), 'U+{0}'.format(cp_to_str(end))])
''', '''            formatted.append('U+{0}'.format(cp_to_str(start)))
            formatted.append('U+{0}'.format(cp_to_str(end)))
''')),
 r('c_vs_inner', C, ('''                if variant.cp in visited:
                    continue
                try:
                    reverse_char = self.get_char(variant.cp)
                except NotInLGR:
                    if force:
                        dfs(CharBase(variant.cp), visited)
                    # Ignore invalid LGR
                    continue
                dfs(reverse_char, visited)
''', '''                if variant.cp not in visited:
                    try:
                        reverse_char = self.get_char(variant.cp)
                    except NotInLGR:
                        # Ignore invalid LGR
                        if not force:
                            continue
                        reverse_char = CharBase(variant.cp)
                    dfs(reverse_char, visited)
''')),
 r('c_vs_sorted', C, ('''        for index in sorted(self._chardict.keys()):
            for char in self._chardict[index]:
                # XXX: Convert''', '''        for index in sorted(self._chardict):
            for char in self._chardict[index]:
                # XXX: Convert''')),
 r('c_vs_items', C, ('''        for index in sorted(self._chardict.keys()):
            for char in self._chardict[index]:
                # XXX: Convert''', '''        for _, chars in sorted(self._chardict.items(), key=lambda item: item[0]):
            for char in chars:
                # XXX: Convert''')),
 r('c_vs_min', C, ('''                if len(variant_set) > 1:
                    lowest = min(variant_set)
                    variant_sets.add((lowest, variant_set))
''', '''                if len(variant_set) > 1:
                    variant_sets.add((min(variant_set), variant_set))
''')),
 r('v_rem', V, ('''            result = IdnReviewResult.REVIEW.name
            remark = "IDN Table variant generation is less conservative as it only applies with some conditions"
            if type_check == VariantComparison.IdnTypeCheck.LESS_CONSERVATIVE:
                remark += "\\nVariant type in the IDN Table is less conservative compared to the Ref. LGR"
            elif type_check == VariantComparison.IdnTypeCheck.UNKNOWN:
                remark += "\\nUnknown variant type"
            return result, remark
''', '''            remarks = ["IDN Table variant generation is less conservative as it only applies with some conditions"]
            if type_check == VariantComparison.IdnTypeCheck.LESS_CONSERVATIVE:
                remarks.append("Variant type in the IDN Table is less conservative compared to the Ref. LGR")
            elif type_check == VariantComparison.IdnTypeCheck.UNKNOWN:
                remarks.append("Unknown variant type")
            return IdnReviewResult.REVIEW.name, "\\n".join(remarks)
''')),
 r('v_rem_order', V, ('''        rules_check = self.variant_compare.check_rules(direction)
        type_check = self.variant_compare.check_type(direction)
''', '''        type_check = self.variant_compare.check_type(direction)
        rules_check = self.variant_compare.check_rules(direction)
''')),
 r('v_rem_split', V, ('''        if not self.idn_table_var_data.has_variant():
            if in_idn_repertoire:
                return IdnReviewResult.REVIEW.name, "Variant member exists in the reference LGR"
            return IdnReviewResult.NOTE.name, "Not applicable"
''', '''        has_variant = self.idn_table_var_data.has_variant()
        if not has_variant and in_idn_repertoire:
            return IdnReviewResult.REVIEW.name, "Variant member exists in the reference LGR"
        if not has_variant:
            return IdnReviewResult.NOTE.name, "Not applicable"
''')),
]
