X='lgr/parser/xml_parser.py'; R='lgr/rule.py'; F='lgr/rfc7940.py'; A='lgr/action.py'; L='lgr/parser/line_parser.py'; T='lgr/parser/rfc3743_parser.py'
M='lgr/metadata.py'; VM='lgr/validate/metadata.py'; V='lgr/validate/__init__.py'; S='lgr/validate/lgr_stats.py'; CV='lgr/validate/conditional_variants.py'; ME='lgr/memoize.py'
BUGS=[
('C15',X,"            VALIDITY_END_TAG: lambda d: metadata.set_validity_end(d,","            VALIDITY_END_TAG: lambda d: metadata.set_validity_start(d,"),
('C15',X,"first_cp, last_cp = (int(c, 16) for c in cp.split('-'))\n                cp_list.extend(range(first_cp, last_cp + 1))","first_cp, last_cp = (int(c, 16) for c in cp.split('-'))\n                cp_list.extend(range(first_cp, last_cp))"),
('C15',X,"            if len(elem) == 0 and elem.text:","            if elem.text:"),
('C15',X,"                    ref = string_to_list(variant.get('ref', ''))","                    ref = ref or string_to_list(variant.get('ref', ''))"),
('C15',X,"                    comment = variant.get('comment', None)","                    comment = variant.get('comment', comment)"),
('C15',X,"            rule.add_child(RuleMatcher(child_rule,\n                                       comment=comment, count=count))","            rule.add_child(RuleMatcher(child_rule,\n                                       comment=comment))"),
('C15',X,"                self._parse_rule_helper(matcher, look_behind)\n            rule.add_child(look_behind)","                self._parse_rule_helper(matcher, look_behind)\n            rule.children.insert(0, look_behind)"),
('C15',X,"                    from_tag=elem.get('from-tag', None),","                    from_tag=elem.get('from-tag', elem.get('name', None)),"),
('C15',X,"            rule.add_child(AnyMatcher(comment=comment, count=count))","            rule.add_child(AnyMatcher(comment=comment, count=count or '1'))"),
('C15',X,"    return string.split()","    return string.split(' ')"),
('C15',X,"                metadata.scopes.append(\n                    Scope(child.text, child.get('type', None)))","                metadata.scopes.append(\n                    Scope(child.text, child.get('type', 'domain')))"),
('C16',X,"    new_node.text = node.text\n    new_node[:] = node[:]","    new_node[:] = node[:]"),
('C16',X,"        elem.tag = elem.tag.replace(\"{{{}}}\".format(LGR_NS), \"\")","        elem.tag = elem.tag.replace(\"{{{}}}\".format(LGR_NS), \"\")\n        elem.tail = None"),
('C19',X,"                        self.rfc7940_checks.error('parse_xml')\n                        self.rfc7940_checks.error('codepoint_valid')\n                        if not self.force:\n                            raise\n            elif","                        self.rfc7940_checks.error('parse_xml')\n                        self.rfc7940_checks.error('codepoint_valid')\n                        if not self.force:\n                            raise\n                        break\n            elif"),
('C19',X,"                logger.error(\"Cannot resolve rule '%s': %s\", rule, exc)\n                if not self.force:\n                    raise","                logger.error(\"Cannot resolve rule '%s': %s\", rule, exc)\n                if not self.force and rule.name:\n                    raise"),
('C19',X,"                self._lgr.add_action(action, force=self.force)","                self._lgr.add_action(action, force=self.force or not action.match)"),
('C21',X,"        self.rfc7940_checks.tested('schema')\n        return error_log","        if error_log is None:\n            self.rfc7940_checks.tested('schema')\n        return error_log"),
('C21',X,"                        self.rfc7940_checks.error('char_strict_ascending_order')\n                    else:","                        self.rfc7940_checks.error('char_ascending_order')\n                    else:"),
('C21',X,"                if codepoint <= previous_codepoint:\n","                if codepoint < previous_codepoint:\n"),
('C21',F,"        if not success or test_label not in self.test_result:\n            self.test_result[test_label] = success","        self.test_result[test_label] = success and self.test_result.get(test_label) is not False or test_label == 'schema'"),
('C21',F,"            if test not in self.test_result:\n                got_error = True","            if test not in self.test_result:\n                got_error = policy[test] != 'IGNORE'"),
('C21',F,"            if False in self.test_result.values():\n","            if self.test_result and not any(self.test_result.values()):\n"),
('C07',R,"            if match_index > index:\n","            if match_index > index + 1:\n"),
('C07',R,"                index = 0\n                anchor = None","                anchor = None"),
('C07',R,"        if len(pattern) == 0:\n            rule_logger.debug('Empty pattern')\n            return False","        if len(pattern) == 0:\n            rule_logger.debug('Empty pattern')\n            return True"),
('C07',R,"                                                         unicode_database,\n                                                         is_look_behind)\n","                                                         unicode_database)\n"),
('C30',R,"cache_key = (id(rules_lookup), id(classes_lookup), id(unicode_database), is_look_behind)","cache_key = (id(rules_lookup), id(classes_lookup), id(unicode_database))"),
('C30',ME,"str(args[1:]) + str(kwargs.items())","str(kwargs.items())"),
('C30',M,'@MethodAttributeMemoizer("languages")','@MethodAttributeMemoizer("scopes")'),
('C09',R,"        if (is_top_level and self.name is None) or \\\n            (not is_top_level and self.name is not None):","        if is_top_level and self.name is None:"),
('C09',R,"            child.validate(parents + [self], rules_lookup, classes_lookup)","            child.validate([self], rules_lookup, classes_lookup)"),
('C09',R,"        for child in self.children:\n            child.validate","        for child in self.children[:]:\n            if isinstance(child, Rule):\n                continue\n            child.validate"),
('C02',A,"            variant_matched = (len(disp_set) > 0\n                               and disp_set.issubset(self.all_variants))","            variant_matched = (len(disp_set) > 0\n                               and self.all_variants.issubset(disp_set))"),
('C02',A,"        elif self.not_match is not None:","        if self.not_match is not None:"),
('C02',A,"        elif self.only_variants is not None:\n            variant_matched = (only_variants\n                               and len(disp_set) > 0","        elif self.only_variants is not None:\n            variant_matched = (only_variants"),
('C29',A,"               and (self.not_match == other.not_match)\\\n",""),
('C18',L,"            codepoints = []\n            for cp in","            for cp in"),
('C18',T,"                if len(preferred_variants) > 0 and preferred_variants[0] != '#':","                if len(preferred_variants) > 4 and preferred_variants[0] != '#':"),
('C18',T,"ref_list = references.split(',')","ref_list = references[:1].split(',')"),
('C18',T,"                    self._lgr.metadata.version = Version(version_no,\n                                                         comment=comment)","                    self._lgr.metadata.version = Version(version_no)"),
('C18',T,"                logger.error(\"Invalid character '%s' at line %d\", char, line_num)\n                continue","                logger.error(\"Invalid character '%s' at line %d\", char, line_num)\n                break"),
('C18',T,"            no_comment = line.split('#', 1)[0].strip()","            no_comment = line.split('#', 1)[0].strip().lower()"),
('C18',T,'"activated"','"allocatable"'),
('C34',M,"            if date_object.isoformat() == date:\n                return date","            return date"),
('C34',M,"            if language not in self.languages:\n                self.languages.append(language)","            if language not in self.languages:\n                self.languages.insert(0, language)"),
('C34',M,"                    found_error = True","                    found_error = not force"),
('C34',M,"                if not iso_script_tag and lang_tag.language:","                if lang_tag.language:"),
('C34',M,"            self.rfc7940_checks.error('valid_unicode_version')\n            if not force:","            self.rfc7940_checks.error('valid_unicode_version')\n            if not force and self.unicode_version is None:"),
('C14',M,"            while str(next_id) in sorted(self):","            if str(next_id) in sorted(self):"),
('C14',M,"            if ref_id < self.next_id:","            if ref_id == self.next_id:"),
('C14',M,"        return super(ReferenceManager, self).__delitem__(str(k))","        return super(ReferenceManager, self).__delitem__(k)"),
('C14',M,"        if comment is not None:\n            ref['comment'] = comment","        ref['comment'] = comment"),
('C35',V,"    TO_RUN = list(CHECKS)\n","    TO_RUN = CHECKS\n"),
('C35',V,"            result.append((check_function.__name__, exc))","            result.append((check_function.__name__, exc))\n            break"),
('C35',S,"        stats['mapping_number'] += len(frozenset(v.cp for v in variants))","        stats['mapping_number'] += len(frozenset((v.cp, v.type) for v in variants))"),
('C35',S,"                stats['codepoints_by_tag'][t] += range_len","                stats['codepoints_by_tag'][t] += 1"),
('C35',CV,"            if not_when is not None and not_when not in lgr.rules:","            if not_when is not None and not_when not in lgr.rules and when is None:"),
('C35',CV,"        if isinstance(char, RangeChar):\n            continue","        if not isinstance(char, CharSequence):\n            continue"),
('C21',VM,"    if vstart is not None and vend is not None and vstart > vend:","    if vstart is not None and vend is not None and vstart >= vend:"),
('C21',VM,"            if t not in mimetypes.types_map.values():","            if t not in mimetypes.types_map:"),
('C21',VM,"        if not re.match(r'[1-9]\\d*$', lgr.metadata.version.value or ''):","        if not re.match(r'\\d*$', lgr.metadata.version.value or ''):"),
('C21',VM,"    lgr.notify_tested('metadata_scope_type')","        lgr.notify_tested('metadata_scope_type')"),
]
