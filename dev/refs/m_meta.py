M, C, R, A, X = 'lgr/metadata.py', 'lgr/classes.py', 'lgr/rule.py', 'lgr/action.py', 'lgr/matcher.py'
S = 'STRIP'
REFS = [
 ('me_date', [(M, '_validate_date', '''
def _validate_date(date, force):
    if _is_iso_date(date):
        return date
    logger.log(logging.WARNING if force else logging.ERROR, "Invalid date format: '%s'", date)
    if not force:
        raise LGRFormatException(LGRFormatException.LGRFormatReason.INVALID_DATE_TAG)
    return date


def _is_iso_date(date):
    date_elements = date.split('-')
    if len(date_elements) != 3:
        return False
    try:
        year, month, day = [int(d) for d in date_elements]
        return datetime.date(year, month, day).isoformat() == date
    except ValueError:
        return False
''')]),
 ('me_date2', [(M, S, [('''            date_elements = [int(d) for d in date_elements]
            date_object = datetime.date(date_elements[0], date_elements[1], date_elements[2])
            if date_object''', '''            year, month, day = [int(d) for d in date_elements]
            date_object = datetime.date(year, month, day)
            if date_object''')])]),
 ('me_date3', [(M, S, [('''            date_elements = [int(d) for d in date_elements]
            date_object = datetime.date(date_elements[0], date_elements[1], date_elements[2])
            if date_object''', '''            date_object = datetime.date(*map(int, date_elements))
            if date_object''')])]),
 ('me_scripts', [(M, S, [('''            lang_tag = rfc5646.tag(language)
            if allow_invalid or lang_tag.valid:
                iso_script_tag = lang_tag.script
                iso_script = None
                if iso_script_tag is not None:
                    iso_script = iso_script_tag.format
                if not iso_script_tag and lang_tag.language:
                    iso_script = lang_tag.language.data.get('record', {}).get('Suppress-Script')
                if iso_script:
                    scripts += script_iso15924_to_unicode(iso_script)
''', '''            lang_tag = rfc5646.tag(language)
            if not (allow_invalid or lang_tag.valid):
                continue
            iso_script_tag = lang_tag.script
            iso_script = iso_script_tag.format if iso_script_tag is not None else None
            if not iso_script_tag and lang_tag.language:
                iso_script = lang_tag.language.data.get('record', {}).get('Suppress-Script')
            if iso_script:
                scripts.extend(script_iso15924_to_unicode(iso_script))
''')])]),
 ('me_addlang', [(M, S, [('''            if not rfc5646.check(language):
                logger.log(logging.WARNING if force else logging.ERROR, "Invalid language: '%s'", language)
                self.rfc7940_checks.error('metadata_language')
                if not force:
                    raise LGRFormatException(LGRFormatException.LGRFormatReason.INVALID_LANGUAGE_TAG)
''', '''            valid = rfc5646.check(language)
            if not valid:
                log_level = logging.WARNING if force else logging.ERROR
                logger.log(log_level, "Invalid language: '%s'", language)
                self.rfc7940_checks.error('metadata_language')
            if not valid and not force:
                raise LGRFormatException(LGRFormatException.LGRFormatReason.INVALID_LANGUAGE_TAG)
''')])]),
 ('me_setlang', [(M, S, [('''        if found_error and (not force):
            raise LGRFormatException(LGRFormatException.LGRFormatReason.INVALID_LANGUAGE_TAG)
        else:
            self.languages = languages
''', '''        if found_error and not force:
            raise LGRFormatException(LGRFormatException.LGRFormatReason.INVALID_LANGUAGE_TAG)
        self.languages = languages
''')])]),
 ('me_univ', [(M, S, [('''        if re.match('\\\\d{1,}\\\\.\\\\d{1,}\\\\.\\\\d{1,}$', unicode_version) is None:
''', '''        if not re.match('\\\\d{1,}\\\\.\\\\d{1,}\\\\.\\\\d{1,}$', unicode_version):
''')])]),
 ('me_univ_const', [(M, S, [('''        if re.match('\\\\d{1,}\\\\.\\\\d{1,}\\\\.\\\\d{1,}$', unicode_version) is None:
''', '''        if re.match(UNICODE_VERSION_REGEX, unicode_version) is None:
'''), ('''class Version(object):
''', '''UNICODE_VERSION_REGEX = '\\\\d{1,}\\\\.\\\\d{1,}\\\\.\\\\d{1,}$'

class Version(object):
''')])]),
 ('me_ref_super', [(M, S, [('''        return super(ReferenceManager, self).__contains__(str(k))''', '''        return super().__contains__(str(k))'''),
                           ('''        return super(ReferenceManager, self).__getitem__(str(k))''', '''        key = str(k)
        return super().__getitem__(key)''')])]),
 ('me_ref_add', [(M, S, [('''        reference = {'value': value}
        if comment is not None:
            reference['comment'] = comment
        if ref_id is not None:
            if ref_id in self:
                logger.error("Reference '%s' already exists", ref_id)
                raise ReferenceAlreadyExists(ref_id)
            if not re.match(self.REFERENCE_REGEX, str(ref_id)):
                logger.error("Invalid reference id '%s'", ref_id)
                raise ReferenceInvalidId(ref_id)
        else:
            next_id = self.next_id
            while str(next_id) in sorted(self):
                next_id += 1
            self.next_id = next_id
            ref_id = next_id
''', '''        if ref_id is None:
            ref_id = self._find_next_id()
        else:
            if ref_id in self:
                logger.error("Reference '%s' already exists", ref_id)
                raise ReferenceAlreadyExists(ref_id)
            if not re.match(self.REFERENCE_REGEX, str(ref_id)):
                logger.error("Invalid reference id '%s'", ref_id)
                raise ReferenceInvalidId(ref_id)
        reference = {'value': value}
        if comment is not None:
            reference['comment'] = comment
'''), ('''    def del_reference(self, ref_id):''', '''    def _find_next_id(self):
        next_id = self.next_id
        while str(next_id) in self:
            next_id += 1
        self.next_id = next_id
        return next_id

    def del_reference(self, ref_id):''')])]),
 ('me_ref_del', [(M, S, [('''        try:
            ref_id = int(ref_id)
            if ref_id < self.next_id:
                self.next_id = ref_id
        except ValueError:
            pass
''', '''        try:
            ref_num = int(ref_id)
        except ValueError:
            return
        self.next_id = min(self.next_id, ref_num)
''')])]),
 ('me_ref_del2', [(M, S, [('''        try:
            ref_id = int(ref_id)
            if ref_id < self.next_id:
                self.next_id = ref_id
        except ValueError:
            pass
''', '''        try:
            ref_num = int(ref_id)
        except ValueError:
            return
        if ref_num < self.next_id:
            self.next_id = ref_num
''')])]),
 ('me_ref_upd', [(M, S, [('''        ref = self[ref_id]
        if value is not None:
            ref['value'] = value
        if comment is not None:
            ref['comment'] = comment
''', '''        reference = self[ref_id]
        for key, new_value in (('value', value), ('comment', comment)):
            if new_value is not None:
                reference[key] = new_value
''')])]),
 ('cl_init', [(C, S, [('''            if name is not None:
                logger.error("Cannot create a class with both a 'by-ref' and a 'name'")
                raise LGRFormatException(LGRFormatException.LGRFormatReason.BY_REF_AND_OTHER)
            elif from_tag is not None:
                logger.error("Cannot create a class with both a 'by-ref' and a 'from-tag'")
                raise LGRFormatException(LGRFormatException.LGRFormatReason.BY_REF_AND_OTHER)
            elif unicode_property is not None:
                logger.error("Cannot create a class with both a 'by-ref' and a 'property'")
                raise LGRFormatException(LGRFormatException.LGRFormatReason.BY_REF_AND_OTHER)
            elif ref:
                logger.error("Cannot create a class with both a 'by-ref' and a 'ref'")
                raise LGRFormatException(LGRFormatException.LGRFormatReason.BY_REF_AND_OTHER)
''', '''            conflict = None
            if name is not None:
                conflict = 'name'
            elif from_tag is not None:
                conflict = 'from-tag'
            elif unicode_property is not None:
                conflict = 'property'
            elif ref:
                conflict = 'ref'
            if conflict is not None:
                logger.error("Cannot create a class with both a 'by-ref' and a '%s'", conflict)
                raise LGRFormatException(LGRFormatException.LGRFormatReason.BY_REF_AND_OTHER)
''')])]),
 ('cl_delcp', [(C, S, [('''        for c in cp:
            self.codepoints.discard(c)
''', '''        self.codepoints.difference_update(cp)
''')])]),
 ('cl_addcp', [(C, S, [('''        if isinstance(cp, int):
            cp = [cp]
        self.codepoints.update(cp)
''', '''        self.codepoints.update([cp] if isinstance(cp, int) else cp)
''')])]),
 ('cl_pattern_early', [(C, S, [('''        elif self.unicode_property is not None:
            name, value = self.unicode_property.split(':')
            cp_set = unicode_database.get_set(pattern='\\\\p{%s=%s}' % (name, value))
        else:
            cp_set = unicode_database.get_set(self.codepoints)
        return set_to_rvalue(cp_set, as_set)

    def validate''', '''        elif self.unicode_property is None:
            cp_set = unicode_database.get_set(self.codepoints)
        else:
            name, value = self.unicode_property.split(':')
            cp_set = unicode_database.get_set(pattern='\\\\p{{{0}={1}}}'.format(name, value))
        return set_to_rvalue(cp_set, as_set)

    def validate''')])]),
 ('cl_pattern_tag', [(C, S, [('''            if tag_classname not in classes_lookup:
                logger.warning("Undefined tag '%s' in current LGR", self.from_tag)
                cp_set = unicode_database.get_set()
            else:
                cp_set = classes_lookup[tag_classname].get_pattern(rules_lookup, classes_lookup, unicode_database, is_look_behind, as_set)
''', '''            if tag_classname in classes_lookup:
                cp_set = classes_lookup[tag_classname].get_pattern(rules_lookup, classes_lookup, unicode_database, is_look_behind, as_set)
            else:
                logger.warning("Undefined tag '%s' in current LGR", self.from_tag)
                cp_set = unicode_database.get_set()
''')])]),
 ('cl_toplevel', [(C, S, [('''        is_top_level = len(parents) == 0
        if is_top_level and self.name is None or (not is_top_level and self.name is not None):
            logger''', '''        is_top_level = not parents
        has_name = self.name is not None
        if is_top_level != has_name:
            logger''')])]),
 ('cl_symdiff', [(C, S, [('''        cp_set = (set_1 | set_2) - (set_1 & set_2)
''', '''        union = set_1 | set_2
        intersection = set_1 & set_2
        cp_set = union - intersection
''')])]),
 ('cl_operands', [(C, S, [('''        set_1 = self._children[0].get_pattern(rules_lookup, classes_lookup, unicode_database, is_look_behind, as_set=True)
        set_2 = self._children[1].get_pattern(rules_lookup, classes_lookup, unicode_database, is_look_behind, as_set=True)
        cp_set = set_1 - set_2
        return set_to_rvalue(cp_set, as_set)
''', '''        set_1, set_2 = (child.get_pattern(rules_lookup, classes_lookup, unicode_database, is_look_behind, as_set=True)
                        for child in self._children)
        return set_to_rvalue(set_1 - set_2, as_set)
''')])]),
 ('cl_operands2', [(C, S, [('''        cp_set = set_1 & set_2
        return set_to_rvalue(cp_set, as_set)
''', '''        return set_to_rvalue(set_1 & set_2, as_set)
''')])]),
 ('cl_rvalue', [(C, S, [('''    if as_set:
        return cp_set
    elif len(cp_set) == 0:
        return ''
    else:
        return text_type(cp_set)
''', '''    if as_set:
        return cp_set
    return text_type(cp_set) if len(cp_set) > 0 else ''
''')])]),
 ('cl_child', [(C, S, [('''        if self.MAX_CHILDREN > 0 and len(self._children) >= self.MAX_CHILDREN:
''', '''        is_full = len(self._children) >= self.MAX_CHILDREN
        if self.MAX_CHILDREN > 0 and is_full:
''')])]),
 ('ru_pattern_join', [(R, S, [('''        pattern_io = io.StringIO()
        for m in self.children:
            pattern_io.write(m.get_pattern(rules_lookup, classes_lookup, unicode_database, is_look_behind))
        self._pattern_cache[cache_key] = pattern_io.getvalue()
        return pattern_io.getvalue()
''', '''        pattern = ''.join(m.get_pattern(rules_lookup, classes_lookup, unicode_database, is_look_behind) for m in self.children)
        self._pattern_cache[cache_key] = pattern
        return pattern
''')])]),
 ('ru_pattern_get', [(R, S, [('''        pattern_io = io.StringIO()
        for m in self.children:
            pattern_io.write(m.get_pattern(rules_lookup, classes_lookup, unicode_database, is_look_behind))
        self._pattern_cache[cache_key] = pattern_io.getvalue()
        return pattern_io.getvalue()
''', '''        pattern_io = io.StringIO()
        for m in self.children:
            pattern_io.write(m.get_pattern(rules_lookup, classes_lookup, unicode_database, is_look_behind))
        pattern = pattern_io.getvalue()
        self._pattern_cache[cache_key] = pattern
        return pattern
''')])]),
 ('ru_pattern_else', [(R, S, [('''        if cache_key in self._pattern_cache:
            return self._pattern_cache[cache_key]
''', '''        cached = self._pattern_cache.get(cache_key)
        if cached is not None:
            return cached
''')])]),
 ('ru_matches_anchor', [(R, S, [('''            if '%(anchor)s' not in pattern:
                rule_logger.debug('Not a parameterized context rule')
                index = 0
                anchor = None
            else:
                pattern = pattern % {'anchor': ''.join(map(lambda c: '\\\\x{{{:X}}}'.format(c), anchor))}
''', '''            if '%(anchor)s' in pattern:
                anchor_pattern = ''.join('\\\\x{{{:X}}}'.format(c) for c in anchor)
                pattern = pattern % {'anchor': anchor_pattern}
            else:
                rule_logger.debug('Not a parameterized context rule')
                index, anchor = 0, None
''')])]),
 ('ru_matches_ret', [(R, S, [('''        if anchor is not None:
            match_index = result.start()
            rule_logger.debug('Match index: %d - Index: %d', match_index, index)
            if match_index > index:
                rule_logger.debug('Match found after index, invalid')
                return False
        return True
''', '''        if anchor is None:
            return True
        match_index = result.start()
        rule_logger.debug('Match index: %d - Index: %d', match_index, index)
        return match_index <= index
''')])]),
 ('ru_precalc', [(R, S, [('''        for is_look_behind in [True, False]:
            self.get_pattern(rules_lookup, classes_lookup, unicode_database, is_look_behind)
''', '''        self.get_pattern(rules_lookup, classes_lookup, unicode_database, True)
        self.get_pattern(rules_lookup, classes_lookup, unicode_database, False)
''')])]),
 ('ac_apply_not', [(A, S, [('''        if self.match is not None:
            rule = rules_lookup[self.match]
            rule_matched = rule.matches(label, rules_lookup, classes_lookup, unicode_database)
            rule_logger.info('Action %s: when rule matched: %s', self, rule_matched)
''', '''        if self.match is not None:
            rule_matched = rules_lookup[self.match].matches(label, rules_lookup, classes_lookup, unicode_database)
            rule_logger.info('Action %s: when rule matched: %s', self, rule_matched)
''')])]),
 ('ac_apply_split', [(A, S, [('''        variant_matched = True
        if self.any_variant is not None:
            variant_matched = len(self.any_variant & disp_set) > 0
            rule_logger.info('Action %s: any-variant matched: %s', self, variant_matched)
        elif self.all_variants is not None:
            variant_matched = len(disp_set) > 0 and disp_set.issubset(self.all_variants)
            rule_logger.info('Action %s: all-variants matched: %s', self, variant_matched)
        elif self.only_variants is not None:
            variant_matched = only_variants and len(disp_set) > 0 and disp_set.issubset(self.only_variants)
            rule_logger.info('Action %s: only-variants matched: %s', self, variant_matched)
        if rule_matched and variant_matched:
''', '''        variant_matched = self._variants_match(disp_set, only_variants)
        if rule_matched and variant_matched:
'''), ('''    def __repr__(self):''', '''    def _variants_match(self, disp_set, only_variants):
        if self.any_variant is not None:
            return bool(self.any_variant & disp_set)
        if self.all_variants is not None:
            return bool(disp_set) and disp_set <= self.all_variants
        if self.only_variants is not None:
            return only_variants and len(disp_set) > 0 and disp_set.issubset(self.only_variants)
        return True

    def __repr__(self):''')])]),
 ('ac_apply_isdisjoint', [(A, S, [('''            variant_matched = len(self.any_variant & disp_set) > 0
''', '''            variant_matched = not self.any_variant.isdisjoint(disp_set)
''')])]),
 ('ac_apply_guard', [(A, S, [('''        if rule_matched and variant_matched:
            rule_logger.info('Action %s triggered, disposition: %s', self, self.disp)
            return self.disp
        rule_logger.info('Action %s not triggered', self)
        return None
''', '''        if not (rule_matched and variant_matched):
            rule_logger.info('Action %s not triggered', self)
            return None
        rule_logger.info('Action %s triggered, disposition: %s', self, self.disp)
        return self.disp
''')])]),
 ('ac_eq', [(A, S, [('''        return hash((self.disp, self.match, self.not_match, self.any_variant, self.all_variants, self.only_variants))
''', '''        key = (self.disp, self.match, self.not_match, self.any_variant, self.all_variants, self.only_variants)
        return hash(key)
''')])]),
 ('ma_count', [(X, S, [('''        if not self.count:
            return ''
        if ':' in self.count:
            min, max = self.count.split(':')
            return '{%s,%s}' % (min, max)
        elif self.count.endswith('+'):
            if is_look_behind:
                return '{%s,%s}' % (self.count[:-1], PROTOCOL_LABEL_MAX_LENGTH)
            else:
                return '{%s,}' % self.count[:-1]
        return '{%s}' % self.count
''', '''        count = self.count
        if not count:
            return ''
        if ':' in count:
            return '{%s,%s}' % tuple(count.split(':'))
        if count.endswith('+'):
            upper = PROTOCOL_LABEL_MAX_LENGTH if is_look_behind else ''
            return '{%s,%s}' % (count[:-1], upper)
        return '{%s}' % count
''')])]),
 ('ma_count2', [(X, S, [('''            if is_look_behind:
                return '{%s,%s}' % (self.count[:-1], PROTOCOL_LABEL_MAX_LENGTH)
            else:
                return '{%s,}' % self.count[:-1]
''', '''            minimum = self.count[:-1]
            if not is_look_behind:
                return '{%s,}' % minimum
            return '{%s,%s}' % (minimum, PROTOCOL_LABEL_MAX_LENGTH)
''')])]),
 ('ma_choice', [(X, S, [('''        choice = '(?:' + '(?:' + ')|(?:'.join([m.get_pattern(rules_lookup, classes_lookup, unicode_database, is_look_behind) for m in self._children]) + ')' + ')'
        if len(count) > 0:
            return '%s%s' % (choice, count)
        else:
            return choice
''', '''        patterns = [m.get_pattern(rules_lookup, classes_lookup, unicode_database, is_look_behind) for m in self._children]
        choice = '(?:(?:' + ')|(?:'.join(patterns) + '))'
        return choice + count
''')])]),
 ('ma_choice2', [(X, S, [('''        choice = '(?:' + '(?:' + ')|(?:'.join([m.get_pattern(rules_lookup, classes_lookup, unicode_database, is_look_behind) for m in self._children]) + ')' + ')'
''', '''        patterns = []
        for child in self._children:
            patterns.append(child.get_pattern(rules_lookup, classes_lookup, unicode_database, is_look_behind))
        choice = '(?:' + '(?:' + ')|(?:'.join(patterns) + ')' + ')'
''')])]),
 ('ma_char', [(X, S, [('''        regex = ''.join(('\\\\x{%X}' % x for x in self.cp_or_sequence))
        if len(count) > 0:
            return '(%s)%s' % (regex, count)
        else:
            return regex
''', '''        regex = ''.join(['\\\\x{%X}' % cp for cp in self.cp_or_sequence])
        if not count:
            return regex
        return '({}){}'.format(regex, count)
''')])]),
 ('ma_look', [(X, S, [('''        sub_regex = ''.join([m.get_pattern(rules_lookup, classes_lookup, unicode_database) for m in self._children])
        return '(?=%s)' % sub_regex
''', '''        sub_regex = ''.join(m.get_pattern(rules_lookup, classes_lookup, unicode_database) for m in self._children)
        return '(?=' + sub_regex + ')'
''')])]),
 ('ma_look2', [(X, S, [('''        sub_regex = ''.join([m.get_pattern(rules_lookup, classes_lookup, unicode_database, True) for m in self._children])
        return '(?<=%s)' % sub_regex
''', '''        sub_regex = ''
        for m in self._children:
            sub_regex += m.get_pattern(rules_lookup, classes_lookup, unicode_database, is_look_behind=True)
        return '(?<=%s)' % sub_regex
''')])]),
]
