MD = 'lgr/metadata.py'
C = 'lgr/char.py'
P42 = 'lgr/parser/rfc4290_parser.py'
P37 = 'lgr/parser/rfc3743_parser.py'
H = 'lgr/parser/heuristic_parser.py'
XP = 'lgr/parser/xml_parser.py'
R = 'lgr/rule.py'
A = 'lgr/tools/annotate.py'
V = 'lgr/tools/idn_review/variant_sets.py'
MS = 'lgr/tools/merge_set.py'
D = 'lgr/tools/compare/diff.py'
S = 'lgr/validate/lgr_stats.py'

REFS = []


def r(name, path, *edits):
    REFS.append((name, [(path, None, list(edits))]))


r('ar_guard', MD, ('''        if ref_id is not None:
            # Check if ref_id already exists
            if ref_id in self:
                logger.error("Reference '%s' already exists", ref_id)
                raise ReferenceAlreadyExists(ref_id)
            if not re.match(self.REFERENCE_REGEX, str(ref_id)):
                logger.error("Invalid reference id '%s'", ref_id)
                raise ReferenceInvalidId(ref_id)
        else:
            # Compute next id
            next_id = self.next_id
            while str(next_id) in sorted(self):
                next_id += 1
            self.next_id = next_id
            ref_id = next_id
''', '''        if ref_id is None:
            # Compute next id
            while str(self.next_id) in self:
                self.next_id += 1
            ref_id = self.next_id
        elif ref_id in self:
            # ref_id already exists
            logger.error("Reference '%s' already exists", ref_id)
            raise ReferenceAlreadyExists(ref_id)
        elif re.match(self.REFERENCE_REGEX, str(ref_id)) is None:
            logger.error("Invalid reference id '%s'", ref_id)
            raise ReferenceInvalidId(ref_id)
'''))
r('ar_helper', MD, ('''            # Check if ref_id already exists
            if ref_id in self:
                logger.error("Reference '%s' already exists", ref_id)
                raise ReferenceAlreadyExists(ref_id)
            if not re.match(self.REFERENCE_REGEX, str(ref_id)):
                logger.error("Invalid reference id '%s'", ref_id)
                raise ReferenceInvalidId(ref_id)
''', '''            self._check_new_id(ref_id)
'''), ('''    def add_reference(self, value, comment=None, ref_id=None):
''', '''    def _check_new_id(self, ref_id):
        if ref_id in self:
            logger.error("Reference '%s' already exists", ref_id)
            raise ReferenceAlreadyExists(ref_id)
        if not re.match(self.REFERENCE_REGEX, str(ref_id)):
            logger.error("Invalid reference id '%s'", ref_id)
            raise ReferenceInvalidId(ref_id)

    def add_reference(self, value, comment=None, ref_id=None):
'''))
r('ar_nosort', MD, ('''            while str(next_id) in sorted(self):
''', '''            while str(next_id) in self:
'''))
r('gc_loop', C, ('''        chars = self._chardict[idx]
        try:
            list_idx = chars.index(origin)
        except ValueError:
            logger.error("Code point '%s' does not exist",
                         format_cp(cp_or_sequence))
            raise NotInLGR(cp_or_sequence)

        char = chars[list_idx]
        return char
''', '''        for char in self._chardict[idx]:
            if char == origin:
                return char
        logger.error("Code point '%s' does not exist",
                     format_cp(cp_or_sequence))
        raise NotInLGR(cp_or_sequence)
'''))
r('gc_in', C, ('''        chars = self._chardict[idx]
        try:
            list_idx = chars.index(origin)
        except ValueError:
            logger.error("Code point '%s' does not exist",
                         format_cp(cp_or_sequence))
            raise NotInLGR(cp_or_sequence)

        char = chars[list_idx]
        return char
''', '''        chars = self._chardict[idx]
        if origin not in chars:
            logger.error("Code point '%s' does not exist",
                         format_cp(cp_or_sequence))
            raise NotInLGR(cp_or_sequence)
        return chars[chars.index(origin)]
'''))
r('it_flag', C, ('''                if isinstance(char, RangeChar):
                    if last_cp is not None:
                        # Skip all RangeChar of a range
                        continue
                    else:
                        last_cp = char.last_cp

                yield char
''', '''                if not isinstance(char, RangeChar):
                    yield char
                elif last_cp is None:
                    # Only the first RangeChar of a range
                    last_cp = char.last_cp
                    yield char
'''))
r('it_items', C, ('''        for index in sorted(self._chardict.keys()):
            char_list = self._chardict[index]

            # Reset last_cp''', '''        for index, char_list in sorted(self._chardict.items()):
            # Reset last_cp'''))
r('dr_any', C, ('''        for cp in range(first_cp, last_cp + 1):
            char = RangeChar(cp, first_cp, last_cp)
            if not self._del_char(char):
''', '''        for cp in range(first_cp, last_cp + 1):
            if not self._del_char(RangeChar(cp, first_cp, last_cp)):
'''))
r('gp_cond', C, ('''        if not only_variants:
            iterable = self._chardict[cp]
        else:
            iterable = [v for v in self._chardict[cp] if v.has_variant()]
        return sorted(iterable, key=lambda x: len(x), reverse=True)
''', '''        chars = self._chardict[cp]
        if only_variants:
            chars = [char for char in chars if char.has_variant()]
        return sorted(chars, key=len, reverse=True)
'''))
r('gp_filter', C, ('''        if not only_variants:
            iterable = self._chardict[cp]
        else:
            iterable = [v for v in self._chardict[cp] if v.has_variant()]
        return''', '''        iterable = [v for v in self._chardict[cp] if not only_variants or v.has_variant()]
        return'''))
r('p42_enum', P42, ('''        line_num = 0
        for line in rule_file:
            line_num += 1

            line = line.strip()
            if len(line) == 0:
                continue
            if line[0] == '#':
                continue
''', '''        for line_num, line in enumerate(rule_file, 1):
            line = line.strip()
            if not line or line.startswith('#'):
                continue
'''))
r('p42_part', P42, ('''            char_variant = line.split('#')[0].split('|')
            char = char_variant[0]
''', '''            content = line.split('#', 1)[0]
            char_variant = content.split('|')
            char = char_variant[0]
'''))
r('p42_vars', P42, ('''            if len(char_variant) > 1:
                variants = char_variant[1].split(':')

                for var in variants:
                    try:
                        var_codepoints = parse_char(var)
                        self._lgr.add_variant(codepoints, var_codepoints, force=self.force)
                    except ValueError:
                        logger.error("Invalid variant '%s' at line %d", var,
                                     line_num)
                    except LGRException as exc:
                        logger.error("Cannot add variant '%s' to code point '%s' at line %d: %s",
                                     format_cp(var_codepoints),
                                     format_cp(codepoints),
                                     line_num,
                                     exc)
''', '''            if len(char_variant) < 2:
                continue
            for var in char_variant[1].split(':'):
                self._add_variant(line_num, codepoints, var)

    def _add_variant(self, line_num, codepoints, var):
        try:
            var_codepoints = parse_char(var)
            self._lgr.add_variant(codepoints, var_codepoints, force=self.force)
        except ValueError:
            logger.error("Invalid variant '%s' at line %d", var,
                         line_num)
        except LGRException as exc:
            logger.error("Cannot add variant '%s' to code point '%s' at line %d: %s",
                         format_cp(var_codepoints),
                         format_cp(codepoints),
                         line_num,
                         exc)
'''))
r('p37_enum', P37, ('''        line_num = 0
        for line in rule_file:
            line_num += 1

            line = line.strip()
            if len(line) == 0:
                continue
            if line[0] == '#':
                continue
''', '''        for line_num, line in enumerate(rule_file, 1):
            line = line.strip()
            if not line or line.startswith('#'):
                continue
'''))
r('p37_ref', P37, ('''            if reference is not None:
                ref_id = reference.group('ref_id')
                value = reference.group('value')
                comment = reference.group('comment')
                try:
                    self._lgr.add_reference(value, ref_id=ref_id,
                                            comment=comment)
                except LGRException:
                    logger.error("Invalid reference '%s' on line %d",
                                 line, line_num)
                continue
''', '''            if reference:
                self._parse_reference(reference, line, line_num)
                continue
'''), ('''    def insert_variant(self, line_num''', '''    def _parse_reference(self, reference, line, line_num):
        try:
            self._lgr.add_reference(reference.group('value'),
                                    ref_id=reference.group('ref_id'),
                                    comment=reference.group('comment'))
        except LGRException:
            logger.error("Invalid reference '%s' on line %d",
                         line, line_num)

    def insert_variant(self, line_num'''))
r('p37_group', P37, ('''                version_no = version.group('version_no')
                date = version.group('date')
                comment = version.group('comment')
''', '''                version_no, date, comment = version.group('version_no', 'date', 'comment')
'''))
r('p37_vars', P37, ('''            if len(char_variant) > 1:
                preferred_variants = char_variant[1].strip()
                if len(preferred_variants) > 0 and preferred_variants[0] != '#':
                    # From''', '''            if len(char_variant) > 1:
                preferred_variants = char_variant[1].strip()
                if preferred_variants and not preferred_variants.startswith('#'):
                    # From'''), ('''                if len(variants) > 0 and variants[0] != '#':
                    self''', '''                if variants and not variants.startswith('#'):
                    self'''))
r('p37_vars2', P37, ('''                    # From RFC7940, Section 7.3. Recommended Disposition Values:
                    # activated  The resulting string should be activated for use.  (This
                    # is the same as a Preferred Variant [RFC3743].)
                    var_type = "activated"
                    self.insert_variant(line_num,
                                        codepoints,
                                        preferred_variants,
                                        var_type)
''', '''                    self.insert_variant(line_num, codepoints, preferred_variants, var_type=PREFERRED_TYPE)
'''), ('''class RFC3743Parser''', '''PREFERRED_TYPE = "activated"


class RFC3743Parser'''))
r('p37_pc', P37, ('''        ref_list = []
        if references is not None:
            ref_list = references.split(',')

        codepoints.append((cp_or_sequence, ref_list))
''', '''        codepoints.append((cp_or_sequence, [] if references is None else references.split(',')))
'''))
r('p37_pc2', P37, ('''        references = match.group('references')

        ref_list = []
        if references is not None:
            ref_list = references.split(',')
''', '''        references = match.group('references')
        ref_list = references.split(',') if references is not None else []
'''))
r('h_elif', H, ('''            elif RFC4290_REGEX.match(line.strip()):
                match = True
                if ';' in line:
                    self.lgr_parser = RFC3743Parser(get_source(), **self.kwargs)
                    break
                elif '|' in line:
                    self.lgr_parser = RFC4290Parser(get_source(), **self.kwargs)
                    break
''', '''            if not RFC4290_REGEX.match(line):
                continue
            match = True
            if ';' in line:
                self.lgr_parser = RFC3743Parser(get_source(), **self.kwargs)
                break
            if '|' in line:
                self.lgr_parser = RFC4290Parser(get_source(), **self.kwargs)
                break
'''))
r('h_is4290', H, ('''            if RFC3743_REGEX.match(line) and not RFC4290_REGEX.match(line):
                self.lgr_parser = RFC3743Parser(get_source(), **self.kwargs)
                break
            elif RFC4290_REGEX.match(line.strip()):
''', '''            is_rfc4290 = RFC4290_REGEX.match(line) is not None
            if not is_rfc4290 and RFC3743_REGEX.match(line):
                self.lgr_parser = RFC3743Parser(get_source(), **self.kwargs)
                break
            elif is_rfc4290:
'''))
r('h_nested', H, ('''        for line in [ll for l in rule_file for ll in l.splitlines()]:
''', '''        lines = []
        for l in rule_file:
            lines.extend(l.splitlines())
        for line in lines:
'''))
r('xp_map', XP, ('''            MAPPING = {
                UNION_TAG: UnionClass,
                COMPLEMENT_TAG: ComplementClass,
                INTERSECTION_TAG: IntersectionClass,
                DIFFERENCE_TAG: DifferenceClass,
                SYM_DIFFERENCE_TAG: SymmetricDifferenceClass
            }
            cls = MAPPING[tag](name=name, comment=comment)
''', '''            combinator = {
                UNION_TAG: UnionClass,
                COMPLEMENT_TAG: ComplementClass,
                INTERSECTION_TAG: IntersectionClass,
                DIFFERENCE_TAG: DifferenceClass,
                SYM_DIFFERENCE_TAG: SymmetricDifferenceClass
            }[tag]
            cls = combinator(name=name, comment=comment)
'''))
r('xp_mod', XP, ('''            MAPPING = {
                UNION_TAG: UnionClass,
                COMPLEMENT_TAG: ComplementClass,
                INTERSECTION_TAG: IntersectionClass,
                DIFFERENCE_TAG: DifferenceClass,
                SYM_DIFFERENCE_TAG: SymmetricDifferenceClass
            }
            cls = MAPPING[tag](''', '''            if tag == UNION_TAG:
                factory = UnionClass
            elif tag == COMPLEMENT_TAG:
                factory = ComplementClass
            elif tag == INTERSECTION_TAG:
                factory = IntersectionClass
            elif tag == DIFFERENCE_TAG:
                factory = DifferenceClass
            else:
                factory = SymmetricDifferenceClass
            cls = factory('''))
r('xp_get', XP, ('''        name = elem.get('name', None)
        comment = elem.get('comment', None)

        if tag == CLASS_TAG:
            cls = Class(name=name,
                        comment=comment,
                        ref=string_to_list(elem.get('ref', '')),
                        from_tag=elem.get('from-tag', None),
                        unicode_property=elem.get('property', None),
                        by_ref=elem.get('by-ref', None))
            if len(elem) == 0 and elem.text:
                # No child, code point(s) defined in text
                cls.add_codepoint(cp_or_sequence_from_class(elem))
            for child in elem:
                cls.add_codepoint(cp_or_sequence_from_class(child))
''', '''        name = elem.get('name')
        comment = elem.get('comment')

        if tag == CLASS_TAG:
            references = string_to_list(elem.get('ref', ''))
            cls = Class(name=name, comment=comment, ref=references,
                        from_tag=elem.get('from-tag'),
                        unicode_property=elem.get('property'),
                        by_ref=elem.get('by-ref'))
            if len(elem):
                for child in elem:
                    cls.add_codepoint(cp_or_sequence_from_class(child))
            elif elem.text:
                # No child, code point(s) defined in text
                cls.add_codepoint(cp_or_sequence_from_class(elem))
'''))
r('rv_xor', R, ('''        if (is_top_level and self.name is None) or \\
            (not is_top_level and self.name is not None):
''', '''        if is_top_level == (self.name is None):
'''))
r('rv_and', R, ('''        if self.by_ref is not None:
            if self.by_ref not in rules_lookup:
                # From RFC7940, section 6.3.4. The "name" and "by-ref" Attributes
                # It is an error to reference a rule or class for which
                # the definition has not been seen.
                logger.error("Rule cannot reference inexisting rule '%s'",
                             self.by_ref)
                raise LGRFormatException(LGRFormatException.LGRFormatReason.INVALID_BY_REF)
''', '''        if self.by_ref is not None and self.by_ref not in rules_lookup:
            logger.error("Rule cannot reference inexisting rule '%s'",
                         self.by_ref)
            raise LGRFormatException(LGRFormatException.LGRFormatReason.INVALID_BY_REF)
'''))
r('rv_parents', R, ('''        logger.debug('Validate %s children', self)
        for child in self.children:
            child.validate(parents + [self], rules_lookup, classes_lookup)
''', '''        logger.debug('Validate %s children', self)
        child_parents = parents + [self]
        for child in self.children:
            child.validate(child_parents, rules_lookup, classes_lookup)
'''))
r('rv_named', R, ('''        is_top_level = len(parents) == 0
        if (is_top_level and self.name is None) or \\
            (not is_top_level and self.name is not None):
''', '''        has_name = self.name is not None
        is_top_level = not parents
        if has_name != is_top_level:
'''))
r('an_cont', A, ('''        if not valid:
            yield "%s: %s\\n" % (label, error)
        else:
            label_cp = tuple([ord(c) for c in label])
            if not lgr._test_preliminary_eligibility(label_cp)[0]:
                yield "%s: invalid\\n" % label
            else:
                filtered_set.append(label)
''', '''        if not valid:
            yield "%s: %s\\n" % (label, error)
            continue
        label_cp = tuple(ord(c) for c in label)
        eligible = lgr._test_preliminary_eligibility(label_cp)[0]
        if eligible:
            filtered_set.append(label)
        else:
            yield "{}: invalid\\n".format(label)
'''))
r('an_split', A, ('''                indexes = get_collisions(lgr, filtered_set + [label], quiet=False)
                # Labels of the set may collide with one another
                if any(l['label'] == label for collisions in indexes.values() for l in collisions):
                    collision = 'Label collides with the LGR set labels'
''', '''                collisions = get_collisions(lgr, filtered_set + [label], quiet=False)
                for entries in collisions.values():
                    if any(entry['label'] == label for entry in entries):
                        collision = 'Label collides with the LGR set labels'
'''))
r('an_out', A, ('''            out = disp
            if collision:
                # TODO do we need to change disp to invalid???
                out = '{} - {}'.format(disp, collision)
''', '''            out = '{} - {}'.format(disp, collision) if collision else disp
'''))
r('an_from', A, ('''            for l in _out_valid_label(lgr, label, eligible, label_invalid_parts, out, action_idx):
                yield l
''', '''            yield from _out_valid_label(lgr, label, eligible, label_invalid_parts, out, action_idx)
'''))
r('vs_helper', V, ('''            try:
                idn_table_char: Char = self.idn_repertoire.get_char(cp)
                relevant_repertoire.add(cp)
            except NotInLGR:
                idn_table_char = None
            try:
                reference_lgr_char: Char = self.reference_lgr_repertoire.get_char(cp)
            except NotInLGR:
                reference_lgr_char = None
''', '''            idn_table_char = self._find_char(self.idn_repertoire, cp)
            if idn_table_char is not None:
                relevant_repertoire.add(cp)
            reference_lgr_char = self._find_char(self.reference_lgr_repertoire, cp)
'''), ('''    @staticmethod
    def get_variant_data(''', '''    @staticmethod
    def _find_char(repertoire, cp):
        try:
            return repertoire.get_char(cp)
        except NotInLGR:
            return None

    @staticmethod
    def get_variant_data('''))
r('vs_empty', V, ('''                                  len(self.idn_table_variant_set) == 0,
                                  len(self.reference_lgr_variant_set) == 0,
''', '''                                  not self.idn_table_variant_set,
                                  not self.reference_lgr_variant_set,
'''))
r('vs_union', V, ('''        for cp in sorted(set(self.idn_table_variant_set) | set(self.reference_lgr_variant_set)):
''', '''        all_cps = set(self.idn_table_variant_set)
        all_cps.update(self.reference_lgr_variant_set)
        for cp in sorted(all_cps):
'''))
r('vs_vd', V, ('''            in_lgr = True
            if var.cp in reversed_variants.get(char.cp, []):
                continue
            var_var = []
            try:
                var_var = repertoire.get_variant(var.cp, char.cp) or []
                reversed_variants.setdefault(var.cp, []).append(char.cp)
            except NotInLGR:
                in_lgr = False
            variants''', '''            if var.cp in reversed_variants.get(char.cp, []):
                continue
            try:
                var_var = repertoire.get_variant(var.cp, char.cp) or []
            except NotInLGR:
                in_lgr = False
                var_var = []
            else:
                in_lgr = True
                reversed_variants.setdefault(var.cp, []).append(char.cp)
            variants'''))
r('ms_meta', MS, ('''    for metadata in [lgr.metadata for lgr in lgr_set]:
        scopes.update''', '''    for lgr in lgr_set:
        metadata = lgr.metadata
        scopes.update'''))
r('ms_list', MS, ('''    output.scopes = list(scopes.keys())
    output.languages = list(languages.keys())
''', '''    output.scopes = list(scopes)
    output.languages = list(languages)
'''))
r('ms_order', MS, ('''    output.date = date.today().isoformat()

    return output
''', '''    return output
'''), ('''    output = Metadata()

    output.version''', '''    output = Metadata()

    output.date = date.today().isoformat()
    output.version'''))
r('ms_parse', MS, ('''    lgr_parser = XMLParser(source=merged_lgr_xml, filename=name)

    return lgr_parser.parse_document()''', '''    return XMLParser(source=merged_lgr_xml, filename=name).parse_document()'''))
r('ms_set', MS, ('''    unicode_version = OrderedDict().fromkeys(lgr.metadata.unicode_version for lgr in lgr_set)
    if len(unicode_version) > 1:
        logger.warning("Different unicode version in set: %s", unicode_version.keys())
''', '''    unicode_versions = {lgr.metadata.unicode_version for lgr in lgr_set}
    if len(unicode_versions) > 1:
        logger.warning("Different unicode version in set: %s", unicode_versions)
'''))
r('df_and', D, ('''    for cp in set.intersection(first_cps, second_cps):
''', '''    for cp in first_cps & second_cps:
'''))
r('df_set', D, ('''    first_cps = {c.cp for c in lgr1.repertoire}
    second_cps = {c.cp for c in lgr2.repertoire}
''', '''    first_cps = set(char.cp for char in lgr1.repertoire)
    second_cps = set(char.cp for char in lgr2.repertoire)
'''))
r('df_inv', D, ('''        if not show_same and not diff:
            identical += 1
        else:
            output += """

    + Compare code point {}""".format(format_cp(cp))
            output += diff

    if not show_same and identical > 0:
''', '''        if diff or show_same:
            output += """

    + Compare code point {}""".format(format_cp(cp)) + diff
        else:
            identical += 1

    if identical > 0 and not show_same:
'''))
r('df_wle', D, ('''    output += diff_actions(lgr1, lgr2)
    output += diff_rules(lgr1, lgr2)
    output += diff_classes(lgr1, lgr2)

    return output
''', '''    return output + diff_actions(lgr1, lgr2) + diff_rules(lgr1, lgr2) + diff_classes(lgr1, lgr2)
'''))
r('ds_common', D, ('''    for script in [s for s in lgr_scripts_1 if s not in lgr_scripts_2]:
        output += """''', '''    for script in lgr_scripts_1:
        if script in lgr_scripts_2:
            continue
        output += """'''))
r('st_return', S, ('''    stats = generate_stats(lgr)
    result = {
        'description': 'Generate stats',
        'stats': stats
    }
''', '''    stats = generate_stats(lgr)
    result = {'description': 'Generate stats'}
    result['stats'] = stats
'''))
