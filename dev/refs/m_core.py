P = 'lgr/core.py'
S = 'STRIP'
REFS = [
 ('co_refs_helper', [(P, S, [('''        references = []
        for ref_id in ref if ref is not None else []:
            if ref_id in self.reference_manager:
                references.append(ref_id)
            else:
                logger.warning("Reference id '%s' for code point '%s' is not defined", ref_id, cp_or_sequence)
                if not force:
                    raise ReferenceNotDefined(ref_id)
''', '''        references = self._known_references(ref, cp_or_sequence, force)
'''), ('''    def check_cp(self, cp_or_sequence):''', '''    def _known_references(self, ref, cp_or_sequence, force):
        references = []
        for ref_id in ref or []:
            if ref_id not in self.reference_manager:
                logger.warning("Reference id '%s' for code point '%s' is not defined", ref_id, cp_or_sequence)
                if not force:
                    raise ReferenceNotDefined(ref_id)
                continue
            references.append(ref_id)
        return references

    def check_cp(self, cp_or_sequence):''')])]),
 ('co_tagdup', [(P, S, [('''        if len(cp_or_sequence) > 1 and len(tags) > 0:
''', '''        if tags and len(cp_or_sequence) > 1:
'''), ('''        duplicates = [t for t, count in collections.Counter(tags).items() if count > 1]
        if len(duplicates) > 0:
            logger.warning("Code point '%s' has''', '''        duplicates = [t for t, count in collections.Counter(tags).items() if count > 1]
        if duplicates:
            logger.warning("Code point '%s' has''')])]),
 ('co_tagdup2', [(P, S, [('''        if len(ref_set) != len(references):
            logger.error("Reference list '%s' for code point '%s' contains''', '''        has_duplicates = len(references) != len(set(references))
        if has_duplicates:
            logger.error("Reference list '%s' for code point '%s' contains''')])]),
 ('co_validating', [(P, S, [('''                if not cp_valid:
                    if not override_repertoire and (not force):
                        raise NotInRepertoire(cp_or_sequence)
                    else:
                        logger.warning("Overriding repertoire '%s' for code point '%s'", validating_repertoire, format_cp(cp_or_sequence))
''', '''                if cp_valid:
                    continue
                if not (override_repertoire or force):
                    raise NotInRepertoire(cp_or_sequence)
                logger.warning("Overriding repertoire '%s' for code point '%s'", validating_repertoire, format_cp(cp_or_sequence))
''')])]),
 ('co_delrange', [(P, S, [('''        tags = []
        if first_cp in self.repertoire:
            tags = self.repertoire.get_char([first_cp]).tags
''', '''        tags = self.repertoire.get_char([first_cp]).tags if first_cp in self.repertoire else []
''')])]),
 ('co_expand', [(P, S, [('''        for cp in range(first_cp, last_cp + 1):
            self.repertoire.add_char([cp], comment=range_char.comment, ref=range_char.references, tag=range_char.tags, when=range_char.when, not_when=range_char.not_when)
''', '''        attributes = {'comment': range_char.comment, 'ref': range_char.references, 'tag': range_char.tags,
                      'when': range_char.when, 'not_when': range_char.not_when}
        for cp in range(first_cp, last_cp + 1):
            self.repertoire.add_char([cp], **attributes)
''')])]),
 ('co_expand2', [(P, S, [('''        range_char = self.get_char(first_cp)
        self.repertoire.del_range(first_cp, last_cp)
''', '''        range_char = self.get_char(first_cp)
        comment, tags = range_char.comment, range_char.tags
        self.repertoire.del_range(first_cp, last_cp)
'''), ('''[cp], comment=range_char.comment, ref=range_char.references, tag=range_char.tags, when=range''', '''[cp], comment=comment, ref=range_char.references, tag=tags, when=range''')])]),
 ('co_range_guard', [(P, S, [('''    def del_range(self, first_cp, last_cp):
        logger.debug("Delete range '%s-%s' from LGR '%s'", first_cp, last_cp, self)
        if first_cp > last_cp:
            logger.error('First code point of range is greater than last')
            raise LGRApiInvalidParameter('first_cp')
''', '''    @staticmethod
    def _check_bounds(first_cp, last_cp):
        if last_cp < first_cp:
            logger.error('First code point of range is greater than last')
            raise LGRApiInvalidParameter('first_cp')

    def del_range(self, first_cp, last_cp):
        logger.debug("Delete range '%s-%s' from LGR '%s'", first_cp, last_cp, self)
        self._check_bounds(first_cp, last_cp)
'''), ('''        logger.debug("Expand range '%s-%s' from LGR '%s'", first_cp, last_cp, self)
        if first_cp > last_cp:
            logger.error('First code point of range is greater than last')
            raise LGRApiInvalidParameter('first_cp')
''', '''        logger.debug("Expand range '%s-%s' from LGR '%s'", first_cp, last_cp, self)
        self._check_bounds(first_cp, last_cp)
''')])]),
 ('co_checkrange_helper', [(P, S, [('''            keep_raise = self.raise_on_invalid_property
            try:
                self.raise_on_invalid_property = True
                cp_ = self._check_convert_cp(cp)
            except CharInvalidIdnaProperty as invalid:
                result.append((cp, invalid))
                continue
            finally:
                self.raise_on_invalid_property = keep_raise
            if validating_repertoire is not None:
                cp_valid = validating_repertoire.check_cp(cp)
                if not cp_valid:
                    result.append((cp, NotInRepertoire(cp)))
                    continue
            if cp_ in self.repertoire:
                result.append((cp, CharAlreadyExists(cp_)))
                continue
            result.append((cp, None))
        return result
''', '''            result.append((cp, self._range_cp_status(cp, validating_repertoire)))
        return result

    def _range_cp_status(self, cp, validating_repertoire):
        keep_raise = self.raise_on_invalid_property
        try:
            self.raise_on_invalid_property = True
            cp_ = self._check_convert_cp(cp)
        except CharInvalidIdnaProperty as invalid:
            return invalid
        finally:
            self.raise_on_invalid_property = keep_raise
        if validating_repertoire is not None and not validating_repertoire.check_cp(cp):
            return NotInRepertoire(cp)
        if cp_ in self.repertoire:
            return CharAlreadyExists(cp_)
        return None
''')])]),
 ('co_checkrange_small', [(P, S, [('''                cp_valid = validating_repertoire.check_cp(cp)
                if not cp_valid:
                    result.append((cp, NotInRepertoire(cp)))
                    continue
            if cp_ in self.repertoire:
                result.append((cp, CharAlreadyExists(cp_)))
                continue
            result.append((cp, None))
''', '''                if not validating_repertoire.check_cp(cp):
                    result.append((cp, NotInRepertoire(cp)))
                    continue
            status = None
            if cp_ in self.repertoire:
                status = CharAlreadyExists(cp_)
            result.append((cp, status))
''')])]),
 ('co_addrange_filter', [(P, S, [('''        present = [cp for cp in codepoints if cp in self.repertoire]
        if present and (not force):
            raise CharAlreadyExists([present[0]])
        codepoints = [cp for cp in codepoints if cp not in self.repertoire]
''', '''        new_codepoints = []
        for cp in codepoints:
            if cp in self.repertoire:
                if not force:
                    raise CharAlreadyExists([cp])
            else:
                new_codepoints.append(cp)
        codepoints = new_codepoints
''')])]),
 ('co_add_codepoints', [(P, S, [('''        if not codepoints:
            return
        ranges = collapse_codepoints(codepoints)
        for first_cp, last_cp in ranges:
            if first_cp == last_cp:
                self.add_cp([first_cp], comment=comment, ref=ref, tag=tag)
            else:
                self.add_range(first_cp, last_cp, comment=comment, ref=ref, tag=tag)
''', '''        if codepoints:
            for first_cp, last_cp in collapse_codepoints(codepoints):
                if first_cp != last_cp:
                    self.add_range(first_cp, last_cp, comment=comment, ref=ref, tag=tag)
                else:
                    self.add_cp([first_cp], comment=comment, ref=ref, tag=tag)
''')])]),
 ('co_addrule', [(P, S, [('''            level = logging.WARNING if force else logging.ERROR
            logger.log(level, "Invalid rule '%s'", rule.name)
            if not force:
                raise exc
''', '''            if not force:
                logger.error("Invalid rule '%s'", rule.name)
                raise
            logger.warning("Invalid rule '%s'", rule.name)
''')])]),
 ('co_elig_tuple', [(P, S, [('''        if not valid:
            rule_logger.error("Label '%s' is not in the LGR", format_cp(label))
            if generate_chars:
                return (False, label_parts, label_invalid_parts, INVALID_DISPOSITION, -1, log_output.getvalue(), chars)
            else:
                return (False, label_parts, label_invalid_parts, INVALID_DISPOSITION, -1, log_output.getvalue())
''', '''        if not valid:
            rule_logger.error("Label '%s' is not in the LGR", format_cp(label))
            result = (False, label_parts, label_invalid_parts, INVALID_DISPOSITION, -1, log_output.getvalue())
            return result + (chars,) if generate_chars else result
''')])]),
 ('co_elig_early', [(P, S, [('''        if generate_chars:
            return (True, label, [], disposition, action_idx, log_output.getvalue(), chars)
        else:
            return (True, label, [], disposition, action_idx, log_output.getvalue())
''', '''        if not generate_chars:
            return (True, label, [], disposition, action_idx, log_output.getvalue())
        return (True, label, [], disposition, action_idx, log_output.getvalue(), chars)
''')])]),
 ('co_disp_default', [(P, S, [('''                    variant_disp, idx = self._apply_actions(variant_cp, disp_set, only_variants)
                    if variant_disp is None:
                        variant_disp = DEFAULT_DISPOSITION
''', '''                    action_disp, idx = self._apply_actions(variant_cp, disp_set, only_variants)
                    variant_disp = DEFAULT_DISPOSITION if action_disp is None else action_disp
''')])]),
 ('co_disp_skip', [(P, S, [('''            if variant_disp != INVALID_DISPOSITION or include_invalid:
                if variant_cp == label:
                    if generate_chars:
                        original_label = (variant_cp, variant_disp, variant_invalid_parts, idx, disp_set, log_output.getvalue(), chars)
                    else:
                        original_label = (variant_cp, variant_disp, variant_invalid_parts, idx, disp_set, log_output.getvalue())
                elif generate_chars:
                    yield (variant_cp, variant_disp, variant_invalid_parts, idx, disp_set, log_output.getvalue(), chars)
                else:
                    yield (variant_cp, variant_disp, variant_invalid_parts, idx, disp_set, log_output.getvalue())
''', '''            if variant_disp == INVALID_DISPOSITION and not include_invalid:
                continue
            output = (variant_cp, variant_disp, variant_invalid_parts, idx, disp_set, log_output.getvalue())
            if generate_chars:
                output += (chars,)
            if variant_cp == label:
                original_label = output
            else:
                yield output
''')])]),
 ('co_summary', [(P, S, [('''        summary = collections.Counter([disp for _, disp, _, _, _, _ in label_dispositions])
''', '''        summary = collections.Counter()
        for _, disp, _, _, _, _ in label_dispositions:
            summary[disp] += 1
''')])]),
 ('co_summary2', [(P, S, [('''        summary = collections.Counter([disp for _, disp, _, _, _, _ in label_dispositions])
''', '''        summary = collections.Counter(d[1] for d in label_dispositions)
''')])]),
 ('co_estimate', [(P, S, [('''            for char in chars:
                variant_number *= len(vars_excl_reflexive(char)) + 1
''', '''            for char in chars:
                non_reflexive = vars_excl_reflexive(char)
                variant_number = variant_number * (1 + len(non_reflexive))
''')])]),
 ('co_index_comp', [(P, S, [('''        indexes = []
        for partition in partitions:
            indexes.append(self._generate_index_label_on_partition(partition))
        index_label = min(indexes)
''', '''        index_label = min(self._generate_index_label_on_partition(partition) for partition in partitions)
''')])]),
 ('co_index_part', [(P, S, [('''                if not self._test_context_rules(var, var_label, idx):
                    logger.debug('Variant %r does not satisfy context rule, skip', var)
                    continue
                ids.append(list(var.cp))
''', '''                if self._test_context_rules(var, var_label, idx):
                    ids.append(list(var.cp))
                else:
                    logger.debug('Variant %r does not satisfy context rule, skip', var)
''')])]),
 ('co_partitions', [(P, S, [('''                partitions = self._generate_label_partitions(label[len(char):], prefix=prefix + char.cp)
                if not partitions:
                    continue
                for label_partition in partitions:
                    chars = [char] + label_partition
                    all_partitions.append(chars)
''', '''                rest = label[len(char):]
                for label_partition in self._generate_label_partitions(rest, prefix=prefix + char.cp):
                    all_partitions.append([char] + label_partition)
''')])]),
 ('co_partitions2', [(P, S, [('''            if not char.is_prefix_of(label):
                continue
            if not self._test_context_rules(char, original_label, len(prefix)):
                continue
            if len(label) > len(char):
                partitions''', '''            if not char.is_prefix_of(label) or not self._test_context_rules(char, original_label, len(prefix)):
                continue
            if len(char) < len(label):
                partitions''')])]),
 ('co_alltags', [(P, S, [('''        out = []
        for clsname in self.classes_lookup:
            if clsname.startswith(TAG_CLASSNAME_PREFIX):
                out.append(clsname[prefix_len:])
        return out
''', '''        return [name[prefix_len:] for name in self.classes_lookup.keys() if name.startswith(TAG_CLASSNAME_PREFIX)]
''')])]),
 ('co_tagclasses', [(P, S, [('''        out = {}
        for clsname, clz in self.classes_lookup.items():
            if clsname.startswith(TAG_CLASSNAME_PREFIX):
                out[clsname[prefix_len:]] = clz
        return out
''', '''        return {clsname[prefix_len:]: clz for clsname, clz in self.classes_lookup.items()
                if clsname.startswith(TAG_CLASSNAME_PREFIX)}
''')])]),
 ('co_prelim_for', [(P, S, [('''                if isinstance(char, CharSequence):
                    if not char.is_prefix_of(label[i:]):
                        continue
                if not self._test_context_rules(char, label, i):
                    pending_rules''', '''                if isinstance(char, CharSequence) and not char.is_prefix_of(label[i:]):
                    continue
                if not self._test_context_rules(char, label, i):
                    pending_rules''')])]),
 ('co_prelim_ret', [(P, S, [('''        if not generate_chars:
            return (result, label_parts, label_invalid_parts)
        else:
            return (result, label_parts, label_invalid_parts, chars)
''', '''        if generate_chars:
            return (result, label_parts, label_invalid_parts, chars)
        return (result, label_parts, label_invalid_parts)
''')])]),
 ('co_prelim_helper', [(P, S, [('''            pending_rules_not_in_lgr = []
            valid = False
            for char in char_list:
                if isinstance(char, CharSequence):
                    if not char.is_prefix_of(label[i:]):
                        continue
                if not self._test_context_rules(char, label, i):
                    pending_rules_not_in_lgr.append(char.when or char.not_when)
                    continue
                i += len(char)
                valid = True
                rule_logger.debug("Code point '%s' in LGR", format_cp(cp))
                label_parts += char.cp
                chars.append(char)
                break
            if not valid:
''', '''            pending_rules_not_in_lgr = []
            found = None
            for char in char_list:
                if isinstance(char, CharSequence):
                    if not char.is_prefix_of(label[i:]):
                        continue
                if self._test_context_rules(char, label, i):
                    found = char
                    break
                pending_rules_not_in_lgr.append(char.when or char.not_when)
            if found is not None:
                rule_logger.debug("Code point '%s' in LGR", format_cp(cp))
                label_parts += found.cp
                chars.append(found)
                i += len(found)
            else:
''')])]),
 ('co_testdisp', [(P, S, [('''                is_variant = False
                if apply_reflexive_mapping:
                    for var in char.get_reflexive_variants():
                        if not self._test_context_rules(var, label, i):
                            continue
                        rule_logger.debug('Reflexive variant %s is valid', var)
                        disp_set.add(var.type)
                        is_variant = True
                only_variants &= is_variant
        only_variants = only_variants if len(disp_set) > 0 else False
''', '''                is_variant = False
                if apply_reflexive_mapping:
                    for var in char.get_reflexive_variants():
                        if self._test_context_rules(var, label, i):
                            rule_logger.debug('Reflexive variant %s is valid', var)
                            disp_set.add(var.type)
                            is_variant = True
                only_variants = only_variants and is_variant
        only_variants = only_variants and bool(disp_set)
''')])]),
 ('co_testdisp_enum', [(P, S, [('''        for i in range(len(label)):
            cp = label[i]
            rule_logger.debug("Code point: '%s'", format_cp(cp))
            try:
                char_list = self.repertoire.get_chars_from_prefix(cp)
            except NotInLGR:
                rule_logger.info''', '''        for i, cp in enumerate(label):
            rule_logger.debug("Code point: '%s'", format_cp(cp))
            try:
                char_list = self.repertoire.get_chars_from_prefix(cp)
            except NotInLGR:
                rule_logger.info''')])]),
 ('co_prefixlist', [(P, S, [('''            if not prefix.is_prefix_of(label):
                continue
            prefixed_label = label_prefix + prefix.cp + tuple(label[len(prefix):])
            if not self._test_context_rules(prefix, prefixed_label, len(label_prefix)):
                rule_logger.debug('No context rule')
                continue
            prefix_list.append(prefix)
''', '''            if prefix.is_prefix_of(label):
                prefixed_label = label_prefix + prefix.cp + tuple(label[len(prefix):])
                if self._test_context_rules(prefix, prefixed_label, len(label_prefix)):
                    prefix_list.append(prefix)
                else:
                    rule_logger.debug('No context rule')
''')])]),
 ('co_genvar_disp', [(P, S, [('''                if var.type is None:
                    var_disp = frozenset()
                else:
                    var_disp = frozenset([var.type])
''', '''                var_disp = frozenset() if var.type is None else frozenset([var.type])
''')])]),
 ('co_genvar_first', [(P, S, [('''        first_call = False
        if orig_label is None:
            first_call = True
            orig_label = label
''', '''        first_call = orig_label is None
        if first_call:
            orig_label = label
''')])]),
 ('co_genvar_fallback', [(P, S, [('''                for cp in self.repertoire.get_chars_from_prefix(label[0]):
                    if cp.is_prefix_of(label) and self._test_context_rules(cp, label_prefix + tuple(label), len(label_prefix)):
                        same_prefix = [cp]
                        break
        for char in [ch for ch in same_prefix if isinstance(ch, CharSequence)]:
            for cp in self.repertoire.get_chars_from_prefix(label[0]):
                if len(cp) < len(char) and cp.is_prefix_of(label) and self._test_context_rules(cp, label_prefix + tuple(label), len(label_prefix)):
                    same_prefix.append(cp)
''', '''                for cp in self.repertoire.get_chars_from_prefix(label[0]):
                    if self._starts_with(cp, label, label_prefix):
                        same_prefix = [cp]
                        break
        for char in [ch for ch in same_prefix if isinstance(ch, CharSequence)]:
            for cp in self.repertoire.get_chars_from_prefix(label[0]):
                if len(cp) < len(char) and self._starts_with(cp, label, label_prefix):
                    same_prefix.append(cp)
'''), ('''    def _generate_label_variants(self,''', '''    def _starts_with(self, cp, label, label_prefix):
        full_label = label_prefix + tuple(label)
        return cp.is_prefix_of(label) and self._test_context_rules(cp, full_label, len(label_prefix))

    def _generate_label_variants(self,''')])]),
 ('co_genvar_empty', [(P, S, [('''        if len(label) == 0:
            rule_logger.debug('Empty label')
            return
''', '''        if not label:
            rule_logger.debug('Empty label')
            return
''')])]),
 ('co_apply_enum', [(P, S, [('''        idx = 0
        for action in action_list:
            rule_logger.info('Apply action %d (%s)', action_list.index(action), action)
            disp''', '''        for idx, action in enumerate(action_list):
            rule_logger.info('Apply action %d (%s)', action_list.index(action), action)
            disp'''), ('''                return (disp, idx)
            idx += 1
''', '''                return (disp, idx)
''')])]),
 ('co_ctx', [(P, S, [('''        when = char.when
        not_when = char.not_when
        if when is not None:
            rule = self.rules_lookup[when]
            if not rule.matches(orig_label, self.rules_lookup, self.classes_lookup, self._unicode_database, char.cp, index):
                rule_logger.info("when rule '%s' does not validate for code point '%s'", when, format_cp(char.cp))
                return False
        elif not_when is not None:
            rule = self.rules_lookup[not_when]
            if rule.matches(orig_label, self.rules_lookup, self.classes_lookup, self._unicode_database, char.cp, index):
                rule_logger.info("not-when rule '%s' validates for code point '%s'", not_when, format_cp(char.cp))
                return False
        return True
''', '''        rule_name = char.when if char.when is not None else char.not_when
        if rule_name is None:
            return True
        rule = self.rules_lookup[rule_name]
        matched = rule.matches(orig_label, self.rules_lookup, self.classes_lookup, self._unicode_database, char.cp, index)
        if char.when is not None:
            if not matched:
                rule_logger.info("when rule '%s' does not validate for code point '%s'", rule_name, format_cp(char.cp))
            return bool(matched)
        if matched:
            rule_logger.info("not-when rule '%s' validates for code point '%s'", rule_name, format_cp(char.cp))
        return not matched
''')])]),
 ('co_ctx_helper', [(P, S, [('''            rule = self.rules_lookup[when]
            if not rule.matches(orig_label, self.rules_lookup, self.classes_lookup, self._unicode_database, char.cp, index):
''', '''            if not self._rule_matches(when, char, orig_label, index):
'''), ('''            rule = self.rules_lookup[not_when]
            if rule.matches(orig_label, self.rules_lookup, self.classes_lookup, self._unicode_database, char.cp, index):
''', '''            if self._rule_matches(not_when, char, orig_label, index):
'''), ('''    def _test_context_rules(self''', '''    def _rule_matches(self, name, char, orig_label, index):
        return self.rules_lookup[name].matches(orig_label, self.rules_lookup, self.classes_lookup, self._unicode_database, char.cp, index)

    def _test_context_rules(self''')])]),
 ('co_convert', [(P, S, [('''                if len(cp_or_sequence) < 1:
                    logger.error''', '''                if len(cp_or_sequence) == 0:
                    logger.error'''), ('''            for cp in invalid_cps.keys():
''', '''            for cp in invalid_cps:
''')])]),
 ('co_script', [(P, S, [('''                if len(lgr_scripts) > 0 and script not in lgr_scripts and (script not in [COMMON_SCRIPT, INHERITED_SCRIPT]):
                    logger''', '''                accepted = not lgr_scripts or script in lgr_scripts or script in (COMMON_SCRIPT, INHERITED_SCRIPT)
                if not accepted:
                    logger''')])]),
 ('co_script2', [(P, S, [('''            try:
                script = self.unicode_database.get_script(cp, alpha4=True)
                cp_scripts.add(script)
                if len(lgr_scripts) > 0 and script not in lgr_scripts and (script not in [COMMON_SCRIPT, INHERITED_SCRIPT]):
                    logger.debug("Code point '%s' (script %s) not in LGR script '%s'", format_cp(cp), script, lgr_scripts)
                    in_script = False
            except NotImplementedError:
                pass
''', '''            try:
                script = self.unicode_database.get_script(cp, alpha4=True)
            except NotImplementedError:
                continue
            cp_scripts.add(script)
            if len(lgr_scripts) > 0 and script not in lgr_scripts and (script not in [COMMON_SCRIPT, INHERITED_SCRIPT]):
                logger.debug("Code point '%s' (script %s) not in LGR script '%s'", format_cp(cp), script, lgr_scripts)
                in_script = False
''')])]),
 ('co_tagadd', [(P, S, [('''            tag_classname = TAG_CLASSNAME_PREFIX + tag
            self.classes_lookup.setdefault(tag_classname, Class(name=tag, comment='Virtual class for tag %s' % tag, implicit=True)).add_codepoint(cp_or_sequence)
''', '''            tag_classname = TAG_CLASSNAME_PREFIX + tag
            if tag_classname not in self.classes_lookup:
                self.classes_lookup[tag_classname] = Class(name=tag, comment='Virtual class for tag %s' % tag, implicit=True)
            self.classes_lookup[tag_classname].add_codepoint(cp_or_sequence)
''')])]),
 ('co_tagdel', [(P, S, [('''            tag_classname = TAG_CLASSNAME_PREFIX + tag
            if tag_classname in self.classes_lookup:
                self.classes_lookup[tag_classname].del_codepoint(cp_or_sequence)
''', '''            tag_class = self.classes_lookup.get(TAG_CLASSNAME_PREFIX + tag)
            if tag_class is not None:
                tag_class.del_codepoint(cp_or_sequence)
''')])]),
 ('co_insert_delegate', [(P, S, [('''        for first_cp, last_cp in ranges:
            if first_cp == last_cp:
                self.repertoire.add_char([first_cp], comment=comment, ref=ref, tag=tag, when=when, not_when=not_when)
            else:
                self.repertoire.add_range(first_cp, last_cp, comment=comment, ref=ref, tag=tag, when=when, not_when=not_when, skip_check=True)
''', '''        kwargs = dict(comment=comment, ref=ref, tag=tag, when=when, not_when=not_when)
        for first_cp, last_cp in ranges:
            if first_cp == last_cp:
                self.repertoire.add_char([first_cp], **kwargs)
            else:
                self.repertoire.add_range(first_cp, last_cp, skip_check=True, **kwargs)
''')])]),
]
