C='lgr/core.py'; X='lgr/parser/xml_serializer.py'; H='lgr/parser/heuristic_parser.py'; R='lgr/parser/rfc4290_parser.py'
BUGS=[
('C03',C,"label_invalid_parts.append((cp, pending_rules_not_in_lgr or None))\n                i += 1","label_invalid_parts.append((cp, pending_rules_not_in_lgr or None))\n                i += len(char_list[0])"),
('C03',C,"label_parts += char.cp\n","label_parts += char.cp[:1]\n"),
('C03',C,"pending_rules_not_in_lgr.append(char.when or char.not_when)\n                    continue","pending_rules_not_in_lgr.append(char.when or char.not_when)\n                    break"),
('C01',C,"if not self._test_context_rules(prefix,\n                                            prefixed_label,","if not self._test_context_rules(prefix,\n                                            label_prefix + tuple(label),"),
('C01',C,"                if not self._test_context_rules(var,\n                                                variant_label,\n                                                len(label_prefix)):","                if not self._test_context_rules(var,\n                                                label_prefix + tuple(label),\n                                                len(label_prefix)):"),
('C02',C,"only_variants = only_variants if len(disp_set) > 0 else False\n","only_variants = only_variants and len(label) > 0\n"),
('C02',C,"                if apply_reflexive_mapping:\n                    for var in char.get_reflexive_variants():","                if apply_reflexive_mapping and not is_variant:\n                    for var in list(char.get_reflexive_variants())[:1]:"),
('C04',C,"if len(cp) < len(char) and cp.is_prefix_of(label) and \\\n                        self._test","if len(cp) < len(char) and len(cp) > 1 and cp.is_prefix_of(label) and \\\n                        self._test"),
('C04',C,"                if var.cp == char.cp:\n                    has_reflexive_mapping = True","                if var.cp == char.cp and var.type is not None:\n                    has_reflexive_mapping = True"),
('C04',C,"is_variant | has_variant,","is_variant,"),
('C04',C,"perm_disp | disp,","perm_disp ^ disp,"),
('C12',C,"                if not self.raise_on_invalid_property:\n                    codepoints.append(cp)\n                elif not force:\n                    raise status","                codepoints.append(cp)\n                if self.raise_on_invalid_property and not force:\n                    raise status"),
('C12',C,"            in_script, _ = self.cp_in_script(cp_or_sequence)\n            if assert_in_script and not in_script:","            in_script, _ = self.cp_in_script(cp_or_sequence[:1])\n            if assert_in_script and not in_script:"),
('C12',C,"            for cp in cp_or_sequence:\n                cp_valid = validating_repertoire.check_cp(cp)","            for cp in cp_or_sequence[:1]:\n                cp_valid = validating_repertoire.check_cp(cp_or_sequence)"),
('C12',C,"        if (not force) and (when is not None) and (not_when is not None):\n            logger.error(\"Cannot add range","        if (not force) and when and not_when and when != not_when:\n            logger.error(\"Cannot add range"),
('C10',C,"        for cp in codepoints:\n            self._add_cp_to_tag_classes(cp, tags)","        for cp in codepoints[:1]:\n            self._add_cp_to_tag_classes(cp, tags)"),
('C10',C,"        for cp in range(first_cp, last_cp + 1):\n            self._del_cp_from_tag_classes(cp, tags)","        for cp in range(first_cp, last_cp):\n            self._del_cp_from_tag_classes(cp, tags)"),
('C13',C,"        present = [cp for cp in codepoints if cp in self.repertoire]\n        if present and not force:","        present = [cp for cp in codepoints[:1] if cp in self.repertoire]\n        if present and not force:"),
('C13',C,"        self.repertoire.del_range(first_cp, last_cp)\n        for cp in range(first_cp, last_cp + 1):\n            self._del_cp_from_tag_classes(cp, tags)","        for cp in range(first_cp, last_cp + 1):\n            self._del_cp_from_tag_classes(cp, tags)\n        self.repertoire.del_range(first_cp, last_cp)"),
('C11',C,"        if isinstance(char, RangeChar):\n            # The other code points of the range stay in the LGR\n            self.expand_range(char.first_cp, char.last_cp)\n        self.repertoire.del_char","        if isinstance(char, RangeChar) and char.first_cp != cp_or_sequence[0]:\n            # The other code points of the range stay in the LGR\n            self.expand_range(char.first_cp, char.last_cp)\n        self.repertoire.del_char"),
('C14',C,"            logger.error(\"Reference list '%s' for code point '%s' contains \"\n                         \"duplicate reference id\",\n                         references, format_cp(cp_or_sequence))\n            if not force:","            logger.error(\"Reference list '%s' for code point '%s' contains \"\n                         \"duplicate reference id\",\n                         references, format_cp(cp_or_sequence))\n            if not force and len(cp_or_sequence) == 1:"),
('C16',X,"attributes['cp'] = ' '.join('%04X' % c for c in char.cp)","attributes['cp'] = ' '.join('%X' % c for c in char.cp)"),
('C16',X,"            if len(ref.get('comment', \"\")) > 0:\n                ref_attributes['comment'] = ref['comment']","            if len(ref.get('comment', \"\")) > 0 and ref['value']:\n                ref_attributes['comment'] = ref['comment']"),
('C16',X,"        if metadata.description.description_type is not None:\n            node.attrib","        if metadata.description.description_type not in [None, 'text/plain']:\n            node.attrib"),
('C16',X,"    for elem in ['date', 'validity_start', 'validity_end', 'unicode_version']:","    for elem in ['date', 'validity_start', 'validity_end']:"),
('C16',X,"        for variant in char.get_variants():\n            variant_attributes","        for variant in (char.get_variants() if len(char) == 1 else []):\n            variant_attributes"),
('C16',X,"    for language in metadata.languages:","    for language in sorted(metadata.languages):"),
('C18',R,"int(codepoint_re.group(1), 16)","int(codepoint_re.group(1)[:5], 16)"),
('C18',R,"char_variant = line.split('#')[0].split('|')","char_variant = line.split(' #')[0].split('|')"),
('C18',H,"            if hasattr(rule_file, \"seek\"):\n                rule_file.seek(0)\n            self._check_rfc_format(rule_file, is_str)","            self._check_rfc_format(rule_file, is_str)"),
('C18',H,"            'allow_invalid_property': self.allow_invalid_property\n        }","        }"),
('C18',H,"        self.lgr_parser.unicode_database = self._unicode_database\n","        if self._unicode_database and not self.lgr_parser.filename:\n            self.lgr_parser.unicode_database = self._unicode_database\n"),
('C18',H,"            line = line.split('#')[0].strip()","            line = line.strip()"),
('C19',R,"self._lgr.add_variant(codepoints, var_codepoints, force=self.force)","self._lgr.add_variant(codepoints, var_codepoints, force=True)"),
('C06',C,"self._get_prefix_list(label, label_prefix)","self._get_prefix_list(label)"),
]
