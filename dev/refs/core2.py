import sys; sys.path.insert(0, "/verif/dev/refs")
from ed import sub, redef
redef('lgr/core.py', 'LGR._test_label_disposition', '''
    def _get_char_candidates(self, label, index):
        for char in self.repertoire.get_chars_from_prefix(label[index]):
            if isinstance(char, CharSequence) and not char.is_prefix_of(label[index:]):
                continue
            if self._test_context_rules(char, label, index):
                yield char

    def _test_label_disposition(self, label, apply_reflexive_mapping=True):
        rule_logger.info("Testing disposition of label %s", format_cp(label))
        only_variants = True
        disp_set = set()
        for i, cp in enumerate(label):
            rule_logger.debug("Code point: '%s'", format_cp(cp))
            try:
                candidates = list(self._get_char_candidates(label, i))
            except NotInLGR:
                rule_logger.info("No character in LGR starting with '%s'", cp)
                continue
            for char in candidates:
                types = []
                if apply_reflexive_mapping:
                    types = [var.type for var in char.get_reflexive_variants()
                             if self._test_context_rules(var, label, i)]
                disp_set.update(types)
                if not types:
                    only_variants = False
        if not disp_set:
            only_variants = False
        rule_logger.info("Label '%s' gave reflexive mapping with disposition set %s", format_cp(label), disp_set)
        return self._apply_actions(label, disp_set, only_variants)
''')
redef('lgr/core.py', 'LGR._apply_actions', '''
    def _apply_actions(self, label, disp_set, only_variants):
        for idx, action in enumerate(self.effective_actions):
            rule_logger.info("Apply action %d (%s)", idx, action)
            disp = action.apply(label, disp_set, only_variants,
                                self.rules_lookup, self.classes_lookup,
                                self._unicode_database)
            if disp is None:
                continue
            rule_logger.info("Action %d (%s) triggered", idx, action)
            return disp, idx
        rule_logger.warning("No action triggered by label '%s' with disposition set '%s'", label, disp_set)
        return None, -1
''')
redef('lgr/core.py', 'LGR._test_context_rules', '''
    def _test_context_rules(self, char, orig_label, index):
        rule_name = char.when if char.when is not None else char.not_when
        if rule_name is None:
            return True
        matched = self.rules_lookup[rule_name].matches(orig_label, self.rules_lookup, self.classes_lookup,
                                                       self._unicode_database, char.cp, index)
        if char.when is not None:
            if not matched:
                rule_logger.info("when rule '%s' does not validate for code point '%s'", rule_name, format_cp(char.cp))
            return bool(matched)
        if matched:
            rule_logger.info("not-when rule '%s' validates for code point '%s'", rule_name, format_cp(char.cp))
        return not matched
''')
