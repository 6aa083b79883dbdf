import sys; sys.path.insert(0, "/verif/dev/refs")
from ed import sub, redef
redef('lgr/core.py', 'LGR._test_preliminary_eligibility', '''
    def _test_preliminary_eligibility(self, label, generate_chars=False):
        rule_logger.debug("Testing label '%s'", format_cp(label))
        i = 0
        label_parts = []
        label_invalid_parts = []
        chars = []
        while i < len(label):
            cp = label[i]
            try:
                char_list = self.repertoire.get_chars_from_prefix(cp)
            except NotInLGR:
                rule_logger.warning("No character in LGR starting with '%s'", format_cp(cp))
                label_invalid_parts.append((cp, None))
                i += 1
                continue
            failed_rules = []
            for char in char_list:
                if isinstance(char, CharSequence) and not char.is_prefix_of(label[i:]):
                    continue
                if self._test_context_rules(char, label, i):
                    rule_logger.debug("Code point '%s' in LGR", format_cp(cp))
                    i += len(char)
                    label_parts.extend(char.cp)
                    chars.append(char)
                    break
                failed_rules.append(char.when or char.not_when)
            else:
                rule_logger.warning("Code point '%s' does not comply with contextual rules: %s",
                                    format_cp(cp), ','.join(failed_rules))
                label_invalid_parts.append((cp, failed_rules if failed_rules else None))
                i += 1
        result = not label_invalid_parts
        if generate_chars:
            return result, label_parts, label_invalid_parts, chars
        return result, label_parts, label_invalid_parts
''')
