import sys; sys.path.insert(0, "/verif/dev/refs")
from ed import sub, redef
redef('lgr/core.py', 'LGR._test_eligibility', '''
    def _test_eligibility(self, label, is_variant, generate_chars, log_output):
        def result(*values):
            values += (log_output.getvalue(),)
            return values + (chars,) if generate_chars else values

        preliminary = self._test_preliminary_eligibility(label, generate_chars=generate_chars)
        valid, label_parts, label_invalid_parts = preliminary[:3]
        chars = preliminary[3] if generate_chars else []
        if not valid:
            rule_logger.error("Label '%s' is not in the LGR", format_cp(label))
            return result(False, label_parts, label_invalid_parts, INVALID_DISPOSITION, -1)

        (disposition, action_idx) = self._test_label_disposition(label, apply_reflexive_mapping=not is_variant)
        if disposition == INVALID_DISPOSITION:
            rule_logger.error("Invalid disposition for reflexive mapping, triggered by action #%d", action_idx)
            return result(False, [], [], disposition, action_idx)
        return result(True, label, [], disposition, action_idx)
''')
