# Reference behaviour of lgr.validate.conditional_variants (parsed by the checks, never executed).
from __future__ import unicode_literals
import logging
from lgr.char import RangeChar
from lgr.utils import format_cp


def check_conditional_variants(lgr, options):
    success = True
    result = {'description': 'Testing conditional variants', 'repertoire': []}
    for char in lgr.repertoire:
        if isinstance(char, RangeChar):
            continue
        for var in char.get_variants():
            when = var.when
            not_when = var.not_when
            if when is not None and when not in lgr.rules:
                success = False
                result['repertoire'].append({'char': char, 'variant': var, 'rule_type': 'when', 'rule': when})
            if not_when is not None and not_when not in lgr.rules:
                success = False
                result['repertoire'].append({'char': char, 'variant': var, 'rule_type': 'not-when', 'rule': not_when})
    return (success, result)
