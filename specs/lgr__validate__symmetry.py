# Reference behaviour of lgr.validate.symmetry (parsed by the checks, never executed).
from __future__ import unicode_literals
import logging
from lgr.char import RangeChar
from lgr.utils import format_cp


def check_symmetry(lgr, options):
    success = True
    result = {'description': 'Testing symmetry', 'repertoire': []}
    for a in lgr.repertoire:
        if isinstance(a, RangeChar):
            continue
        for b in a.get_variants():
            if b.cp not in lgr.repertoire:
                lgr.notify_error('basic_symmetry')
                result['repertoire'].append({'char': a, 'variant': b, 'rule_type': None, 'rule': None, 'type': 'not-in-repertoire'})
                success = False
                continue
            reverse = []
            for v in lgr.get_variants(b.cp):
                if a.cp == v.cp:
                    reverse.append(v)
            if not reverse:
                success = False
                lgr.notify_error('basic_symmetry')
                result['repertoire'].append({'char': a, 'variant': b, 'rule_type': None, 'rule': None, 'type': 'missing-symmetric-variant'})
                continue
            if options and options.get('ignore_rules'):
                continue
            if b.when and b.when not in [r.when for r in reverse]:
                success = False
                result['repertoire'].append({'char': a, 'variant': b, 'rule_type': 'when', 'rule': b.when, 'type': 'variant-contextual-rule-missing'})
                lgr.notify_error('strict_symmetry')
            elif b.not_when and b.not_when not in [r.not_when for r in reverse]:
                success = False
                result['repertoire'].append({'char': a, 'variant': b, 'rule_type': 'not-when', 'rule': b.not_when, 'type': 'variant-contextual-rule-missing'})
                lgr.notify_error('strict_symmetry')
    lgr.notify_tested('basic_symmetry')
    lgr.notify_tested('strict_symmetry')
    return (success, result)
