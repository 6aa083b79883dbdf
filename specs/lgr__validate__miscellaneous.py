# Reference behaviour of lgr.validate.miscellaneous (parsed by the checks, never executed).
import logging
import datetime
import re
import lgr.char as lgr_char
from lgr.utils import is_idna_valid_cp_or_sequence
STANDARD_DISPOSITIONS = set(['invalid', 'blocked', 'allocatable', 'activated', 'valid'])


def check_lgr_data(lgr):
    success = True
    for c in lgr.repertoire:
        if isinstance(c, lgr_char.RangeChar):
            continue
        for v in c.get_variants():
            if v.type is not None:
                t = v.type
                if ' ' in t or t == '' or t[0] == '_':
                    success = False
                    lgr.notify_error('data_variant_type')
    lgr.notify_tested('data_variant_type')
    unidb_version = lgr.unicode_database.get_unicode_version() if lgr.unicode_database is not None else None
    if unidb_version == lgr.metadata.unicode_version:
        lgr.notify_tested('valid_unicode_version')
        to_check = set()
        for c in lgr.repertoire:
            if isinstance(c, lgr_char.RangeChar):
                to_check.update(range(c.first_cp, c.last_cp + 1))
            else:
                to_check.update(c.cp)
                for v in c.get_variants():
                    to_check.update(v.cp)
        _, invalid_cps = is_idna_valid_cp_or_sequence(to_check, lgr.unicode_database, check_all=True)
        for cp, prop in invalid_cps.items():
            success = False
            lgr.notify_error('codepoint_valid')
        lgr.notify_tested('codepoint_valid')
    for c in lgr.repertoire:
        success = check_ref_ascending(lgr, c.references) and success
        for v in c.get_variants():
            success = check_ref_ascending(lgr, v.references) and success
    lgr.notify_tested('ref_attribute_ascending')
    return success


def check_ref_ascending(lgr, reflist):
    last = -1
    for n in reflist:
        if not re.match('\\d+$', n):
            break
        if not int(n) > last:
            lgr.notify_error('ref_attribute_ascending')
            return False
        last = int(n)
    return True


def check_lgr_rules(lgr):
    success = True
    for action in lgr.actions:
        disp = action.disp
        if not disp in STANDARD_DISPOSITIONS:
            lgr.notify_error('standard_dispositions')
            success = False
    lgr.notify_tested('standard_dispositions')
    return success


def check_miscellaneous(lgr, options):
    result = {'description': 'Testing data and rules', 'repertoire': []}
    success = check_lgr_rules(lgr)
    success = check_lgr_data(lgr) and success
    return (success, result)
