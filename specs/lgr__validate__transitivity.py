# Reference behaviour of lgr.validate.transitivity (parsed by the checks, never executed).
from __future__ import unicode_literals
import logging
from lgr.char import RangeChar
from lgr.utils import format_cp
from lgr.exceptions import NotInLGR


def check_transitivity(lgr, options):
    success = True
    result = {'description': 'Testing transitivity', 'repertoire': []}
    for a in lgr.repertoire:
        if isinstance(a, RangeChar):
            continue
        a_variants = list(a.get_variants())
        for b in a_variants:
            try:
                variants = lgr.get_variants(b.cp)
            except NotInLGR:
                success = False
                lgr.notify_error('basic_transitivity')
                continue
            for c in [var for var in variants if var.cp != a.cp]:
                if c.cp not in [var.cp for var in a_variants]:
                    success = False
                    lgr.notify_error('basic_transitivity')
                    result['repertoire'].append({'char': a, 'variant': c})
    lgr.notify_tested('basic_transitivity')
    return (success, result)
