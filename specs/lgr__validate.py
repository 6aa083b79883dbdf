# Reference behaviour of lgr.validate (parsed by the checks, never executed).
from __future__ import unicode_literals
import logging
from lgr.exceptions import LGRException
from lgr.validate.xml_validity import check_xml_validity
from lgr.validate.symmetry import check_symmetry
from lgr.validate.lgr_stats import compute_stats
from lgr.validate.rebuild_lgr import rebuild_lgr
from lgr.validate.transitivity import check_transitivity
from lgr.validate.conditional_variants import check_conditional_variants
from lgr.validate.metadata import check_metadata
from lgr.validate.miscellaneous import check_miscellaneous
CHECKS = [check_xml_validity, check_symmetry, check_transitivity, check_conditional_variants, rebuild_lgr, compute_stats]
RFC7940_CHECKS = [check_metadata, check_miscellaneous]


def validate_lgr(lgr, options):
    result = []
    TO_RUN = list(CHECKS)
    if options.get('rfc7940'):
        TO_RUN += RFC7940_CHECKS
    for check_function in TO_RUN:
        try:
            valid, func_result = check_function(lgr, options)
            result.append((check_function.__name__, func_result))
        except LGRException as exc:
            result.append((check_function.__name__, exc))
    return result
