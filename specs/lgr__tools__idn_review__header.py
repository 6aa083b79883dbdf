# Reference behaviour of lgr.tools.idn_review.header (parsed by the checks, never executed).
import logging
from datetime import date
from lgr.core import LGR


def generate_header(idn_table: LGR, reference_lgr: LGR) -> dict:
    try:
        idn_table_version = idn_table.metadata.version.value
    except BaseException:
        idn_table_version = None
    header = {'date': date.today(), 'disclaimer': 'Please refer to the LGR (IDN Table) Review Tool disclaimer on this <a href="https://www.icann.org/resources/pages/lgr-toolset-2015-06-21-en" target="_blank" rel="noopener noreferrer">page</a>', 'idn_table': {'filename': idn_table.name, 'version': idn_table_version}}
    if reference_lgr:
        try:
            ref_lgr_version = reference_lgr.metadata.version.value
        except BaseException:
            ref_lgr_version = None
        header['reference_lgr'] = {'name': reference_lgr.name, 'version': ref_lgr_version}
    return header
