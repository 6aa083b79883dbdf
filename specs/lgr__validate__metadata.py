# Reference behaviour of lgr.validate.metadata (parsed by the checks, never executed).
import logging
import datetime
import mimetypes
import re
VALID_SCOPE_TYPES = set([None, 'domain'])


def check_metadata(lgr, options):
    success = True
    result = {'description': 'Testing metadata', 'repertoire': []}
    vstart = lgr.metadata.validity_start
    vend = lgr.metadata.validity_end
    today = datetime.date.today().strftime('%Y-%m-%d')
    if vend is not None and today > vend:
        lgr.notify_error('validity_end_expiry')
        success = False
    lgr.notify_tested('validity_end_expiry')
    if vstart is not None and vend is not None and (vstart > vend):
        lgr.notify_error('validity_start_end')
        success = False
    lgr.notify_tested('validity_start_end')
    if vstart is not None and vstart > today:
        lgr.notify_error('validity_started')
        success = False
    lgr.notify_tested('validity_started')
    if lgr.metadata.description is not None:
        t = lgr.metadata.description.description_type
        if t is not None:
            if t not in mimetypes.types_map.values():
                lgr.notify_error('metadata_description_type')
                success = False
    lgr.notify_tested('metadata_description_type')
    for s in lgr.metadata.scopes:
        if s.scope_type not in VALID_SCOPE_TYPES:
            lgr.notify_error('metadata_scope_type')
            success = False
    lgr.notify_tested('metadata_scope_type')
    if lgr.metadata.version is not None:
        if not re.match('[1-9]\\d*$', lgr.metadata.version.value or ''):
            lgr.notify_error('metadata_version_integer')
            success = False
    lgr.notify_tested('metadata_version_integer')
    return (success, result)
