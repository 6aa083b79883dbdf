# Reference behaviour of lgr.metadata (parsed by the checks, never executed).
from __future__ import unicode_literals
import re
import mimetypes
import datetime
from language_tags import tags as rfc5646
import logging
from collections import OrderedDict
from lgr.exceptions import LGRFormatException, ReferenceAlreadyExists, ReferenceNotDefined, ReferenceInvalidId
from lgr.rfc7940 import LGRFormatTestResults
from lgr.memoize import MethodAttributeMemoizer
from lgr.utils import script_iso15924_to_unicode


def _validate_date(date, force):
    date_elements = date.split('-')
    if len(date_elements) == 3:
        try:
            date_elements = [int(d) for d in date_elements]
            date_object = datetime.date(date_elements[0], date_elements[1], date_elements[2])
            if date_object.isoformat() == date:
                return date
        except ValueError:
            if force:
                return date
            else:
                raise LGRFormatException(LGRFormatException.LGRFormatReason.INVALID_DATE_TAG)
    if force:
        return date
    else:
        raise LGRFormatException(LGRFormatException.LGRFormatReason.INVALID_DATE_TAG)


class Version(object):

    def __init__(self, value, comment=None):
        self.value = value
        self.comment = comment

    def __unicode__(self):
        return self.value
    __str__ = __unicode__

    def __eq__(self, other):
        return self.value == other.value and self.comment == other.comment


class Scope(object):

    def __init__(self, value, scope_type=None):
        self.value = value
        self.scope_type = scope_type

    def __unicode__(self):
        return '{}: {}'.format(self.scope_type, self.value)
    __str__ = __unicode__

    def __eq__(self, other):
        return self.value == other.value and self.scope_type == other.scope_type

    def __hash__(self):
        return hash((self.value, self.scope_type))


class Description(object):

    def __init__(self, value, description_type=None):
        self.value = value
        if description_type not in mimetypes.types_map.values():
            pass
        self.description_type = description_type

    def __eq__(self, other):
        return self.value == other.value and self.description_type == other.description_type


class Metadata(object):

    def __init__(self, rfc7940_checks=None):
        self.version = None
        self.date = None
        self.languages = []
        self.scopes = []
        self.validity_start = None
        self.validity_end = None
        self.unicode_version = '6.3.0'
        self.description = None
        if rfc7940_checks is None:
            self.rfc7940_checks = LGRFormatTestResults()
        else:
            self.rfc7940_checks = rfc7940_checks

    @MethodAttributeMemoizer('languages')
    def get_scripts(self, allow_invalid=False):
        scripts = []
        for language in self.languages:
            lang_tag = rfc5646.tag(language)
            if allow_invalid or lang_tag.valid:
                iso_script_tag = lang_tag.script
                iso_script = None
                if iso_script_tag is not None:
                    iso_script = iso_script_tag.format
                if not iso_script_tag and lang_tag.language:
                    iso_script = lang_tag.language.data.get('record', {}).get('Suppress-Script')
                if iso_script:
                    scripts += script_iso15924_to_unicode(iso_script)
        return scripts

    def add_language(self, language, force=False):
        try:
            if not rfc5646.check(language):
                self.rfc7940_checks.error('metadata_language')
                if not force:
                    raise LGRFormatException(LGRFormatException.LGRFormatReason.INVALID_LANGUAGE_TAG)
            self.rfc7940_checks.tested('metadata_language')
            if language not in self.languages:
                self.languages.append(language)
        except UnicodeEncodeError:
            self.rfc7940_checks.error('metadata_language')
            raise LGRFormatException(LGRFormatException.LGRFormatReason.INVALID_LANGUAGE_TAG)

    def set_languages(self, languages, force=False):
        found_error = False
        languages = list(languages)
        for language in list(languages):
            try:
                if not rfc5646.check(language):
                    found_error = True
            except UnicodeEncodeError:
                languages.remove(language)
        if found_error and (not force):
            raise LGRFormatException(LGRFormatException.LGRFormatReason.INVALID_LANGUAGE_TAG)
        else:
            self.languages = languages

    def set_date(self, date, force=False):
        self.date = _validate_date(date, force)

    def set_validity_start(self, date, force=False):
        self.validity_start = _validate_date(date, force)

    def set_validity_end(self, date, force=False):
        self.validity_end = _validate_date(date, force)

    def set_unicode_version(self, unicode_version, force=False):
        if re.match('\\d{1,}\\.\\d{1,}\\.\\d{1,}$', unicode_version) is None:
            self.rfc7940_checks.error('valid_unicode_version')
            if not force:
                raise LGRFormatException(LGRFormatException.LGRFormatReason.INVALID_UNICODE_VERSION_TAG)
        self.unicode_version = unicode_version


class ReferenceManager(OrderedDict):
    REFERENCE_REGEX = '^[\\-_.:0-9A-Z]*$'

    def __init__(self, *args, **kwargs):
        super(ReferenceManager, self).__init__(*args, **kwargs)
        self.next_id = 0

    def __contains__(self, k):
        return super(ReferenceManager, self).__contains__(str(k))

    def __getitem__(self, k):
        return super(ReferenceManager, self).__getitem__(str(k))

    def __setitem__(self, k, v):
        return super(ReferenceManager, self).__setitem__(str(k), v)

    def __delitem__(self, k):
        return super(ReferenceManager, self).__delitem__(str(k))

    def add_reference(self, value, comment=None, ref_id=None):
        reference = {'value': value}
        if comment is not None:
            reference['comment'] = comment
        if ref_id is not None:
            if ref_id in self:
                raise ReferenceAlreadyExists(ref_id)
            if not re.match(self.REFERENCE_REGEX, str(ref_id)):
                raise ReferenceInvalidId(ref_id)
        else:
            next_id = self.next_id
            while str(next_id) in sorted(self):
                next_id += 1
            self.next_id = next_id
            ref_id = next_id
        self[ref_id] = reference
        return str(ref_id)

    def del_reference(self, ref_id):
        if ref_id not in self:
            raise ReferenceNotDefined(ref_id)
        del self[ref_id]
        try:
            ref_id = int(ref_id)
            if ref_id < self.next_id:
                self.next_id = ref_id
        except ValueError:
            pass

    def update_reference(self, ref_id, value=None, comment=None):
        if ref_id not in self:
            raise ReferenceNotDefined(ref_id)
        ref = self[ref_id]
        if value is not None:
            ref['value'] = value
        if comment is not None:
            ref['comment'] = comment
