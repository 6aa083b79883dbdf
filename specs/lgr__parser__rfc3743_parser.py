# Reference behaviour of lgr.parser.rfc3743_parser (parsed by the checks, never executed).
from __future__ import unicode_literals
import logging
import os
import re
from lgr.exceptions import LGRException
from lgr.metadata import Version
from lgr.parser.parser import LGRParser
from lgr.utils import format_cp
REFERENCE_RE = re.compile('Reference\\s+(?P<ref_id>\\d+)\\s+(?P<value>[^#]+)\\s*(?:#\\s*(?P<comment>.*))?')
VERSION_RE = re.compile('Version\\s+(?P<version_no>\\d+)\\s+(?P<date>\\d{8})\\s*(?:#\\s*(?P<comment>.*))?')
UNICODE_CODEPOINT_RE = re.compile('(?P<sequence>((?:U\\+)?(?P<codepoint>[0-9a-fA-F]{4,6}) ?)+)(\\((?P<references>\\d+(,\\d+)*)\\))?')


class RFC3743Parser(LGRParser):

    def unicode_version(self):
        return ''

    def validate_document(self, schema=None):
        return

    def parse_document(self):
        if not self.filename and isinstance(self.source, str):
            self.filename = os.path.basename(self.source)
        return super().parse_document()

    def _parse_doc(self, rule_file):
        line_num = 0
        for line in rule_file:
            line_num += 1
            line = line.strip()
            if len(line) == 0:
                continue
            if line[0] == '#':
                continue
            reference = REFERENCE_RE.match(line)
            if reference is not None:
                ref_id = reference.group('ref_id')
                value = reference.group('value')
                comment = reference.group('comment')
                try:
                    self._lgr.add_reference(value, ref_id=ref_id, comment=comment)
                except LGRException:
                    pass
                continue
            version = VERSION_RE.match(line)
            if version is not None:
                version_no = version.group('version_no')
                date = version.group('date')
                comment = version.group('comment')
                try:
                    self._lgr.metadata.version = Version(version_no, comment=comment)
                    self._lgr.metadata.date = date
                except LGRException:
                    pass
                continue
            if UNICODE_CODEPOINT_RE.match(line) is None:
                continue
            no_comment = line.split('#', 1)[0].strip()
            char_variant = no_comment.split(';')
            char = char_variant[0]
            try:
                [(codepoints, references)] = parse_char(char)
                self._lgr.add_cp(codepoints, ref=references, force=self.force)
            except ValueError:
                continue
            except LGRException as exc:
                pass
            if len(char_variant) > 1:
                preferred_variants = char_variant[1].strip()
                if len(preferred_variants) > 0 and preferred_variants[0] != '#':
                    var_type = 'activated'
                    self.insert_variant(line_num, codepoints, preferred_variants, var_type)
            if len(char_variant) > 2:
                variants = char_variant[2].strip()
                if len(variants) > 0 and variants[0] != '#':
                    self.insert_variant(line_num, codepoints, variants)

    def insert_variant(self, line_num, codepoints, var, var_type=None):
        try:
            variants = parse_char(var)
        except ValueError:
            return
        for var_codepoints, references in variants:
            try:
                self._lgr.add_variant(codepoints, var_codepoints, ref=references, variant_type=var_type, force=self.force)
            except LGRException as exc:
                pass


def parse_char(char):
    codepoints = []
    for match in UNICODE_CODEPOINT_RE.finditer(char):
        cp_or_sequence = [int(cp.replace('U+', ''), 16) for cp in match.group('sequence').split()]
        references = match.group('references')
        ref_list = []
        if references is not None:
            ref_list = references.split(',')
        codepoints.append((cp_or_sequence, ref_list))
    return codepoints
