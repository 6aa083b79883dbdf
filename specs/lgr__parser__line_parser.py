# Reference behaviour of lgr.parser.line_parser (parsed by the checks, never executed).
from __future__ import unicode_literals
import logging
import io
import re
from lgr.exceptions import LGRException
from lgr.utils import format_cp
from lgr.parser.parser import LGRParser
UNICODE_CODEPOINT_RE = re.compile('U\\+([0-9a-fA-F]{4,6})')


class LineParser(LGRParser):

    def unicode_version(self):
        return ''

    def validate_document(self, schema=None):
        return True

    def _parse_doc(self, rule_file):
        line_num = 0
        for line in rule_file:
            line_num += 1
            line = line.strip()
            if len(line) == 0:
                continue
            if line[0] == '#':
                continue
            codepoints = []
            for cp in UNICODE_CODEPOINT_RE.finditer(line):
                try:
                    codepoints.append(int(cp.group(1), 16))
                except ValueError:
                    pass
            try:
                self._lgr.add_cp(codepoints)
            except LGRException as exc:
                pass
