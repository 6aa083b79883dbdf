# Reference behaviour of lgr.parser.rfc4290_parser (parsed by the checks, never executed).
from __future__ import unicode_literals
import logging
import os
import re
from lgr.exceptions import LGRException
from lgr.parser.parser import LGRParser
from lgr.utils import format_cp
UNICODE_CODEPOINT_RE = re.compile('U\\+([0-9a-fA-F]{4,6})')


class RFC4290Parser(LGRParser):

    def unicode_version(self):
        return ''

    def validate_document(self, schema=None):
        return

    def parse_document(self):
        if not self.filename and isinstance(self.source, str):
            self.filename = os.path.basename(self.source)
        return super().parse_document()

    def _parse_doc(self, rule_file):
        line_num = 0
        for line in rule_file:
            line_num += 1
            line = line.strip()
            if len(line) == 0:
                continue
            if line[0] == '#':
                continue
            if UNICODE_CODEPOINT_RE.match(line) is None:
                continue
            char_variant = line.split('#')[0].split('|')
            char = char_variant[0]
            try:
                codepoints = parse_char(char)
                self._lgr.add_cp(codepoints, force=self.force)
            except ValueError:
                continue
            except LGRException as exc:
                pass
            if len(char_variant) > 1:
                variants = char_variant[1].split(':')
                for var in variants:
                    try:
                        var_codepoints = parse_char(var)
                        self._lgr.add_variant(codepoints, var_codepoints, force=self.force)
                    except ValueError:
                        pass
                    except LGRException as exc:
                        pass


def parse_char(char):
    codepoints = []
    chars = char.split('-')
    for c in chars:
        codepoint_re = UNICODE_CODEPOINT_RE.match(c)
        if codepoint_re is not None:
            codepoints.append(int(codepoint_re.group(1), 16))
        else:
            raise ValueError(c)
    return codepoints
