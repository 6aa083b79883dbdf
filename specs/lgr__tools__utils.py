# Reference behaviour of lgr.tools.utils (parsed by the checks, never executed).
from __future__ import unicode_literals
import argparse
import codecs
import io
import logging
import os
import re
import sys
from io import BytesIO
from urllib.parse import urlparse
from urllib.request import urlopen
from munidata import UnicodeDataVersionManager
from munidata.database import UnicodeDatabase
from lgr import text_type
from lgr.parser.xml_parser import XMLParser
from lgr.parser.xml_serializer import serialize_lgr_xml
from lgr.tools.merge_set import merge_lgr_set
from lgr.utils import COMMON_SCRIPT, INHERITED_SCRIPT, cp_to_ulabel


def read_labels(input, unidb=None, do_raise=False, keep_commented=False, as_cp=False, return_exceptions=False):

    def clean(l):
        try:
            l = l.lstrip(codecs.BOM_UTF8.decode('utf-8'))
        except:
            pass
        return l.strip()
    for label in input:
        label = clean(label)
        if '#' in label:
            pos = label.find('#')
            if pos == 0:
                if keep_commented:
                    yield (label, label, True, '')
                continue
            label = label[:pos].strip()
        if len(label) == 0:
            continue
        kwargs = {'as_cp': as_cp, 'do_raise': do_raise}
        if unidb:
            kwargs['idna_decoder'] = unidb.idna_decode_label
        parsed_label, valid, ex = parse_label_input(label, **kwargs)
        error = ex if return_exceptions else text_type(ex)
        yield (label, parsed_label, valid, error)


def parse_single_cp_input(s):
    s = s.strip()
    if len(s) == 1:
        return ord(s)
    else:
        if s[:2].upper() == 'U+':
            v = int(s[2:], 16)
        else:
            v = int(s, 16)
        if v < 0 or v > 1114111:
            raise ValueError('code point value must be in the range [0, U+10FFFF]')
        return v


def parse_codepoint_input(s):
    return [parse_single_cp_input(x) for x in s.split()]


def parse_label_input(s, idna_decoder=lambda x: x.encode('utf-8').decode('idna'), as_cp=True, keep_spaces=False, do_raise=False):
    parsed_label = ''
    valid = True
    exception = None
    try:
        parsed_label = _parse_label_input(s, idna_decoder, as_cp, keep_spaces)
    except BaseException as ex:
        if do_raise:
            raise
        try:
            parsed_label = [ord(c) for c in s] if as_cp else s
        except:
            pass
        valid = False
        exception = ex
    return (parsed_label, valid, exception)


def _parse_label_input(s, idna_decoder=lambda x: x.encode('utf-8').decode('idna'), as_cp=True, keep_spaces=False):
    if s.lower().startswith('xn--'):
        if as_cp:
            return [ord(c) for c in idna_decoder(s.lower())]
        else:
            return idna_decoder(s.lower())
    elif ' ' in s or 'U+' in s.upper():
        try:
            label_cp = parse_codepoint_input(s)
        except:
            if ' ' not in s:
                raise
            if not keep_spaces:
                raise ValueError("Label '{}' contains spaces that are not PVALID for IDNA2008".format(s))
        else:
            if as_cp:
                return label_cp
            else:
                return cp_to_ulabel(label_cp)
    if as_cp:
        return [ord(c) for c in s]
    else:
        return s


def merge_lgrs(input_lgrs, name=None, rng=None, unidb=None):
    lgr_set = []
    for lgr_file in input_lgrs:
        lgr_parser = XMLParser(lgr_file)
        if unidb:
            lgr_parser.unicode_database = unidb
        if rng:
            validation_result = lgr_parser.validate_document(rng)
            if validation_result is not None:
                pass
        lgr = lgr_parser.parse_document()
        if lgr is None:
            return
        lgr_set.append(lgr)
    if not name:
        name = 'merged-lgr-set'
    merged_lgr = merge_lgr_set(lgr_set, name)
    if unidb:
        merged_lgr.unicode_database = unidb
    return (merged_lgr, lgr_set)


def get_rz_label_script(label: str, unidb: UnicodeDatabase) -> str | None:
    if not label:
        return None
    script = unidb.get_script(label[0], alpha4=True)
    if script == 'Hani':
        script = 'Hani'
        for character in label[1:]:
            if unidb.get_script(character, alpha4=True) in ['Hira', 'Kana']:
                script = 'Jpan'
                break
    elif script in [COMMON_SCRIPT, INHERITED_SCRIPT]:
        for character in label[1:]:
            script = unidb.get_script(character, alpha4=True)
            if script not in [COMMON_SCRIPT, INHERITED_SCRIPT]:
                break
        if script in [COMMON_SCRIPT, INHERITED_SCRIPT] and any((character in label for character in ['〆', 'ー'])):
            script = 'Jpan'
    if script in ['Hira', 'Kana']:
        script = 'Jpan'
    elif script == 'Hang':
        script = 'Kore'
    return f'und-{script}'


def write_output(s, test=True):
    if test:
        if sys.version_info.major > 2:
            print(s)
        else:
            print(s.encode('utf-8'))


def get_stdin():
    if sys.version_info.major > 2:
        return sys.stdin
    else:
        return codecs.getreader('utf8')(sys.stdin)


def download_file(source_url):
    base_url = urlparse(source_url).path
    filename = os.path.basename(base_url)
    with urlopen(source_url) as resp:
        data = BytesIO(resp.read())
    return (filename, data)


def parse_lgr(xml, rng=None, unidb=None):
    lgr_parser = XMLParser(xml)
    if unidb:
        lgr_parser.unicode_database = unidb
    if rng is not None:
        validation_result = lgr_parser.validate_document(rng)
        if validation_result is not None:
            return
    lgr = lgr_parser.parse_document()
    return lgr


class LgrToolArgParser(argparse.ArgumentParser):

    def __init__(self, *args, **kwargs):
        super(LgrToolArgParser, self).__init__(*args, **kwargs)
        self.args = None
        self.unidb = None

    def add_common_args(self):
        self.add_logging_args()
        self.add_libs_arg()
        self.add_rng_arg()

    def add_logging_args(self):
        self.add_argument('-v', '--verbose', action='store_true', help='be verbose')
        self.add_argument('-q', '--quiet', action='store_true', help='Be quiet (no details, no log)')

    def add_libs_arg(self, required=True):
        self.add_argument('-l', '--libs', metavar='LIBS', help='ICU libraries', required=required)

    def add_unicode_arg(self):
        self.add_argument('-u', '--unicode', metavar='Unicode', default='6.3.0', help='Unicode version')

    def add_rng_arg(self):
        self.add_argument('-r', '--rng', metavar='RNG', help='RelaxNG XML schema')

    def add_xml_meta(self):
        self.add_argument('xml', metavar='XML')

    def parse_args(self, *args, **kwargs):
        if not self.args:
            self.args = super(LgrToolArgParser, self).parse_args(*args, **kwargs)
        return self.args

    def setup_logger(self):
        if not self.args:
            self.parse_args()
        log_level = logging.DEBUG if self.args.verbose else logging.INFO
        if hasattr(self.args, 'test') and self.args.test and (not self.args.verbose):
            log_level = logging.ERROR
        if self.args.quiet:
            log_level = logging.CRITICAL
        logging.basicConfig(stream=sys.stderr, level=log_level, format='%(levelname)s:%(name)s [%(filename)s:%(lineno)s] %(message)s')

    def parse_lgr(self):
        if not self.args:
            self.parse_args()
        return parse_lgr(self.args.xml or self.args.lgr_xml, self.args.rng, self.get_unidb())

    def get_unidb(self):
        if not self.args:
            self.parse_args()
        if self.args.libs and (not self.unidb):
            libpath, i18n_libpath, libver = self.args.libs.split('#')
            manager = UnicodeDataVersionManager()
            self.unidb = manager.register(None, libpath, i18n_libpath, libver)
        return self.unidb


class LgrSetToolArgParser(LgrToolArgParser):

    def __init__(self, *args, **kwargs):
        super(LgrSetToolArgParser, self).__init__(*args, **kwargs)
        self.merged_lgr = None
        self.script_lgr = None
        self.set_labels = None
        self.lgr = None

    def add_xml_set_args(self):
        self.add_argument('-x', '--lgr-xml', metavar='LGR_XML', action='append', required=True, help='The LGR or LGR set if used multiple times')
        self.add_argument('-s', '--lgr-script', metavar='LGR_SCRIPT', help='If LGR is a set, the script used to validate input labels')
        self.add_argument('-f', '--set-labels', metavar='SET_LABELS', help='If LGR is a set, the file containing the label of the LGR set')

    def process_set(self, optional_set_labels):
        if len(self.args.lgr_xml) > 1:
            if not self.args.lgr_script:
                return
            if not optional_set_labels and (not self.args.set_labels):
                return
            self.merged_lgr, lgr_set = merge_lgrs(self.args.lgr_xml, rng=self.args.rng, unidb=self.get_unidb())
            if not self.merged_lgr:
                return
            self.set_labels = io.StringIO()
            if self.args.set_labels:
                with io.open(self.args.set_labels, 'r', encoding='utf-8') as set_labels_input:
                    self.set_labels = io.StringIO(set_labels_input.read())
            self.script_lgr = None
            for lgr_s in lgr_set:
                try:
                    if lgr_s.metadata.languages[0] == self.args.lgr_script:
                        if self.script_lgr:
                            pass
                        self.script_lgr = lgr_s
                except (AttributeError, IndexError):
                    pass
            if not self.script_lgr:
                return
        else:
            self.lgr = parse_lgr(self.args.lgr_xml[0], self.args.rng, self.get_unidb())
            if self.lgr is None:
                return
        return True


class LgrDumpTool(LgrToolArgParser):

    def __init__(self, rfc_parser_cls, *args, **kwargs):
        super(LgrDumpTool, self).__init__(*args, **kwargs)
        self.rfc_parser_cls = rfc_parser_cls

    def run(self):
        self.add_logging_args()
        self.add_argument('-o', '--output', metavar='OUTPUT', help='Optional output file')
        self.add_argument('file', metavar='FILE')
        self.parse_args()
        self.setup_logger()
        rfc_parser = self.rfc_parser_cls(self.args.file)
        lgr = rfc_parser.parse_document()
        if self.args.output is not None:
            xml = serialize_lgr_xml(lgr, pretty_print=True)
            with io.open(self.args.output, mode='wb') as output:
                output.write(xml)
        else:
            print(serialize_lgr_xml(lgr, pretty_print=True, encoding='unicode', xml_declaration=False))
