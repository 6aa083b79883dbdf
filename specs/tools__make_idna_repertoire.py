# Reference behaviour of tools.make_idna_repertoire (parsed by the checks, never executed).
from lxml import etree
import sys
import argparse
import logging
IDNATABLES_URL = 'http://www.iana.org/assignments/idna-tables-{version}/idna-tables-{version}.xml'
IDNATABLES_NS = 'http://www.iana.org/assignments'
CODEPOINT_TAG = '{%s}codepoint' % IDNATABLES_NS
PROPERTY_TAG = '{%s}property' % IDNATABLES_NS


def make_idna_repertoire(version):
    from lgr.core import LGR
    from lgr.parser.xml_serializer import serialize_lgr_xml
    lgr = LGR('idna2008-%s' % version)
    idna_url = IDNATABLES_URL.format(version=version)
    registry = etree.parse(idna_url)
    namespace = '{{{0}}}'.format(IDNATABLES_NS)
    registry_id = 'idna-tables-properties'
    if list(map(int, version.split('.'))) <= [6, 0, 0]:
        registry_id = 'idna-tables-{}-properties'.format(version)
    record_xpath = '{0}registry[@id="{1}"]/{0}record'.format(namespace, registry_id)
    for record in registry.findall(record_xpath):
        codepoint = record.find(CODEPOINT_TAG).text
        prop = record.find(PROPERTY_TAG).text
        if prop not in ['PVALID', 'CONTEXTO', 'CONTEXTJ']:
            continue
        if codepoint.find('-') > 0:
            first_cp, last_cp = [int(c, 16) for c in codepoint.split('-')]
            lgr.add_range(first_cp, last_cp)
        else:
            lgr.add_cp(int(codepoint, 16))
    lgr_root = serialize_lgr_xml(lgr, pretty_print=True, encoding='unicode', xml_declaration=False)
    print(lgr_root)


def main():
    parser = argparse.ArgumentParser(description='Parse and make a repertoire from IDNA2008 registry')
    parser.add_argument('-v', '--verbose', action='store_true', help='be verbose')
    parser.add_argument('unicode', metavar='Unicode Version')
    args = parser.parse_args()
    logging.basicConfig(stream=sys.stderr, level=logging.DEBUG if args.verbose else logging.INFO)
    make_idna_repertoire(args.unicode)
