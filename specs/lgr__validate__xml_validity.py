# Reference behaviour of lgr.validate.xml_validity (parsed by the checks, never executed).
from __future__ import unicode_literals
import logging
from io import BytesIO


def check_xml_validity(lgr, options):
    from lgr.parser.xml_serializer import serialize_lgr_xml
    from lgr.parser.xml_parser import XMLParser
    if 'rng_filepath' not in options:
        return (True, {})
    xml = BytesIO(serialize_lgr_xml(lgr))
    parser = XMLParser(xml)
    result = {'description': 'Testing XML validity using RNG'}
    validation_result = parser.validate_document(options['rng_filepath'])
    if validation_result is not None:
        result['validation_result'] = validation_result
    result['rng_result'] = validation_result is None
    return (validation_result is None, result)
