# Reference behaviour of lgr.parser.xml_parser (parsed by the checks, never executed).
import logging
from lxml import etree
from lgr import text_type
from lgr.core import LGR
from lgr.metadata import Metadata, ReferenceManager, Scope, Description, Version
from lgr.rule import Rule
from lgr.action import Action
from lgr.matcher import AnchorMatcher, AnyMatcher, CharMatcher, ChoiceMatcher, ClassMatcher, EndMatcher, LookAheadMatcher, LookBehindMatcher, RuleMatcher, StartMatcher
from lgr.classes import Class, ComplementClass, UnionClass, IntersectionClass, DifferenceClass, SymmetricDifferenceClass
from lgr.exceptions import LGRException
from lgr.rfc7940 import LGRFormatTestResults
from lgr.utils import format_cp
from lgr.parser.parser import LGRParser
LGR_NS = 'urn:ietf:params:xml:ns:lgr-1.0'
META_TAG = '{%s}meta' % LGR_NS
VERSION_TAG = '{%s}version' % LGR_NS
DATE_TAG = '{%s}date' % LGR_NS
LANGUAGE_TAG = '{%s}language' % LGR_NS
SCOPE_TAG = '{%s}scope' % LGR_NS
VALIDITY_START_TAG = '{%s}validity-start' % LGR_NS
VALIDITY_END_TAG = '{%s}validity-end' % LGR_NS
UNICODE_VERSION_TAG = '{%s}unicode-version' % LGR_NS
DESCRIPTION_TAG = '{%s}description' % LGR_NS
REFERENCES_TAG = '{%s}references' % LGR_NS
DATA_TAG = '{%s}data' % LGR_NS
CHAR_TAG = '{%s}char' % LGR_NS
RANGE_TAG = '{%s}range' % LGR_NS
VARIANT_TAG = '{%s}var' % LGR_NS
RULES_TAG = '{%s}rules' % LGR_NS
RULE_TAG = '{%s}rule' % LGR_NS
ACTION_TAG = '{%s}action' % LGR_NS
CLASS_TAG = '{%s}class' % LGR_NS
ANCHOR_TAG = '{%s}anchor' % LGR_NS
ANY_TAG = '{%s}any' % LGR_NS
CHOICE_TAG = '{%s}choice' % LGR_NS
END_TAG = '{%s}end' % LGR_NS
LOOKAHEAD_TAG = '{%s}look-ahead' % LGR_NS
LOOKBEHIND_TAG = '{%s}look-behind' % LGR_NS
START_TAG = '{%s}start' % LGR_NS
COMPLEMENT_TAG = '{%s}complement' % LGR_NS
UNION_TAG = '{%s}union' % LGR_NS
INTERSECTION_TAG = '{%s}intersection' % LGR_NS
DIFFERENCE_TAG = '{%s}difference' % LGR_NS
SYM_DIFFERENCE_TAG = '{%s}symmetric-difference' % LGR_NS
COMBINATOR_TAGS = (COMPLEMENT_TAG, UNION_TAG, INTERSECTION_TAG, DIFFERENCE_TAG, SYM_DIFFERENCE_TAG)


class XMLParser(LGRParser):
    PARSER_OPTIONS = {'resolve_entities': False, 'strip_cdata': False, 'remove_comments': True}

    def __init__(self, *args, **kwargs):
        super(XMLParser, self).__init__(*args, **kwargs)
        self.rfc7940_checks = LGRFormatTestResults()

    def validate_document(self, rng_schema_path):
        schema = etree.RelaxNG(file=rng_schema_path)
        parser = etree.XMLParser(**self.PARSER_OPTIONS)
        doc = etree.parse(self.source, parser=parser)
        error_log = None
        if not schema.validate(doc):
            self.rfc7940_checks.error('schema')
            error_log = schema.error_log
            if len(error_log) == 0:
                error_log = 'CANNOT VALIDATE XML'
        self.rfc7940_checks.tested('schema')
        return error_log

    def unicode_version(self):
        context = etree.iterparse(self.source, tag=META_TAG, **self.PARSER_OPTIONS)
        self._fast_iter(context)
        if self._lgr is None:
            self._process_meta({})
        unicode_version = self._lgr.metadata.unicode_version
        self._lgr = None
        if hasattr(self.source, 'seek'):
            self.source.seek(0)
        return unicode_version

    def parse_document(self):
        context = etree.iterparse(self.source, **self.PARSER_OPTIONS)
        self._fast_iter(context)
        if hasattr(self.source, 'seek'):
            self.source.seek(0)
        self.rfc7940_checks.tested('parse_xml')
        return self._lgr

    def _process_meta(self, elem):
        metadata = Metadata(self.rfc7940_checks)
        reference_manager = ReferenceManager()
        MAPPER = {DATE_TAG: lambda d: metadata.set_date(d, force=self.force), VALIDITY_START_TAG: lambda d: metadata.set_validity_start(d, force=self.force), VALIDITY_END_TAG: lambda d: metadata.set_validity_end(d, force=self.force), UNICODE_VERSION_TAG: lambda d: metadata.set_unicode_version(d, force=self.force)}
        unicode_version_tag_found = False
        for child in elem:
            tag = child.tag
            if tag in MAPPER:
                MAPPER[tag](child.text or '')
                if tag == UNICODE_VERSION_TAG:
                    unicode_version_tag_found = True
            elif tag == VERSION_TAG:
                metadata.version = Version(child.text, child.get('comment', None))
            elif tag == LANGUAGE_TAG:
                metadata.add_language(child.text, force=self.force)
            elif tag == SCOPE_TAG:
                metadata.scopes.append(Scope(child.text, child.get('type', None)))
            elif tag == DESCRIPTION_TAG:
                metadata.description = Description((child.text or '').replace('\r\n', '\n'), child.get('type', None))
            elif tag == REFERENCES_TAG:
                for reference in child:
                    value = reference.text
                    ref_id = reference.get('id')
                    comment = reference.get('comment', None)
                    try:
                        reference_manager.add_reference(value, comment=comment, ref_id=ref_id)
                    except LGRException as exc:
                        self.rfc7940_checks.error('parse_xml')
                        if not self.force:
                            raise
                child.clear()
            else:
                self.rfc7940_checks.error('parse_xml')
            child.clear()
        self.rfc7940_checks.add_test_result('explicit_unicode_version', unicode_version_tag_found)
        self._lgr = LGR(name=self.filename, metadata=metadata, reference_manager=reference_manager, unicode_database=self._unicode_database, allow_invalid_property=self.allow_invalid_property)

    def _process_data(self, elem):
        previous_codepoint = []
        for child in elem:
            comment = child.get('comment', None)
            when = child.get('when', None)
            not_when = child.get('not-when', None)
            ref = string_to_list(child.get('ref', ''))
            tag = string_to_list(child.get('tag', ''))
            if child.tag == CHAR_TAG:
                codepoint = [int(c, 16) for c in child.get('cp').split()]
                if codepoint <= previous_codepoint:
                    if previous_codepoint[0:len(codepoint)] == codepoint:
                        self.rfc7940_checks.error('char_strict_ascending_order')
                    else:
                        self.rfc7940_checks.error('char_ascending_order')
                previous_codepoint = codepoint
                try:
                    self._lgr.add_cp(codepoint, comment=comment, ref=ref, tag=tag, when=when, not_when=not_when, force=self.force)
                except LGRException as exc:
                    self.rfc7940_checks.error('parse_xml')
                    self.rfc7940_checks.error('codepoint_valid')
                    if not self.force:
                        raise
                for variant in child.iter(VARIANT_TAG):
                    var_codepoint = [int(c, 16) for c in variant.get('cp').split()]
                    when = variant.get('when', None)
                    not_when = variant.get('not-when', None)
                    variant_type = variant.get('type', None)
                    comment = variant.get('comment', None)
                    ref = string_to_list(variant.get('ref', ''))
                    try:
                        self._lgr.add_variant(codepoint, var_codepoint, variant_type=variant_type, when=when, not_when=not_when, comment=comment, ref=ref, force=self.force)
                    except LGRException as exc:
                        self.rfc7940_checks.error('parse_xml')
                        self.rfc7940_checks.error('codepoint_valid')
                        if not self.force:
                            raise
            elif child.tag == RANGE_TAG:
                first_cp = int(child.get('first-cp'), 16)
                last_cp = int(child.get('last-cp'), 16)
                try:
                    self._lgr.add_range(first_cp, last_cp, comment=comment, ref=ref, tag=tag, when=when, not_when=not_when, force=self.force)
                except LGRException as exc:
                    self.rfc7940_checks.error('parse_xml')
                    self.rfc7940_checks.error('codepoint_valid')
                    if not self.force:
                        raise
            child.clear()
        self.rfc7940_checks.tested('char_ascending_order')
        self.rfc7940_checks.tested('char_strict_ascending_order')

    def _process_rules(self, elem):
        for child in elem:
            if child.tag in COMBINATOR_TAGS + (CLASS_TAG,):
                cls = self._parse_class(child)
                self._lgr.add_class(cls, force=self.force)
                child = drop_ns(child)
                self._lgr.classes_xml.append(etree.tostring(child, encoding=text_type))
            elif child.tag == RULE_TAG:
                rule = self._parse_rule(child)
                self._lgr.add_rule(rule, force=self.force)
                child = drop_ns(child)
                self._lgr.rules_xml.append(etree.tostring(child, encoding=text_type))
            elif child.tag == ACTION_TAG:
                action = self._parse_action(child)
                self._lgr.add_action(action, force=self.force)
                child = drop_ns(child)
                self._lgr.actions_xml.append(etree.tostring(child, encoding=text_type))
            else:
                self.rfc7940_checks.error('parse_xml')
            child.clear()

    def _parse_rule(self, elem):
        rule = Rule(name=elem.get('name', None), comment=elem.get('comment', None), ref=string_to_list(elem.get('ref', '')), by_ref=elem.get('by-ref', None))
        for child in elem:
            self._parse_rule_helper(child, rule)
        if self._unicode_database:
            try:
                rule.precalculate_patterns(self._lgr.rules_lookup, self._lgr.classes_lookup, self._unicode_database)
            except LGRException as exc:
                if not self.force:
                    raise
        return rule

    def _parse_rule_helper(self, child, rule):
        tag = child.tag
        comment = child.get('comment', None)
        count = child.get('count', None)
        if tag == ANCHOR_TAG:
            rule.add_child(AnchorMatcher(comment=comment))
        elif tag == ANY_TAG:
            rule.add_child(AnyMatcher(comment=comment, count=count))
        elif tag == CHAR_TAG:
            rule.add_child(CharMatcher(cp_or_sequence_from_class(child), comment=comment, count=count))
        elif tag == CHOICE_TAG:
            choice = ChoiceMatcher(comment=comment, count=count)
            for matcher in child:
                self._parse_rule_helper(matcher, choice)
            rule.add_child(choice)
        elif tag == END_TAG:
            rule.add_child(EndMatcher(comment=comment))
        elif tag == LOOKAHEAD_TAG:
            look_ahead = LookAheadMatcher(comment=comment)
            for matcher in child:
                self._parse_rule_helper(matcher, look_ahead)
            rule.add_child(look_ahead)
        elif tag == LOOKBEHIND_TAG:
            look_behind = LookBehindMatcher(comment=comment)
            for matcher in child:
                self._parse_rule_helper(matcher, look_behind)
            rule.add_child(look_behind)
        elif tag == START_TAG:
            rule.add_child(StartMatcher(comment=comment))
        elif tag == RULE_TAG:
            child_rule = self._parse_rule(child)
            rule.add_child(RuleMatcher(child_rule, comment=comment, count=count))
        elif tag == CLASS_TAG or tag in COMBINATOR_TAGS:
            rule.add_child(ClassMatcher(self._parse_class(child), comment=comment, count=count))
        else:
            self.rfc7940_checks.error('parse_xml')

    def _parse_action(self, elem):
        disp = elem.get('disp')
        comment = elem.get('comment', None)
        match = elem.get('match', None)
        not_match = elem.get('not-match', None)
        any_variant = string_to_list(elem.get('any-variant', ''))
        all_variants = string_to_list(elem.get('all-variants', ''))
        only_variants = string_to_list(elem.get('only-variants', ''))
        return Action(disp, comment=comment, ref=string_to_list(elem.get('ref', '')), match=match, not_match=not_match, any_variant=any_variant, all_variants=all_variants, only_variants=only_variants)

    def _parse_class(self, elem):
        tag = elem.tag
        name = elem.get('name', None)
        comment = elem.get('comment', None)
        if tag == CLASS_TAG:
            cls = Class(name=name, comment=comment, ref=string_to_list(elem.get('ref', '')), from_tag=elem.get('from-tag', None), unicode_property=elem.get('property', None), by_ref=elem.get('by-ref', None))
            if len(elem) == 0 and elem.text:
                cls.add_codepoint(cp_or_sequence_from_class(elem))
            for child in elem:
                cls.add_codepoint(cp_or_sequence_from_class(child))
        elif tag in COMBINATOR_TAGS:
            MAPPING = {UNION_TAG: UnionClass, COMPLEMENT_TAG: ComplementClass, INTERSECTION_TAG: IntersectionClass, DIFFERENCE_TAG: DifferenceClass, SYM_DIFFERENCE_TAG: SymmetricDifferenceClass}
            cls = MAPPING[tag](name=name, comment=comment)
            for child in elem:
                cls.add_child(self._parse_class(child))
        else:
            self.rfc7940_checks.error('parse_xml')
        return cls

    def _fast_iter(self, context):
        metadata_added = False
        for _, elem in context:
            if not metadata_added and elem.tag == DATA_TAG:
                self._process_meta({})
                metadata_added = True
            if elem.tag == META_TAG:
                self._process_meta(elem)
                metadata_added = True
            elif elem.tag == DATA_TAG:
                self._process_data(elem)
            elif elem.tag == RULES_TAG:
                self._process_rules(elem)
            else:
                continue
            elem.clear()
        del context


def cp_or_sequence_from_class(elem):
    if elem.tag == CHAR_TAG:
        return [int(c, 16) for c in elem.get('cp').split()]
    elif elem.tag == RANGE_TAG:
        first_cp = int(elem.get('first-cp'), 16)
        last_cp = int(elem.get('last-cp'), 16)
        return range(first_cp, last_cp + 1)
    elif elem.tag == CLASS_TAG:
        cp_list = []
        codepoints = elem.text.strip().split()
        for cp in codepoints:
            if '-' in cp:
                first_cp, last_cp = (int(c, 16) for c in cp.split('-'))
                cp_list.extend(range(first_cp, last_cp + 1))
            else:
                cp_list.append(int(cp, 16))
        return cp_list


def string_to_list(string):
    return string.split()


def drop_ns(node):
    for elem in node.iter():
        elem.tag = elem.tag.replace('{{{}}}'.format(LGR_NS), '')
    new_node = etree.Element(node.tag, node.attrib)
    new_node.text = node.text
    new_node[:] = node[:]
    node.clear()
    return new_node
