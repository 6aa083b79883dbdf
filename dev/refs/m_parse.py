X, Z, H, L, P3, P4, B = ['lgr/parser/%s.py' % n for n in ('xml_parser', 'xml_serializer', 'heuristic_parser', 'line_parser', 'rfc3743_parser', 'rfc4290_parser', 'parser')]
S = 'STRIP'
REFS = [
 ('x_val_order', [(X, S, [('''            error_log = schema.error_log
            if len(error_log) == 0:
                error_log = 'CANNOT VALIDATE XML'
''', '''            error_log = schema.error_log if len(schema.error_log) > 0 else 'CANNOT VALIDATE XML'
''')])]),
 ('x_val_early', [(X, S, [('''        error_log = None
        if not schema.validate(doc):
            logger.warning("Validation of document '%s' failed", self.source)
            self.rfc7940_checks.error('schema')
            error_log = schema.error_log
            if len(error_log) == 0:
                error_log = 'CANNOT VALIDATE XML'
        self.rfc7940_checks.tested('schema')
        return error_log
''', '''        valid = schema.validate(doc)
        if not valid:
            logger.warning("Validation of document '%s' failed", self.source)
            self.rfc7940_checks.error('schema')
        self.rfc7940_checks.tested('schema')
        if valid:
            return None
        return schema.error_log if schema.error_log else 'CANNOT VALIDATE XML'
''')])]),
 ('x_rewind', [(X, S, [('''        if hasattr(self.source, 'seek'):
            self.source.seek(0)
        self.rfc7940_checks.tested('parse_xml')
        return self._lgr
''', '''        self._rewind()
        self.rfc7940_checks.tested('parse_xml')
        return self._lgr

    def _rewind(self):
        if hasattr(self.source, 'seek'):
            self.source.seek(0)
'''), ('''        self._lgr = None
        if hasattr(self.source, 'seek'):
            self.source.seek(0)
        return unicode_version
''', '''        self._lgr = None
        self._rewind()
        return unicode_version
''')])]),
 ('x_meta_if', [(X, S, [('''            if tag in MAPPER:
                MAPPER[tag](child.text or '')
                if tag == UNICODE_VERSION_TAG:
                    unicode_version_tag_found = True
            elif''', '''            setter = MAPPER.get(tag)
            if setter is not None:
                setter(child.text or '')
                unicode_version_tag_found = unicode_version_tag_found or tag == UNICODE_VERSION_TAG
            elif''')])]),
 ('x_meta_chain', [(X, S, [('''        MAPPER = {DATE_TAG: lambda d: metadata.set_date(d, force=self.force), VALIDITY_START_TAG: lambda d: metadata.set_validity_start(d, force=self.force), VALIDITY_END_TAG: lambda d: metadata.set_validity_end(d, force=self.force), UNICODE_VERSION_TAG: lambda d: metadata.set_unicode_version(d, force=self.force)}
''', '''        MAPPER = {DATE_TAG: metadata.set_date, VALIDITY_START_TAG: metadata.set_validity_start, VALIDITY_END_TAG: metadata.set_validity_end, UNICODE_VERSION_TAG: metadata.set_unicode_version}
'''), ('''                MAPPER[tag](child.text or '')
''', '''                MAPPER[tag](child.text or '', force=self.force)
''')])]),
 ('x_meta_refs', [(X, S, [('''                for reference in child:
                    value = reference.text
                    ref_id = reference.get('id')
                    comment = reference.get('comment', None)
                    try:
                        reference_manager.add_reference(value, comment=comment, ref_id=ref_id)
                    except LGRException as exc:
                        logger.error("Cannot add reference '%s': %s", ref_id, exc)
                        self.rfc7940_checks.error('parse_xml')
                        if not self.force:
                            raise
                child.clear()
''', '''                self._process_references(child, reference_manager)
                child.clear()
'''), ('''    def _process_data(self, elem):
''', '''    def _process_references(self, elem, manager):
        for node in elem:
            try:
                manager.add_reference(node.text, comment=node.get('comment'), ref_id=node.get('id'))
            except LGRException as exc:
                logger.error("Cannot add reference '%s': %s", node.get('id'), exc)
                self.rfc7940_checks.error('parse_xml')
                if not self.force:
                    raise

    def _process_data(self, elem):
''')])]),
 ('x_meta_locals', [(X, S, [('''                metadata.version = Version(child.text, child.get('comment', None))
''', '''                comment = child.get('comment', None)
                metadata.version = Version(child.text, comment)
'''), ('''                metadata.scopes.append(Scope(child.text, child.get('type', None)))
''', '''                scope = Scope(child.text, child.get('type'))
                metadata.scopes.append(scope)
'''), ('''                metadata.description = Description((child.text or '').replace('\\r\\n', '\\n'), child.get('type', None))
''', '''                text = (child.text or '').replace('\\r\\n', '\\n')
                metadata.description = Description(text, child.get('type', None))
''')])]),
 ('x_meta_checks_first', [(X, S, [('''        self.rfc7940_checks.add_test_result('explicit_unicode_version', unicode_version_tag_found)
        self._lgr = LGR(name=self.filename, metadata=metadata, reference_manager=reference_manager, unicode_database=self._unicode_database, allow_invalid_property=self.allow_invalid_property)
''', '''        self._lgr = LGR(self.filename, metadata, reference_manager, unicode_database=self._unicode_database, allow_invalid_property=self.allow_invalid_property)
        self.rfc7940_checks.add_test_result('explicit_unicode_version', unicode_version_tag_found)
''')])]),
 ('x_hexes', [(X, S, [('''                codepoint = [int(c, 16) for c in child.get('cp').split()]
                if''', '''                codepoint = parse_cp(child)
                if'''), ('''                    var_codepoint = [int(c, 16) for c in variant.get('cp').split()]
''', '''                    var_codepoint = parse_cp(variant)
'''), ('''        return [int(c, 16) for c in elem.get('cp').split()]
    elif''', '''        return parse_cp(elem)
    elif'''), ('''def string_to_list(string):
''', '''def parse_cp(elem):
    return [int(c, 16) for c in elem.get('cp').split()]


def string_to_list(string):
''')])]),
 ('x_order_flip', [(X, S, [('''                if codepoint <= previous_codepoint:
                    if previous_codepoint[0:len(codepoint)] == codepoint:
                        self.rfc7940_checks.error('char_strict_ascending_order')
                    else:
                        logger.warning("cp attribute not in ascending order: '%s'", child.get('cp'))
                        self.rfc7940_checks.error('char_ascending_order')
''', '''                if not codepoint > previous_codepoint:
                    if previous_codepoint[:len(codepoint)] != codepoint:
                        logger.warning("cp attribute not in ascending order: '%s'", child.get('cp'))
                        self.rfc7940_checks.error('char_ascending_order')
                    else:
                        self.rfc7940_checks.error('char_strict_ascending_order')
''')])]),
 ('x_order_name', [(X, S, [('''                    if previous_codepoint[0:len(codepoint)] == codepoint:
                        self.rfc7940_checks.error('char_strict_ascending_order')
                    else:
                        logger.warning("cp attribute not in ascending order: '%s'", child.get('cp'))
                        self.rfc7940_checks.error('char_ascending_order')
''', '''                    is_prefix = previous_codepoint[0:len(codepoint)] == codepoint
                    if not is_prefix:
                        logger.warning("cp attribute not in ascending order: '%s'", child.get('cp'))
                    self.rfc7940_checks.error('char_strict_ascending_order' if is_prefix else 'char_ascending_order')
''')])]),
 ('x_data_helper', [(X, S, [('''                for variant in child.iter(VARIANT_TAG):
                    var_codepoint = [int(c, 16) for c in variant.get('cp').split()]
                    when = variant.get('when', None)
                    not_when = variant.get('not-when', None)
                    variant_type = variant.get('type', None)
                    comment = variant.get('comment', None)
                    ref = string_to_list(variant.get('ref', ''))
                    try:
                        self._lgr.add_variant(codepoint, var_codepoint, variant_type=variant_type, when=when, not_when=not_when, comment=comment, ref=ref, force=self.force)
                    except LGRException as exc:
                        logger.error("Cannot add variant '%s' to code point '%s': %s", format_cp(var_codepoint), format_cp(codepoint), exc)
                        self.rfc7940_checks.error('parse_xml')
                        self.rfc7940_checks.error('codepoint_valid')
                        if not self.force:
                            raise
''', '''                for variant in child.iter(VARIANT_TAG):
                    self._process_variant(codepoint, variant)
'''), ('''    def _process_rules(self, elem):
''', '''    def _process_variant(self, codepoint, variant):
        var_codepoint = [int(c, 16) for c in variant.get('cp').split()]
        try:
            self._lgr.add_variant(codepoint, var_codepoint, variant_type=variant.get('type'), when=variant.get('when'),
                                  not_when=variant.get('not-when'), comment=variant.get('comment'),
                                  ref=string_to_list(variant.get('ref', '')), force=self.force)
        except LGRException as exc:
            logger.error("Cannot add variant '%s' to code point '%s': %s", format_cp(var_codepoint), format_cp(codepoint), exc)
            self.rfc7940_checks.error('parse_xml')
            self.rfc7940_checks.error('codepoint_valid')
            if not self.force:
                raise

    def _process_rules(self, elem):
''')])]),
 ('x_data_kwargs', [(X, S, [('''            comment = child.get('comment', None)
            when = child.get('when', None)
            not_when = child.get('not-when', None)
            ref = string_to_list(child.get('ref', ''))
            tag = string_to_list(child.get('tag', ''))
            if''', '''            attributes = {'comment': child.get('comment', None), 'when': child.get('when', None), 'not_when': child.get('not-when', None), 'ref': string_to_list(child.get('ref', '')), 'tag': string_to_list(child.get('tag', ''))}
            if'''), ('''self._lgr.add_cp(codepoint, comment=comment, ref=ref, tag=tag, when=when, not_when=not_when, force=self.force)''',
 '''self._lgr.add_cp(codepoint, force=self.force, **attributes)'''), ('''self._lgr.add_range(first_cp, last_cp, comment=comment, ref=ref, tag=tag, when=when, not_when=not_when, force=self.force)''',
 '''self._lgr.add_range(first_cp, last_cp, force=self.force, **attributes)''')])]),
 ('x_data_failed', [(X, S, [('''                except LGRException as exc:
                    self.rfc7940_checks.error('parse_xml')
                    self.rfc7940_checks.error('codepoint_valid')
                    logger.error("Cannot add range''', '''                except LGRException as exc:
                    for check in ('parse_xml', 'codepoint_valid'):
                        self.rfc7940_checks.error(check)
                    logger.error("Cannot add range''')])]),
 ('x_data_range', [(X, S, [('''                first_cp = int(child.get('first-cp'), 16)
                last_cp = int(child.get('last-cp'), 16)
                try:
                    self._lgr.add_range(first_cp, last_cp,''', '''                (first_cp, last_cp) = (int(child.get(name), 16) for name in ('first-cp', 'last-cp'))
                try:
                    self._lgr.add_range(first_cp, last_cp,''')])]),
 ('x_rules_ser', [(X, S, [('''                cls = self._parse_class(child)
                self._lgr.add_class(cls, force=self.force)
                child = drop_ns(child)
                self._lgr.classes_xml.append(etree.tostring(child, encoding=text_type))
''', '''                self._lgr.add_class(self._parse_class(child), force=self.force)
                child = drop_ns(child)
                xml = etree.tostring(child, encoding=text_type)
                self._lgr.classes_xml.append(xml)
''')])]),
 ('x_rules_xmlhelper', [(X, S, [('''                child = drop_ns(child)
                self._lgr.classes_xml.append(etree.tostring(child, encoding=text_type))
''', '''                child = self._keep_xml(child, self._lgr.classes_xml)
'''), ('''                child = drop_ns(child)
                self._lgr.rules_xml.append(etree.tostring(child, encoding=text_type))
''', '''                child = self._keep_xml(child, self._lgr.rules_xml)
'''), ('''                child = drop_ns(child)
                self._lgr.actions_xml.append(etree.tostring(child, encoding=text_type))
''', '''                child = self._keep_xml(child, self._lgr.actions_xml)
'''), ('''    def _parse_rule(self, elem):
''', '''    @staticmethod
    def _keep_xml(elem, store):
        elem = drop_ns(elem)
        store.append(etree.tostring(elem, encoding=text_type))
        return elem

    def _parse_rule(self, elem):
''')])]),
 ('x_rules_or', [(X, S, [('''            if child.tag in COMBINATOR_TAGS + (CLASS_TAG,):
''', '''            if child.tag == CLASS_TAG or child.tag in COMBINATOR_TAGS:
''')])]),
 ('x_rule_inline', [(X, S, [('''        for child in elem:
            self._parse_rule_helper(child, rule)
        if self._unicode_database:
            try:
                rule.precalculate_patterns(self._lgr.rules_lookup, self._lgr.classes_lookup, self._unicode_database)
            except LGRException as exc:
                logger.error("Cannot resolve rule '%s': %s", rule, exc)
                if not self.force:
                    raise
        return rule
''', '''        for child in elem:
            self._parse_rule_helper(child, rule)
        if not self._unicode_database:
            return rule
        lgr = self._lgr
        try:
            rule.precalculate_patterns(lgr.rules_lookup, lgr.classes_lookup, self._unicode_database)
        except LGRException as exc:
            logger.error("Cannot resolve rule '%s': %s", rule, exc)
            if not self.force:
                raise
        return rule
''')])]),
 ('x_helper_nested', [(X, S, [('''            choice = ChoiceMatcher(comment=comment, count=count)
            for matcher in child:
                self._parse_rule_helper(matcher, choice)
            rule.add_child(choice)
''', '''            self._add_nested(child, ChoiceMatcher(comment=comment, count=count), rule)
'''), ('''            look_ahead = LookAheadMatcher(comment=comment)
            for matcher in child:
                self._parse_rule_helper(matcher, look_ahead)
            rule.add_child(look_ahead)
''', '''            self._add_nested(child, LookAheadMatcher(comment=comment), rule)
'''), ('''            look_behind = LookBehindMatcher(comment=comment)
            for matcher in child:
                self._parse_rule_helper(matcher, look_behind)
            rule.add_child(look_behind)
''', '''            self._add_nested(child, LookBehindMatcher(comment=comment), rule)
'''), ('''    def _parse_action(self, elem):
''', '''    def _add_nested(self, elem, matcher, rule):
        for child in elem:
            self._parse_rule_helper(child, matcher)
        rule.add_child(matcher)

    def _parse_action(self, elem):
''')])]),
 ('x_helper_matcher', [(X, S, [('''        if tag == ANCHOR_TAG:
            rule.add_child(AnchorMatcher(comment=comment))
        elif''', '''        if tag == ANCHOR_TAG:
            matcher = AnchorMatcher(comment=comment)
            rule.add_child(matcher)
        elif'''), ('''        elif tag == CLASS_TAG or tag in COMBINATOR_TAGS:
            rule.add_child(ClassMatcher(self._parse_class(child), comment=comment, count=count))
''', '''        elif tag in (CLASS_TAG,) + COMBINATOR_TAGS:
            child_class = self._parse_class(child)
            rule.add_child(ClassMatcher(child_class, comment=comment, count=count))
''')])]),
 ('x_helper_order', [(X, S, [('''        elif tag == START_TAG:
            rule.add_child(StartMatcher(comment=comment))
        elif tag == RULE_TAG:
            child_rule = self._parse_rule(child)
            rule.add_child(RuleMatcher(child_rule, comment=comment, count=count))
''', '''        elif tag == RULE_TAG:
            rule.add_child(RuleMatcher(self._parse_rule(child), comment=comment, count=count))
        elif tag == START_TAG:
            rule.add_child(StartMatcher(comment=comment))
''')])]),
 ('x_action_inline', [(X, S, [('''        disp = elem.get('disp')
        comment = elem.get('comment', None)
        match = elem.get('match', None)
        not_match = elem.get('not-match', None)
''', '''        (disp, comment, match, not_match) = (elem.get(name) for name in ('disp', 'comment', 'match', 'not-match'))
''')])]),
 ('x_action_pos', [(X, S, [('''        match = elem.get('match', None)
        not_match = elem.get('not-match', None)
''', ''), ('''match=match, not_match=not_match, any''', '''match=elem.get('match'), not_match=elem.get('not-match'), any''')])]),
 ('x_class_children', [(X, S, [('''            if len(elem) == 0 and elem.text:
                cls.add_codepoint(cp_or_sequence_from_class(elem))
            for child in elem:
                cls.add_codepoint(cp_or_sequence_from_class(child))
''', '''            if elem.text and len(elem) < 1:
                cls.add_codepoint(cp_or_sequence_from_class(elem))
            for code_point in (cp_or_sequence_from_class(child) for child in elem):
                cls.add_codepoint(code_point)
''')])]),
 ('x_class_mapping', [(X, S, [('''            MAPPING = {UNION_TAG: UnionClass, COMPLEMENT_TAG: ComplementClass, INTERSECTION_TAG: IntersectionClass, DIFFERENCE_TAG: DifferenceClass, SYM_DIFFERENCE_TAG: SymmetricDifferenceClass}
            cls = MAPPING[tag](name=name, comment=comment)
''', '''            constructor = {COMPLEMENT_TAG: ComplementClass, UNION_TAG: UnionClass, INTERSECTION_TAG: IntersectionClass, DIFFERENCE_TAG: DifferenceClass, SYM_DIFFERENCE_TAG: SymmetricDifferenceClass}[tag]
            cls = constructor(name=name, comment=comment)
''')])]),
 ('x_iter', [(X, S, [('''            if elem.tag == META_TAG:
                logger.debug("Got 'meta' element")
                self._process_meta(elem)
                metadata_added = True
            elif elem.tag == DATA_TAG:
                logger.debug("Got 'data' element")
                self._process_data(elem)
            elif elem.tag == RULES_TAG:
                logger.debug("Got 'rules' element")
                self._process_rules(elem)
            else:
                continue
            elem.clear()
''', '''            if elem.tag not in (META_TAG, DATA_TAG, RULES_TAG):
                continue
            logger.debug('Got %s element', elem.tag)
            if elem.tag == META_TAG:
                self._process_meta(elem)
                metadata_added = True
            elif elem.tag == DATA_TAG:
                self._process_data(elem)
            else:
                self._process_rules(elem)
            elem.clear()
''')])]),
 ('x_iter_flag', [(X, S, [('''        metadata_added = False
        for _, elem in context:
            if not metadata_added and elem.tag == DATA_TAG:
                self._process_meta({})
                metadata_added = True
            if''', '''        need_metadata = True
        for (_, elem) in context:
            if elem.tag == DATA_TAG and need_metadata:
                self._process_meta({})
                need_metadata = False
            if'''), ('''                self._process_meta(elem)
                metadata_added = True
''', '''                self._process_meta(elem)
                need_metadata = False
''')])]),
 ('x_cpseq', [(X, S, [('''        cp_list = []
        codepoints = elem.text.strip().split()
        for cp in codepoints:
            if '-' in cp:
                first_cp, last_cp = (int(c, 16) for c in cp.split('-'))
                cp_list.extend(range(first_cp, last_cp + 1))
            else:
                cp_list.append(int(cp, 16))
        return cp_list
''', '''        cp_list = []
        for cp in elem.text.split():
            if '-' not in cp:
                cp_list.append(int(cp, 16))
                continue
            (first_cp, last_cp) = [int(c, 16) for c in cp.split('-')]
            cp_list += range(first_cp, last_cp + 1)
        return cp_list
''')])]),
 ('x_cpseq2', [(X, S, [('''    elif elem.tag == RANGE_TAG:
        first_cp = int(elem.get('first-cp'), 16)
        last_cp = int(elem.get('last-cp'), 16)
        return range(first_cp, last_cp + 1)
    elif elem.tag == CLASS_TAG:
''', '''    if elem.tag == RANGE_TAG:
        return range(int(elem.get('first-cp'), 16), int(elem.get('last-cp'), 16) + 1)
    if elem.tag == CLASS_TAG:
''')])]),
 ('x_dropns', [(X, S, [('''    for elem in node.iter():
        elem.tag = elem.tag.replace('{{{}}}'.format(LGR_NS), '')
''', '''    prefix = '{%s}' % LGR_NS
    for elem in node.iter():
        elem.tag = elem.tag.replace(prefix, '')
''')])]),
 ('z_tree', [(Z, S, [('''    meta = etree.SubElement(root, 'meta')
    data = etree.SubElement(root, 'data')
    rules = etree.SubElement(root, 'rules')
    _serialize_meta(lgr, meta)
    _serialize_data(lgr, data)
    _serialize_rules(lgr, rules)
    return root
''', '''    _serialize_meta(lgr, etree.SubElement(root, 'meta'))
    _serialize_data(lgr, etree.SubElement(root, 'data'))
    _serialize_rules(lgr, etree.SubElement(root, 'rules'))
    return root
''')])]),
 ('z_version', [(Z, S, [('''        version_attributes = {}
        version_comment = metadata.version.comment
        if version_comment is not None:
            version_attributes['comment'] = version_comment
        version_node''', '''        version = metadata.version
        version_attributes = {'comment': version.comment} if version.comment is not None else {}
        version_node''')])]),
 ('z_dates', [(Z, S, [('''        value = getattr(metadata, elem, None)
        if value is not None:
            node = etree.SubElement(meta, elem.replace('_', '-'))
            node.text = '{}'.format(value)
''', '''        value = getattr(metadata, elem, None)
        if value is None:
            continue
        etree.SubElement(meta, elem.replace('_', '-')).text = str(value)
''')])]),
 ('z_scope', [(Z, S, [('''        scope_attributes = {}
        scope_type = scope.scope_type
        if scope_type is not None:
            scope_attributes['type'] = scope_type
        etree.SubElement(meta, 'scope', scope_attributes).text = scope.value
''', '''        attributes = {}
        if scope.scope_type is not None:
            attributes = {'type': scope.scope_type}
        node = etree.SubElement(meta, 'scope', attributes)
        node.text = scope.value
''')])]),
 ('z_desc', [(Z, S, [('''    if metadata.description is not None:
        node = etree.SubElement(meta, 'description')
        if metadata.description.description_type is not None:
            node.attrib['type'] = metadata.description.description_type
        content = metadata.description.value
        if metadata.description.description_type not in [None, 'text/plain']:
            content = etree.CDATA(content)
        node.text = content
''', '''    description = metadata.description
    if description is not None:
        node = etree.SubElement(meta, 'description')
        description_type = description.description_type
        if description_type is not None:
            node.attrib['type'] = description_type
        if description_type is None or description_type == 'text/plain':
            node.text = description.value
        else:
            node.text = etree.CDATA(description.value)
''')])]),
 ('z_refs', [(Z, S, [('''    if len(references) > 0:
        references_node = etree.SubElement(meta, 'references')
        for ref_id in references:
            ref = references[ref_id]
            ref_attributes = {'id': str(ref_id)}
            if len(ref.get('comment', '')) > 0:
                ref_attributes['comment'] = ref['comment']
            node = etree.SubElement(references_node, 'reference', ref_attributes)
            node.text = ref['value']
''', '''    if len(references) == 0:
        return
    references_node = etree.SubElement(meta, 'references')
    for ref_id in references:
        ref = references[ref_id]
        ref_attributes = {'id': str(ref_id)}
        if ref.get('comment', ''):
            ref_attributes['comment'] = ref['comment']
        etree.SubElement(references_node, 'reference', ref_attributes).text = ref['value']
''')])]),
 ('z_common', [(Z, S, [('''        attributes = {}
        if char.comment is not None:
            attributes['comment'] = char.comment
        if char.when is not None:
            attributes['when'] = char.when
        if char.not_when is not None:
            attributes['not-when'] = char.not_when
        if len(char.references) > 0:
            attributes['ref'] = ' '.join((str(r) for r in char.references))
        if len(char.tags) > 0:
''', '''        attributes = _common_attributes(char)
        if len(char.tags) > 0:
'''), ('''            variant_attributes = {}
            if variant.type is not None:
                variant_attributes['type'] = variant.type
            if variant.when is not None:
                variant_attributes['when'] = variant.when
            if variant.not_when is not None:
                variant_attributes['not-when'] = variant.not_when
            if variant.comment is not None:
                variant_attributes['comment'] = variant.comment
            if len(variant.references) > 0:
                variant_attributes['ref'] = ' '.join((str(r) for r in variant.references))
''', '''            variant_attributes = _common_attributes(variant)
            if variant.type is not None:
                variant_attributes['type'] = variant.type
'''), ('''def _serialize_rules(lgr, rules):
''', '''def _common_attributes(item):
    attributes = {}
    if item.comment is not None:
        attributes['comment'] = item.comment
    if item.when is not None:
        attributes['when'] = item.when
    if item.not_when is not None:
        attributes['not-when'] = item.not_when
    if len(item.references) > 0:
        attributes['ref'] = ' '.join((str(r) for r in item.references))
    return attributes


def _serialize_rules(lgr, rules):
''')])]),
 ('z_tag', [(Z, S, [('''            tag = 'range'
            attributes['first-cp'] = cp_to_str(char.first_cp)
            attributes['last-cp'] = cp_to_str(char.last_cp)
''', '''            tag = 'range'
            attributes.update({'first-cp': cp_to_str(char.first_cp), 'last-cp': cp_to_str(char.last_cp)})
'''), ('''        elif isinstance(char, Char) or isinstance(char, CharSequence):
''', '''        elif isinstance(char, (Char, CharSequence)):
'''), ('''        if len(char.tags) > 0:
            attributes''', '''        if char.tags:
            attributes''')])]),
 ('z_attrloop', [(Z, S, [('''            if variant.type is not None:
                variant_attributes['type'] = variant.type
            if variant.when is not None:
                variant_attributes['when'] = variant.when
            if variant.not_when is not None:
                variant_attributes['not-when'] = variant.not_when
            if variant.comment is not None:
                variant_attributes['comment'] = variant.comment
''', '''            for name in ('type', 'when', 'not_when', 'comment'):
                value = getattr(variant, name)
                if value is not None:
                    variant_attributes[name.replace('_', '-')] = value
''')])]),
 ('z_rules', [(Z, S, [('''    for cls in lgr.classes_xml:
        rules.append(etree.fromstring(cls))
    for rule in lgr.rules_xml:
        rules.append(etree.fromstring(rule))
    for action in lgr.actions_xml:
        rules.append(etree.fromstring(action))
''', '''    for xml in (lgr.classes_xml, lgr.rules_xml, lgr.actions_xml):
        for element in xml:
            rules.append(etree.fromstring(element))
''')])]),
 ('z_rules2', [(Z, S, [('''    for cls in lgr.classes_xml:
        rules.append(etree.fromstring(cls))
''', '''    rules.extend([etree.fromstring(cls) for cls in lgr.classes_xml])
''')])]),
 ('h_find', [(H, S, [('''        is_str = True
        if not isinstance(first_line, str):
            is_str = False
            first_line = first_line.decode('utf-8')
''', '''        is_str = isinstance(first_line, str)
        if not is_str:
            first_line = first_line.decode('utf-8')
''')])]),
 ('h_find2', [(H, S, [('''        if self.lgr_parser:
            return
        first_line''', '''        if self.lgr_parser is not None:
            return
        first_line''')])]),
 ('h_check', [(H, S, [('''        for line in [ll for l in rule_file for ll in l.splitlines()]:
            if not is_str:
                line = line.decode('utf-8')
            line = line.split('#')[0].strip()
            if RFC3743_REGEX.match(line) and (not RFC4290_REGEX.match(line)):
                self.lgr_parser = RFC3743Parser(get_source(), **self.kwargs)
                break
            elif RFC4290_REGEX.match(line.strip()):
                match = True
                if ';' in line:
                    self.lgr_parser = RFC3743Parser(get_source(), **self.kwargs)
                    break
                elif '|' in line:
                    self.lgr_parser = RFC4290Parser(get_source(), **self.kwargs)
                    break
''', '''        for line in [ll for l in rule_file for ll in l.splitlines()]:
            if not is_str:
                line = line.decode('utf-8')
            line = line.split('#')[0].strip()
            if RFC4290_REGEX.match(line.strip()):
                match = True
                if ';' in line:
                    self.lgr_parser = RFC3743Parser(get_source(), **self.kwargs)
                    break
                if '|' in line:
                    self.lgr_parser = RFC4290Parser(get_source(), **self.kwargs)
                    break
            elif RFC3743_REGEX.match(line):
                self.lgr_parser = RFC3743Parser(get_source(), **self.kwargs)
                break
''')])]),
 ('h_check2', [(H, S, [('''        if not self.lgr_parser and match:
            self.lgr_parser = RFC4290Parser(get_source(), **self.kwargs)
''', '''        if match and not self.lgr_parser:
            source = get_source()
            self.lgr_parser = RFC4290Parser(source, **self.kwargs)
''')])]),
 ('h_islgr', [(H, S, [('''        return '<?xml' in first_line or '<lgr' in first_line or str(self.filename).endswith('.xml')
''', '''        if any(marker in first_line for marker in ('<?xml', '<lgr')):
            return True
        return str(self.filename).endswith('.xml')
''')])]),
 ('h_doc', [(H, S, [('''        self._find_parser(rule_file)
        self.lgr_parser.unicode_database = self._unicode_database
        self._lgr = self.lgr_parser.parse_document()
''', '''        self._find_parser(rule_file)
        parser = self.lgr_parser
        parser.unicode_database = self._unicode_database
        self._lgr = parser.parse_document()
''')])]),
 ('l_enum', [(L, S, [('''        line_num = 0
        for line in rule_file:
            line_num += 1
            line = line.strip()
            if len(line) == 0:
                continue
            if line[0] == '#':
                continue
''', '''        for (line_num, line) in enumerate(rule_file, 1):
            line = line.strip()
            if not line or line.startswith('#'):
                continue
''')])]),
 ('l_skip', [(L, S, [('''            if len(line) == 0:
                continue
            if line[0] == '#':
                continue
''', '''            if len(line) == 0 or line[0] == '#':
                continue
''')])]),
 ('p3_enum', [(P3, S, [('''        line_num = 0
        for line in rule_file:
            line_num += 1
            line = line.strip()
            if len(line) == 0:
                continue
            if line[0] == '#':
                continue
''', '''        for (line_num, line) in enumerate(rule_file, start=1):
            line = line.strip()
            if line == '' or line[0] == '#':
                continue
''')])]),
 ('p3_groups', [(P3, S, [('''                ref_id = reference.group('ref_id')
                value = reference.group('value')
                comment = reference.group('comment')
                try:
                    self._lgr.add_reference(value, ref_id=ref_id, comment=comment)
''', '''                try:
                    self._lgr.add_reference(reference.group('value'), ref_id=reference.group('ref_id'), comment=reference.group('comment'))
''')])]),
 ('p3_refhelper', [(P3, S, [('''            if reference is not None:
                ref_id = reference.group('ref_id')
                value = reference.group('value')
                comment = reference.group('comment')
                try:
                    self._lgr.add_reference(value, ref_id=ref_id, comment=comment)
                except LGRException:
                    logger.error("Invalid reference '%s' on line %d", line, line_num)
                continue
''', '''            if reference is not None:
                self._add_reference(reference, line, line_num)
                continue
'''), ('''    def insert_variant(''', '''    def _add_reference(self, match, line, line_num):
        try:
            self._lgr.add_reference(match.group('value'), ref_id=match.group('ref_id'), comment=match.group('comment'))
        except LGRException:
            logger.error("Invalid reference '%s' on line %d", line, line_num)

    def insert_variant(''')])]),
 ('p3_variants', [(P3, S, [('''            if len(char_variant) > 1:
                preferred_variants = char_variant[1].strip()
                if len(preferred_variants) > 0 and preferred_variants[0] != '#':
                    var_type = 'activated'
                    self.insert_variant(line_num, codepoints, preferred_variants, var_type)
''', '''            if len(char_variant) >= 2:
                preferred_variants = char_variant[1].strip()
                if preferred_variants and preferred_variants[0] != '#':
                    self.insert_variant(line_num, codepoints, preferred_variants, 'activated')
''')])]),
 ('p3_refs', [(P3, S, [('''        references = match.group('references')
        ref_list = []
        if references is not None:
            ref_list = references.split(',')
        codepoints.append((cp_or_sequence, ref_list))
''', '''        references = match.group('references')
        codepoints.append((cp_or_sequence, references.split(',') if references is not None else []))
''')])]),
 ('p3_yield', [(P3, S, [('''    codepoints = []
    for match in UNICODE_CODEPOINT_RE.finditer(char):
        cp_or_sequence = [int(cp.replace('U+', ''), 16) for cp in match.group('sequence').split()]
        references = match.group('references')
        ref_list = []
        if references is not None:
            ref_list = references.split(',')
        codepoints.append((cp_or_sequence, ref_list))
    return codepoints
''', '''    return [_parse_match(match) for match in UNICODE_CODEPOINT_RE.finditer(char)]

def _parse_match(match):
    cp_or_sequence = [int(cp.replace('U+', ''), 16) for cp in match.group('sequence').split()]
    references = match.group('references')
    return (cp_or_sequence, references.split(',') if references is not None else [])
''')])]),
 ('p4_vars', [(P4, S, [('''            if len(char_variant) > 1:
                variants = char_variant[1].split(':')
                for var in variants:
                    try:
''', '''            if len(char_variant) > 1:
                for var in char_variant[1].split(':'):
                    try:
''')])]),
 ('p4_continue', [(P4, S, [('''            if len(char_variant) > 1:
                variants = char_variant[1].split(':')
                for var in variants:
                    try:
                        var_codepoints = parse_char(var)
                        self._lgr.add_variant(codepoints, var_codepoints, force=self.force)
                    except ValueError:
                        logger.error("Invalid variant '%s' at line %d", var, line_num)
                    except LGRException as exc:
                        logger.error("Cannot add variant '%s' to code point '%s' at line %d: %s", format_cp(var_codepoints), format_cp(codepoints), line_num, exc)
''', '''            if len(char_variant) < 2:
                continue
            for var in char_variant[1].split(':'):
                try:
                    var_codepoints = parse_char(var)
                    self._lgr.add_variant(codepoints, var_codepoints, force=self.force)
                except ValueError:
                    logger.error("Invalid variant '%s' at line %d", var, line_num)
                except LGRException as exc:
                    logger.error("Cannot add variant '%s' to code point '%s' at line %d: %s", format_cp(var_codepoints), format_cp(codepoints), line_num, exc)
''')])]),
 ('p4_parse', [(P4, S, [('''    codepoints = []
    chars = char.split('-')
    for c in chars:
        codepoint_re = UNICODE_CODEPOINT_RE.match(c)
        if codepoint_re is not None:
            codepoints.append(int(codepoint_re.group(1), 16))
        else:
            raise ValueError(c)
    return codepoints
''', '''    codepoints = []
    for c in char.split('-'):
        match = UNICODE_CODEPOINT_RE.match(c)
        if not match:
            raise ValueError(c)
        codepoints.append(int(match.group(1), 16))
    return codepoints
''')])]),
 ('b_filename', [(B, S, [('''        if not filename and isinstance(self.source, str):
            self.filename = Path(self.source).name
        elif not filename and isinstance(self.source, Path):
            self.filename = self.source.name
        else:
            self.filename = filename
''', '''        if filename:
            self.filename = filename
        elif isinstance(source, str):
            self.filename = Path(source).name
        elif isinstance(source, Path):
            self.filename = source.name
        else:
            self.filename = filename
''')])]),
 ('b_parse', [(B, S, [('''        if hasattr(self.source, 'read'):
            self._parse_doc(self.source)
        else:
            with io.open(self.source, 'r', encoding='utf-8') as rule_file:
                self._parse_doc(rule_file)
        return self._lgr
''', '''        if not hasattr(self.source, 'read'):
            with io.open(self.source, 'r', encoding='utf-8') as rule_file:
                self._parse_doc(rule_file)
            return self._lgr
        self._parse_doc(self.source)
        return self._lgr
''')])]),
]
