LV = 'tools/lgr_validate.py'
LC = 'tools/lgr_collision.py'
XS = 'lgr/parser/xml_serializer.py'
def r(name, f, *pairs):
    return (name, [(f, None, list(pairs))])
REFS = [
 r('lv_script', LV, ('''    script_lgr = None
    for lgr_s in lgr_set:
        try:
            if lgr_s.metadata.languages[0] == script:
                if script_lgr:
''', '''    script_lgr = None
    for lgr_s in lgr_set:
        try:
            language = lgr_s.metadata.languages[0]
            if language == script:
                if script_lgr is not None:
''')),
 r('lv_tuple', LV, ('''    label_cp = tuple([ord(c) for c in label])
''', '''    label_cp = tuple(map(ord, label))
''')),
 r('lv_tuple2', LV, ('''    label_cp = tuple([ord(c) for c in label])
''', '''    label_cp = tuple(ord(c) for c in label)
''')),
 r('lv_return', LV, ('''    if eligible:
        if merged_lgr and set_labels:
            write_output("Collisions:")
            if label in set_labels:
                write_output("Labels is in the LGR set labels")
            else:
                indexes''', '''    if eligible:
        if merged_lgr and set_labels:
            write_output("Collisions:")
            known = label in set_labels
            if known:
                write_output("Labels is in the LGR set labels")
            else:
                indexes''')),
 r('lv_first', LV, ('''                    collisions = indexes[list(indexes.keys())[0]]
''', '''                    collisions = next(iter(indexes.values()))
''')),
 r('lv_first2', LV, ('''                    collisions = indexes[list(indexes.keys())[0]]
''', '''                    collisions = list(indexes.values())[0]
''')),
 r('lv_coll', LV, ('''                    collision = None
                    collide_with = []
                    # retrieve label in collision list
                    for col in collisions:
                        if col['label'] == label:
                            collision = col
                        if col['label'] in set_labels:
                            collide_with.append(col)

                    if not collision:
''', '''                    # retrieve label in collision list
                    collision = any(col['label'] == label for col in collisions)
                    collide_with = [col for col in collisions if col['label'] in set_labels]

                    if not collision:
''')),
 r('lv_len', LV, ('''                if len(indexes) > 1:
                    # there''', '''                nbr_collisions = len(indexes)
                if nbr_collisions > 1:
                    # there'''), ('''                elif len(indexes) > 0:
''', '''                elif nbr_collisions == 1:
''')),
 r('lv_variants', LV, ('''        if generate_variants:
            write_output("Variants:")
            summary, labels = lgr.compute_label_disposition_summary(label_cp)
            for (variant_cp, var_disp, _, _, _, _) in labels:
                variant_u = cp_to_ulabel(variant_cp)
                write_output("\\tVariant %s [%s]" % (variant_u, format_cp(variant_cp)))
                write_output("\\t- Disposition: '%s'" % var_disp)
''', '''        if generate_variants:
            write_variants(lgr, label_cp)
'''), ('''def check_label(''', '''def write_variants(lgr, label_cp):
    from lgr.utils import format_cp
    write_output("Variants:")
    _, labels = lgr.compute_label_disposition_summary(label_cp)
    for (variant_cp, var_disp, _, _, _, _) in labels:
        write_output("\\tVariant %s [%s]" % (cp_to_ulabel(variant_cp), format_cp(variant_cp)))
        write_output("\\t- Disposition: '%s'" % var_disp)


def check_label(''')),
 r('lv_fmt', LV, ('''                ' '.join("{:04X} ({})".format(cp, "not in repertoire" if rules is None else ','.join(rules))
                         for cp, rules in label_invalid_parts)))
''', '''                ' '.join(f"{cp:04X} ({'not in repertoire' if rules is None else ','.join(rules)})"
                         for cp, rules in label_invalid_parts)))
''')),
 r('lv_not', LV, ('''    if eligible:
        if merged_lgr and set_labels:
''', '''    if eligible:
        if set_labels and merged_lgr:
''')),
 r('lc_set', LC, ('''    var_ref = [var for (var, _, _, _) in lgr._generate_label_variants(label_ref)]
''', '''    var_ref = set()
    for (var, _, _, _) in lgr._generate_label_variants(label_ref):
        var_ref.add(var)
''')),
 r('lc_cont', LC, ('''        if variant_cp in var_ref:
            variant_u = cp_to_ulabel(variant_cp)
            write_output("Variant '%s' [%s] with disposition set '%s' "
                         "should be blocked (current disposition :%s)" % (
                         variant_u, format_cp(variant_cp), disp_set, disp))
''', '''        if variant_cp not in var_ref:
            continue
        write_output("Variant '{}' [{}] with disposition set '{}' should be blocked (current disposition :{})".format(
            cp_to_ulabel(variant_cp), format_cp(variant_cp), disp_set, disp))
''')),
 r('lc_helper', LC, ('''    ref_label_indexes = {}

    # Compute index label for set or reference labels
    with io.open(args.set, 'r', encoding='utf-8') as ref_set:
        for ref_label in ref_set:
            label_cp = tuple([ord(c) for c in ref_label.strip()])
            try:
                label_index = compute_label_index(lgr, label_cp)
            except NotInLGR:
                continue
            ref_label_indexes[label_index] = label_cp
''', '''    # Compute index label for set or reference labels
    ref_label_indexes = read_reference_labels(lgr, args.set)
'''), ('''def main():
''', '''def read_reference_labels(lgr, path):
    indexes = {}
    with io.open(path, 'r', encoding='utf-8') as ref_set:
        for ref_label in ref_set:
            label_cp = tuple([ord(c) for c in ref_label.strip()])
            try:
                indexes[compute_label_index(lgr, label_cp)] = label_cp
            except NotInLGR:
                continue
    return indexes


def main():
''')),
 r('lc_else', LC, ('''            try:
                label_index = compute_label_index(lgr, label_cp)
            except NotInLGR:
                continue
            ref_label_indexes[label_index] = label_cp
''', '''            try:
                label_index = compute_label_index(lgr, label_cp)
            except NotInLGR:
                pass
            else:
                ref_label_indexes[label_index] = label_cp
''')),
 r('lc_get', LC, ('''        if label_index in ref_label_indexes:
            ref_label_cp = ref_label_indexes[label_index]
            ref_label_disp''', '''        ref_label_cp = ref_label_indexes.get(label_index)
        if ref_label_cp is not None:
            ref_label_disp''')),
 r('lc_first', LC, ('''        if label_index in ref_label_indexes:
            ref_label_cp = ref_label_indexes[label_index]
            ref_label_disp''', '''        if label_index not in ref_label_indexes:
            write_output("No collision for label %s [%s]" % (label, label_disp))
            continue
        else:
            ref_label_cp = ref_label_indexes[label_index]
            ref_label_disp'''), ('''                find_variants_to_block(lgr, ref_label_cp, label_cp)
        else:
            write_output("No collision for label %s [%s]" % (label, label_disp))
''', '''                find_variants_to_block(lgr, ref_label_cp, label_cp)
''')),
 r('lc_open', LC, ('''    with io.open(args.set, 'r', encoding='utf-8') as ref_set:
''', '''    with open(args.set, encoding='utf-8') as ref_set:
''')),
 r('xs_ver', XS, ('''    if metadata.version is not None:
        version_attributes = {}
        version_comment = metadata.version.comment
        if version_comment is not None:
            version_attributes['comment'] = version_comment
        version_node = etree.SubElement(meta, 'version',
                                        version_attributes)
        if metadata.version.value is not None:
            version_node.text = "{}".format(metadata.version.value)
''', '''    version = metadata.version
    if version is not None:
        version_attributes = {} if version.comment is None else {'comment': version.comment}
        version_node = etree.SubElement(meta, 'version', version_attributes)
        if version.value is not None:
            version_node.text = str(version.value)
''')),
 r('xs_ver_helper', XS, ('''    if metadata.version is not None:
        version_attributes = {}
        version_comment = metadata.version.comment
        if version_comment is not None:
            version_attributes['comment'] = version_comment
        version_node = etree.SubElement(meta, 'version',
                                        version_attributes)
        if metadata.version.value is not None:
            version_node.text = "{}".format(metadata.version.value)
''', '''    if metadata.version is not None:
        _serialize_version(metadata.version, meta)
'''), ('''def _serialize_meta(''', '''def _serialize_version(version, meta):
    attributes = {}
    if version.comment is not None:
        attributes['comment'] = version.comment
    node = etree.SubElement(meta, 'version', attributes)
    if version.value is not None:
        node.text = "{}".format(version.value)


def _serialize_meta(''')),
 r('xs_lang', XS, ('''        etree.SubElement(meta, 'language').text = language
''', '''        language_node = etree.SubElement(meta, 'language')
        language_node.text = language
''')),
 r('xs_scope', XS, ('''        scope_attributes = {}
        scope_type = scope.scope_type
        if scope_type is not None:
            scope_attributes['type'] = scope_type
        etree.SubElement(meta, 'scope',
                         scope_attributes).text = scope.value
''', '''        scope_node = etree.SubElement(meta, 'scope')
        if scope.scope_type is not None:
            scope_node.attrib['type'] = scope.scope_type
        scope_node.text = scope.value
''')),
 r('xs_scope2', XS, ('''        scope_attributes = {}
        scope_type = scope.scope_type
        if scope_type is not None:
            scope_attributes['type'] = scope_type
        etree''', '''        scope_type = scope.scope_type
        scope_attributes = {'type': scope_type} if scope_type is not None else {}
        etree''')),
 r('xs_desc', XS, ('''    if metadata.description is not None:
        node = etree.SubElement(meta, 'description')
        if metadata.description.description_type is not None:
            node.attrib['type'] = metadata.description.description_type

        content = metadata.description.value
        if metadata.description.description_type not in [None, 'text/plain']:
            # Wrap content in CDATA section
            content = etree.CDATA(content)
        node.text = content
''', '''    description = metadata.description
    if description is not None:
        node = etree.SubElement(meta, 'description')
        description_type = description.description_type
        if description_type is not None:
            node.set('type', description_type)

        if description_type is None or description_type == 'text/plain':
            node.text = description.value
        else:
            # Wrap content in CDATA section
            node.text = etree.CDATA(description.value)
''')),
 r('xs_elem', XS, ('''        value = getattr(metadata, elem, None)
        if value is not None:
            # Python prevents using '-' in attribute names
            node = etree.SubElement(meta, elem.replace('_', '-'))
            node.text = "{}".format(value)
''', '''        value = getattr(metadata, elem, None)
        if value is None:
            continue
        # Python prevents using '-' in attribute names
        etree.SubElement(meta, elem.replace('_', '-')).text = str(value)
''')),
 r('xs_refs', XS, ('''        for ref_id in references:
            ref = references[ref_id]
''', '''        for ref_id, ref in references.items():
''')),
 r('xs_refs2', XS, ('''            if len(ref.get('comment', "")) > 0:
                ref_attributes['comment'] = ref['comment']
''', '''            comment = ref.get('comment', "")
            if comment != "":
                ref_attributes['comment'] = comment
''')),
]
