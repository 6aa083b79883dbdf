D = 'lgr/tools/diff_collisions.py'
REFS = [
 ('dc_newvars_comp', [(D, None, [('''    new_list = []
    for new in new_labels:
        new_cp = new['cp']
        found = False
        for old in old_labels:
            old_cp = old['cp']
            if old_cp == new_cp:
                found = True
                break
        if not found:
            new_list.append(new)
    return new_list
''', '''    old_cps = [old['cp'] for old in old_labels]
    return [new for new in new_labels if new['cp'] not in old_cps]
''')])]),
 ('dc_newvars_any', [(D, None, [('''        new_cp = new['cp']
        found = False
        for old in old_labels:
            old_cp = old['cp']
            if old_cp == new_cp:
                found = True
                break
        if not found:
''', '''        if not any(old['cp'] == new['cp'] for old in old_labels):
''')])]),
 ('dc_newvars_forelse', [(D, None, [('''        found = False
        for old in old_labels:
            old_cp = old['cp']
            if old_cp == new_cp:
                found = True
                break
        if not found:
            new_list.append(new)
''', '''        for old in old_labels:
            if old['cp'] == new_cp:
                break
        else:
            new_list.append(new)
''')])]),
 ('dc_dump_enumerate', [(D, None, [('''    idx = 0
    for l1 in colliding1:
        idx += 1
        list2''', '''    for idx, l1 in enumerate(colliding1, 1):
        list2''')])]),
 ('dc_dump_cond', [(D, None, [('''        list2 = colliding2
        if list2 is None:
            # do not display the same collision permuted
            list2 = colliding1[idx:]
''', '''        list2 = colliding1[idx:] if colliding2 is None else colliding2
''')])]),
 ('dc_cmp_early', [(D, None, [('''    if l1_disp != l2_disp:
        output += "Change in''', '''    if l1_disp == l2_disp:
        return True, output
    else:
        output += "Change in'''), ('''        return False, output

    return True, output
''', '''        return False, output
''')])]),
 ('dc_setdefault', [(D, None, [('''            if l_idx not in label_indexes:
                label_indexes[l_idx] = []
            label_indexes[l_idx].append(''', '''            label_indexes.setdefault(l_idx, []).append(''')])]),
 ('dc_cat_first', [(D, None, [('''            label_cp_out = format_cp(l_cp)
            if l_idx''', '''            category = TLD if is_tld else PRIMARY
            label_cp_out = format_cp(l_cp)
            if l_idx'''), ('''PRIMARY if not is_tld else TLD,''', '''category,''')])]),
 ('dc_gen_branches', [(D, None, [('''        generator = _get_cached_indexes
        generator_args = [label_list]
        if not is_cache:
            generator = _compute_indexes
            generator_args = [lgr, label_list, is_tld]

        for l, l_cp, l_idx in generator(*generator_args):
''', '''        if is_cache:
            indexes = _get_cached_indexes(label_list)
        else:
            indexes = _compute_indexes(lgr, label_list, is_tld)

        for l, l_cp, l_idx in indexes:
''')])]),
 ('dc_log_once', [(D, None, [('''                log = log.strip()
                if quiet:
                    log = ''
''', '''                log = '' if quiet else log.strip()
''')])]),
 ('dc_existing_next', [(D, None, [('''                existing = [var for var in label_indexes[label_index]
                            if var['label'] == variant]
                if len(existing) < 1:
''', '''                existing = [var for var in label_indexes[label_index] if var['label'] == variant]
                if not existing:
''')])]),
 ('dc_existing_bind', [(D, None, [('''                    existing[0]['disp'][label] = variant_disp
                    existing[0]['rules'][label] = log
                    existing[0]['action_idx'][label] = action_idx
''', '''                    found = existing[0]
                    found['disp'][label] = variant_disp
                    found['rules'][label] = log
                    found['action_idx'][label] = action_idx
''')])]),
 ('dc_yield_from', [(D, None, [('''            for col in dump_collisions(colliding_labels, print_collision, label_type="label"):
                yield col
''', '''            yield from dump_collisions(colliding_labels, print_collision, label_type="label")
'''), ('''            for col in dump_collisions(colliding_labels, print_collision):
                yield col

        if colliding_tlds:
            for col in dump_collisions(colliding_labels, print_collision, colliding2=colliding_tlds):
                yield col
''', '''            yield from dump_collisions(colliding_labels, print_collision)

        if colliding_tlds:
            yield from dump_collisions(colliding_labels, print_collision, colliding2=colliding_tlds)
''')])]),
 ('dc_helper_yield', [(D, None, [('''        if colliding_tlds:
            for col in dump_collisions(colliding_labels, print_collision, colliding2=colliding_tlds):
                yield col

    if not collided:
        yield MD
        yield "No collision in the list of labels"
        yield MD
''', '''        if colliding_tlds:
            for col in dump_collisions(colliding_labels, print_collision, colliding2=colliding_tlds):
                yield col

    if not collided:
        for out in _no_collision():
            yield out


def _no_collision():
    yield MD
    yield "No collision in the list of labels"
    yield MD
''')])]),
 ('dc_category', [(D, None, [('''        return output_labels.format(col='existing TLDs' if TLD in [label['cat'], variant['cat']] else 'input file',
''', '''        is_tld = TLD in (label['cat'], variant['cat'])
        return output_labels.format(col='existing TLDs' if is_tld else 'input file',
''')])]),
 ('dc_labels_helper', [(D, None, [('''    from lgr.tools.utils import read_labels
    labels = set()
    for __, label, valid, error in read_labels(labels_input, lgr.unicode_database):
        if valid:
            labels.add(label)
    label_indexes, _''', '''    from lgr.tools.utils import read_labels
    labels = {label for __, label, valid, error in read_labels(labels_input, lgr.unicode_database) if valid}
    label_indexes, _''')])]),
 ('dc_in_tld', [(D, None, [('''        in_tld = labels & tlds
        for label in sorted(in_tld):
            has_one''', '''        for label in sorted(labels.intersection(tlds)):
            has_one''')])]),
 ('dc_not_in', [(D, None, [('''    label_not_in_lgr = []
    if not_in_lgr:
        for label in sorted(not_in_lgr):
            label_not_in_lgr.append("{}: not in LGR".format(label))
''', '''    label_not_in_lgr = ["{}: not in LGR".format(label) for label in sorted(not_in_lgr)]
''')])]),
 ('dc_full_primaries', [(D, None, [('''        primaries = [label for label in labels if label['cat'] == PRIMARY]
        for primary in primaries:
            prim''', '''        for primary in labels:
            if primary['cat'] != PRIMARY:
                continue
            prim''')])]),
 ('dc_counter', [(D, None, [('''Counter(disp for disp in [l['disp'][prim].lower() for l in labels])''', '''Counter(l['disp'][prim].lower() for l in labels)''')])]),
 ('dc_diff_helper', [(D, None, [('''        yield "\\n\\n# Collisions for LGR1 #\\n"
        for output in _write_complete_output(labels, label1_indexes):
            yield output
        if show_dump:
            yield "\\n# Summary for LGR1 #\\n"
            for output in _full_dump(label1_indexes):
                yield output
''', '''        for output in _collisions_of(labels, label1_indexes, show_dump):
            yield output
'''), ('''def _read_tlds(''', '''def _collisions_of(labels, indexes, show_dump):
    yield "\\n\\n# Collisions for LGR1 #\\n"
    for output in _write_complete_output(labels, indexes):
        yield output
    if show_dump:
        yield "\\n# Summary for LGR1 #\\n"
        for output in _full_dump(indexes):
            yield output


def _read_tlds(''')])]),
 ('dc_tld_guard', [(D, None, [('''        if valid:
            tlds.add(label)
        else:
            errors.append("TLD''', '''        if valid:
            tlds.add(label)
            continue
        if not valid:
            errors.append("TLD''')])]),
 ('dc_index_try', [(D, None, [('''        label_cp = tuple([ord(c) for c in label])
        try:
            label_index = lgr.generate_index_label(label_cp)
        except NotInLGR:
            if is_tld:
                continue
            yield label, label_cp, 'NotInLGR'
            continue

        yield label, label_cp, label_index
''', '''        label_cp = tuple(map(ord, label))
        try:
            label_index = lgr.generate_index_label(label_cp)
        except NotInLGR:
            if not is_tld:
                yield label, label_cp, 'NotInLGR'
        else:
            yield label, label_cp, label_index
''')])]),
]
