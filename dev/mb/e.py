M='lgr/tools/merge_set.py'; U='lgr/tools/utils.py'; A='lgr/tools/annotate.py'; H='lgr/tools/harmonize.py'; D='lgr/tools/diff_collisions.py'; P='lgr/populate/__init__.py'
TH='tools/lgr_harmonize'
BUGS=[
('C24',M,"                existing_char.references = existing_char.references + [x for x in new_ref\n                                                                   if x not in existing_char.references]" if 0 else "if x not in existing_char.references]","if x not in existing_char.references and x in new_ref[:1]]"),
('C24',M,"existing_char.tags = sorted(set.union(set(existing_char.tags), set(new_tags)))","existing_char.tags = sorted(new_tags or existing_char.tags)"),
('C24',M,"and v.cp != existing_char.cp]\n            new_v2","and len(v.cp) == 1]\n            new_v2"),
('C24',M,"if new_v1 and new_v2:","if new_v1 or new_v2 and False:"),
('C24',M,"for other_script in reversed(previous_scripts):","for other_script in previous_scripts[-1:]:"),
('C24',M,"for cp, var_cp in ((v1.cp, v2.cp), (v2.cp, v1.cp)):","for cp, var_cp in ((v1.cp, v2.cp),):"),
('C24',M,"                    except VariantAlreadyExists:\n                        # already added because of another code point shared by both scripts\n                        pass","                    except VariantAlreadyExists:\n                        return"),
('C24',M,"        previous_scripts.append(script)","        previous_scripts = [script]"),
('C24',M,"                    new_id = merged_lgr.add_reference(ref, comment=ref_dict.get('comment'))\n                    ref_mapping[script][ref_id] = new_id","                    new_id = merged_lgr.add_reference(ref, comment=ref_dict.get('comment'))\n                    ref_mapping[script].setdefault(new_id, ref_id)"),
('C24',M,"if ref_id != inserted_references[ref]:","if ref_id not in merged_lgr.reference_manager.keys():"),
('C24',M,"        if action in DEFAULT_ACTIONS:\n            continue","        if action in DEFAULT_ACTIONS or action in merged_lgr.actions:\n            continue"),
('C24',M,"r'from-tag=\"([^:\"]+)\"', r'from-tag=\"{}-\\1\"'.format(script), rule_xml)","r'from-tag=\"([^\"]+)\"', r'from-tag=\"{}-\\1\"'.format(script), rule_xml)"),
('C24',M,"    class_xml = re.sub(r'name=\"([^:\"]+)\"', r'name=\"{}-\\1\"'.format(script), class_xml)","    class_xml = re.sub(r'name=\"([^:\"]+)\"', r'name=\"{}-\\1\"'.format(script), class_xml, count=1) if classe.name else class_xml"),
('C24',M,"        lgr.expand_ranges()\n\n        merge_ref","        if not merged_lgr.repertoire:\n            lgr.expand_ranges()\n\n        merge_ref"),
('C24',M,"lgr_set.sort(key=lambda x: get_script(x).replace('und-', 'zzz'))","lgr_set.sort(key=lambda x: x.name)"),
('C24',M,"new_tags = sorted(set(script + '-' + x if ':' not in x else x for x in char.tags) | set(script_extensions))","new_tags = sorted(set(script + '-' + x for x in char.tags) | set(script_extensions))"),
('C24',M,"        for v in char.get_variants():\n            when = None\n            not_when = None\n            if v.when:","        for v in char.get_variants():\n            if v.when:"),
('C24',M,"            if v.not_when:\n                not_when = script + '-' + v.not_when\n\n            new_ref = [ref_mapping[script].get(r, r) for r in v.references]","            elif v.not_when:\n                not_when = script + '-' + v.not_when\n\n            new_ref = [ref_mapping[script].get(r, r) for r in v.references]"),
('C24',M,"                    raise CharInvalidContextRule(char.cp, char.not_when)","                    logger.error('conflict %s', char.not_when)"),
('C24',M,"                                       comment=v.comment, ref=new_ref)\n","                                       comment=v.comment, ref=v.references)\n"),
('C24',M,"metadata.validity_end,\n                                              min)","metadata.validity_end,\n                                              max)"),
('C24',M,"    except IndexError:\n        return ''","    except IndexError:\n        return 'und'"),
('C24',M,"            all_html &= description.description_type == 'text/html'","            all_html = description.description_type == 'text/html'"),
('C24',M,"        if merged_rule_name in merged_lgr.rules:","        if rule.name in MSR_2_RULES and merged_lgr.rules:"),
# harmonize
('C26',H,"h_lgr_2 = deepcopy(lgr_2) if _copy else lgr_2","h_lgr_2 = deepcopy(lgr_2) if _copy and lgr_2 is not lgr_1 else lgr_2"),
('C26',H,"        rz_lgr_work = deepcopy(rz_lgr)\n        harmonize(h_lgr_2","        harmonize(h_lgr_2"),
('C26',H,"            elif variant_cp == cp:\n                # Do not consider identity mappings for in-repertoire code points\n                continue\n            # Add variant to LGR 2","            if variant_cp == cp:\n                # Do not consider identity mappings for in-repertoire code points\n                break\n            # Add variant to LGR 2"),
('C26',H,"    populate_lgr(h_lgr_2)","    if rz_lgr is None:\n        populate_lgr(h_lgr_2)"),
('C26',H,"lgr_1_repertoire ^ lgr_2_repertoire","lgr_1_repertoire - lgr_2_repertoire"),
('C26',H,"    lgr_1_repertoire = {c.cp for c in h_lgr_1.repertoire}","    lgr_1_repertoire = {c.cp for c in lgr_1.repertoire}"),
# populate
('C22',P,"if a.cp == v.cp:\n                    reverse.append(v)","if a.cp == v.cp and v.type != 'out-of-repertoire-var':\n                    reverse.append(v)"),
('C22',P,"                if r.not_when:\n                    not_when_rule = r.not_when","                elif r.not_when:\n                    not_when_rule = r.not_when"),
('C22',P,"lgr.add_variant(b.cp, r.cp, variant_type=r.type, when=b.when, comment=r.comment,\n                                    ref=r.references)","lgr.add_variant(b.cp, r.cp, variant_type=b.type, when=b.when, comment=r.comment,\n                                    ref=r.references)"),
('C22',P,"            elif b.not_when and not not_when_rule:","            elif b.not_when and not not_when_rule and not b.when_rule_done:" if 0 else "            elif b.not_when and not (not_when_rule or when_rule):"),
('C22',P," or not check_transitivity(lgr, None)[0]:","  and not check_transitivity(lgr, None)[0]:"),
('C22',P,"if var.cp != a.cp]:","if var.cp != a.cp and var.cp > b.cp]:"),
('C22',P,"                lgr.add_cp(b.cp)\n","                lgr.add_cp(b.cp, when=b.when)\n"),
# annotate
('C28',A,"    if not eligible and action_idx >= 0:","    if not eligible and action_idx > 0:"),
('C28',A,"','.join(rules)","rules[0]"),
('C28',A,"rules is None else","not rules else"),
('C28',A,"            yield \"%s: %s\\n\" % (label, error)\n\n\ndef lgr_set","            yield \"%s: %s\\n\" % (label, error)\n            return\n\n\ndef lgr_set"),
('C28',A,"if not lgr._test_preliminary_eligibility(label_cp)[0]:","if not script_lgr._test_preliminary_eligibility(label_cp)[0]:"),
('C28',A,"                indexes = get_collisions(lgr, filtered_set + [label], quiet=False)","                indexes = get_collisions(script_lgr, filtered_set + [label], quiet=False)"),
('C28',A,"if any(l['label'] == label for collisions in indexes.values() for l in collisions):","if indexes:"),
('C28',A,"            collision = ''\n            if eligible:","            if eligible:\n                collision = ''" if 0 else "            collision = ''\n            if eligible and disp != 'allocatable':"),
# diff_collisions
('C27',D,"            if is_tld:\n                continue\n            yield","            if is_tld:\n                return\n            yield"),
('C27',D,"sorted(tlds - set(labels))","sorted(tlds - set(not_in_lgr))"),
('C27',D,"if len(primaries) < 2 and not keep:","if len(primaries) <= 2 and not keep and tlds:"),
('C27',D,"with_labels=[l['cp'] for l in primaries] if not keep else None","with_labels=[l['cp'] for l in primaries if l['cat'] == PRIMARY] if not keep else None"),
('C27',D,"existing[0]['action_idx'][label] = action_idx","existing[0]['action_idx'][variant] = action_idx"),
('C27',D,"                    existing[0]['disp'][label] = variant_disp","                    existing[0]['disp'].setdefault(label, variant_disp)"),
('C27',D,"                if label1_cp == label2_cp:\n                    (res","                if label1_cp[:len(label2_cp)] == label2_cp:\n                    (res"),
('C27',D,"                    ret &= res","                    ret = res"),
('C27',D,"        added = _get_new_variants(labels2, labels1)\n        removed = _get_new_variants(labels1, labels2)","        added = _get_new_variants(labels2, labels1)\n        removed = _get_new_variants(labels1, added)"),
('C27',D,"list2 = colliding1[idx:]","list2 = colliding1[idx:idx + 1]"),
('C27',D,"        idx += 1\n        list2 = colliding2","        idx += 1 if colliding2 is None else 0\n        list2 = colliding2 or None"),
('C27',D,"if variant['label'] == prim:\n                    continue","if variant['cat'] == PRIMARY:\n                    continue"),
('C27',D,"[l['disp'][prim].lower() for l in labels]","[l['disp'][prim].lower() for l in labels if l['cat'] != TLD]"),
('C27',D,"        try:\n            index2 = lgr_2.generate_index_label(label_cp)","        try:\n            index2 = lgr_1.generate_index_label(label_cp)"),
('C27',D,"    for output in _write_simple_output(labels, tlds, label_indexes):\n        has_one = True","    for output in _write_simple_output(labels, tlds, label_indexes):\n        has_one = has_one or bool(tlds)"),
('C27',D,"    label_indexes, not_in_lgr = _generate_indexes(lgr, labels, tlds=tlds, keep=False, quiet=True)","    label_indexes, not_in_lgr = _generate_indexes(lgr, labels - tlds, tlds=tlds, keep=False, quiet=True)"),
('C27',D,"cached_indexes=cached_indexes)\n    return label_indexes","cached_indexes=cached_indexes if labels else None)\n    return label_indexes"),
('C27',D,"    if label_errors or label_not_in_lgr:","    if label_errors:"),
# utils
('C36',U,"            label = label[:pos].strip()","            label = label[:pos]"),
('C36',U,"pos = label.find('#')","pos = label.rfind('#')"),
('C36',U,"            l = l.lstrip(codecs.BOM_UTF8.decode('utf-8'))","            l = l.lstrip(codecs.BOM_UTF8.decode('utf-8') + '#')"),
('C36',U,"return [ord(c) for c in idna_decoder(s.lower())]","return [ord(c) for c in idna_decoder(s)]"),
('C36',U,"v < 0 or v > 0x10FFFF","v < 0 or v > 0x10FFFF or 0xD800 <= v < 0xE000"),
('C36',U,"    elif ' ' in s or 'U+' in s.upper():","    elif ' ' in s or s.upper().startswith('U+'):"),
('C36',U,"        try:\n            parsed_label = [ord(c) for c in s] if as_cp else s","        try:\n            parsed_label = [ord(c) for c in s.strip('-')] if as_cp else s"),
('C37',U,"            if validation_result is not None:\n                logger.error('Errors for RNG validation of LGR %s: %s',","            if validation_result:\n                logger.error('Errors for RNG validation of LGR %s: %s',"),
('C37',U,"        if lgr is None:\n            logger.error(\"Error while parsing LGR file %s.\" % lgr_file)\n            logger.error(\"Please check compliance with RNG.\")\n            return\n\n        lgr_set","        if lgr is None:\n            logger.error(\"Error while parsing LGR file %s.\" % lgr_file)\n            logger.error(\"Please check compliance with RNG.\")\n            continue\n\n        lgr_set"),
('C37',U,"            if unidb.get_script(character, alpha4=True) in ['Hira', 'Kana']:\n                script = 'Jpan'\n                break","            if unidb.get_script(character, alpha4=True) in ['Hira', 'Kana']:\n                script = 'Jpan'\n            break"),
('C37',U,"if self.args.libs and not self.unidb:","if self.args.libs and self.unidb is None and self.args.verbose:"),
('C37',U,"                self.set_labels = io.StringIO(set_labels_input.read())","                self.set_labels = io.StringIO(set_labels_input.readline())" if 0 else "                    self.set_labels = io.StringIO(set_labels_input.readline())"),
('C37',U,"            self.lgr = parse_lgr(self.args.lgr_xml[0], self.args.rng, self.get_unidb())","            self.lgr = parse_lgr(self.args.lgr_xml[0], unidb=self.get_unidb())"),
('C37',U,"        if len(self.args.lgr_xml) > 1:","        if len(set(self.args.lgr_xml)) > 2:"),
('C37',TH,"    first_lgr, second_lgr = parse_lgr(args.first, args.rng, unidb), parse_lgr(args.second, args.rng, unidb)","    first_lgr, second_lgr = parse_lgr(args.first, args.rng, unidb), parse_lgr(args.second, None, unidb)"),
('C37',TH,"lgr.name[:-4]","lgr.name.split('.')[0]"),
('C37',TH,"    _process_log(log_second)","    _process_log(log_first)"),
]
