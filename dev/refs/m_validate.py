V = {n: 'lgr/validate/%s.py' % n for n in ('__init__', 'conditional_variants', 'lgr_stats', 'metadata', 'miscellaneous', 'rebuild_lgr', 'symmetry', 'transitivity', 'xml_validity')}
S = 'STRIP'
def R(mod, *edits):
    return [(V[mod], S, list(edits))]
REFS = [
 ('init_list', R('__init__', ("""    TO_RUN = list(CHECKS)
    if options.get('rfc7940'):
        TO_RUN += RFC7940_CHECKS
""", """    TO_RUN = CHECKS + RFC7940_CHECKS if options.get('rfc7940') else CHECKS
"""))),
 ('init_append', R('__init__', ("""            valid, func_result = check_function(lgr, options)
            result.append((check_function.__name__, func_result))
        except LGRException as exc:
            logger.error("Error while validating LGR '%s': %s", lgr, exc)
            result.append((check_function.__name__, exc))
""", """            _, outcome = check_function(lgr, options)
        except LGRException as exc:
            logger.error("Error while validating LGR '%s': %s", lgr, exc)
            outcome = exc
        result.append((check_function.__name__, outcome))
"""))),
 ('init_helper', R('__init__', ("""        try:
            valid, func_result = check_function(lgr, options)
            result.append((check_function.__name__, func_result))
        except LGRException as exc:
            logger.error("Error while validating LGR '%s': %s", lgr, exc)
            result.append((check_function.__name__, exc))
    return result
""", """        result.append((check_function.__name__, _run(check_function, lgr, options)))
    return result


def _run(check, lgr, options):
    try:
        return check(lgr, options)[1]
    except LGRException as exc:
        logger.error("Error while validating LGR '%s': %s", lgr, exc)
        return exc
"""))),
 ('init_comp', R('__init__', ("""    result = []
    TO_RUN = list(CHECKS)
    if options.get('rfc7940'):
        TO_RUN += RFC7940_CHECKS
    for check_function in TO_RUN:
        try:
            valid, func_result = check_function(lgr, options)
            result.append((check_function.__name__, func_result))
        except LGRException as exc:
            logger.error("Error while validating LGR '%s': %s", lgr, exc)
            result.append((check_function.__name__, exc))
    return result
""", """    checks = list(CHECKS)
    if options.get('rfc7940'):
        checks.extend(RFC7940_CHECKS)
    return [(check.__name__, _run(check, lgr, options)) for check in checks]


def _run(check, lgr, options):
    try:
        return check(lgr, options)[1]
    except LGRException as exc:
        logger.error("Error while validating LGR '%s': %s", lgr, exc)
        return exc
"""))),
 ('cond_helper', R('conditional_variants', ("""            when = var.when
            not_when = var.not_when
            if when is not None and when not in lgr.rules:
                logger.warning('CP %s: Variant \\'%s\\' "when" attribute \\'%s\\' is not an existing rule name.', format_cp(char.cp), format_cp(var.cp), when)
                success = False
                result['repertoire'].append({'char': char, 'variant': var, 'rule_type': 'when', 'rule': when})
            if not_when is not None and not_when not in lgr.rules:
                logger.warning('CP %s: Variant \\'%s\\' "not-when" attribute \\'%s\\' is not an existing rule name.', format_cp(char.cp), format_cp(var.cp), not_when)
                success = False
                result['repertoire'].append({'char': char, 'variant': var, 'rule_type': 'not-when', 'rule': not_when})
""", """            for rule_type, rule in (('when', var.when), ('not-when', var.not_when)):
                if rule is not None and rule not in lgr.rules:
                    logger.warning('CP %s: Variant \\'%s\\' "%s" attribute \\'%s\\' is not an existing rule name.', format_cp(char.cp), format_cp(var.cp), rule_type, rule)
                    success = False
                    result['repertoire'].append({'char': char, 'variant': var, 'rule_type': rule_type, 'rule': rule})
"""))),
 ('cond_gen', R('conditional_variants', ("""    success = True
    result = {'description': 'Testing conditional variants', 'repertoire': []}
    for char in lgr.repertoire:
        if isinstance(char, RangeChar):
            continue
        for var in char.get_variants():
            when = var.when
            not_when = var.not_when
""", """    success = True
    problems = []
    for char in lgr.repertoire:
        if isinstance(char, RangeChar):
            continue
        for var in char.get_variants():
            when, not_when = var.when, var.not_when
"""), ("""                result['repertoire'].append({'char': char, 'variant': var, 'rule_type': 'when', 'rule': when})
""", """                problems.append({'char': char, 'variant': var, 'rule_type': 'when', 'rule': when})
"""), ("""                result['repertoire'].append({'char': char, 'variant': var, 'rule_type': 'not-when', 'rule': not_when})
""", """                problems.append({'char': char, 'variant': var, 'rule_type': 'not-when', 'rule': not_when})
"""), ("""    return (success, result)
""", """    return (success, {'description': 'Testing conditional variants', 'repertoire': problems})
"""))),
 ('cond_success', R('conditional_variants', ("""                success = False
                result['repertoire'].append({'char': char, 'variant': var, 'rule_type': 'when', 'rule': when})
""", """                result['repertoire'].append({'char': char, 'variant': var, 'rule_type': 'when', 'rule': when})
"""), ("""                success = False
                result['repertoire'].append({'char': char, 'variant': var, 'rule_type': 'not-when', 'rule': not_when})
""", """                result['repertoire'].append({'char': char, 'variant': var, 'rule_type': 'not-when', 'rule': not_when})
"""), ("""    success = True
""", ""), ("""    return (success, result)
""", """    return (not result['repertoire'], result)
"""))),
 ('cond_nest', R('conditional_variants', ("""            if when is not None and when not in lgr.rules:
                logger.warning('CP %s: Variant \\'%s\\' "when" attribute \\'%s\\' is not an existing rule name.', format_cp(char.cp), format_cp(var.cp), when)
                success = False
                result['repertoire'].append({'char': char, 'variant': var, 'rule_type': 'when', 'rule': when})
""", """            if when is None or when in lgr.rules:
                pass
            else:
                success = False
                result['repertoire'].append(dict(char=char, variant=var, rule_type='when', rule=when))
                logger.warning('CP %s: Variant \\'%s\\' "when" attribute \\'%s\\' is not an existing rule name.', format_cp(char.cp), format_cp(var.cp), when)
"""))),
 ('stats_get', R('lgr_stats', ("""            if t in stats['codepoints_by_tag']:
                stats['codepoints_by_tag'][t] += range_len
            else:
                stats['codepoints_by_tag'][t] = range_len
""", """            stats['codepoints_by_tag'][t] = stats['codepoints_by_tag'].get(t, 0) + range_len
"""), ("""            if var.type in stats['variants_by_type']:
                stats['variants_by_type'][var.type] += 1
            else:
                stats['variants_by_type'][var.type] = 1
""", """            stats['variants_by_type'].setdefault(var.type, 0)
            stats['variants_by_type'][var.type] += 1
"""))),
 ('stats_setlen', R('lgr_stats', ("""        variant_set_len = len(frozenset((v.cp for v in variants + ([char] if len(variants) > 0 else []))))
        stats['mapping_number'] += len(frozenset((v.cp for v in variants)))
""", """        variant_cps = {v.cp for v in variants}
        stats['mapping_number'] += len(variant_cps)
        variant_set_len = len(variant_cps | {char.cp}) if variants else 0
"""))),
 ('stats_if', R('lgr_stats', ("""        stats['largest_variant_set'] = max(stats['largest_variant_set'], variant_set_len)
        if variant_set_len > 0:
            stats['codepoints_with_variants'] += 1
""", """        if variant_set_len > stats['largest_variant_set']:
            stats['largest_variant_set'] = variant_set_len
        if variants:
            stats['codepoints_with_variants'] += 1
"""))),
 ('stats_len', R('lgr_stats', ("""        range_len = 1
        if isinstance(char, RangeChar):
            range_len = char.last_cp - char.first_cp + 1
            stats['codepoint_number'] += range_len
            stats['range_number'] += 1
""", """        range_len = char.last_cp - char.first_cp + 1 if isinstance(char, RangeChar) else 1
        stats['codepoint_number'] += range_len
        if isinstance(char, RangeChar):
            stats['range_number'] += 1
"""), ("""            stats['codepoint_number'] += 1
            stats['sequence_number'] += 1
""", """            stats['sequence_number'] += 1
"""), ("""        elif isinstance(char, Char):
            stats['codepoint_number'] += 1
""", ""))),
 ('stats_helper', R('lgr_stats', ("""        for t in char.tags:
            if t in stats['codepoints_by_tag']:
                stats['codepoints_by_tag'][t] += range_len
            else:
                stats['codepoints_by_tag'][t] = range_len
""", """        for t in char.tags:
            _count(stats['codepoints_by_tag'], t, range_len)
"""), ("""            if var.type in stats['variants_by_type']:
                stats['variants_by_type'][var.type] += 1
            else:
                stats['variants_by_type'][var.type] = 1
""", """            _count(stats['variants_by_type'], var.type)
"""), ("""def generate_stats(lgr):
""", """def _count(counters, key, number=1):
    if key not in counters:
        counters[key] = 0
    counters[key] += number

def generate_stats(lgr):
"""))),
 ('stats_split', R('lgr_stats', ("""        variants = list(char.get_variants())
        variant_set_len""", """        _variant_stats(stats, char)
    if stats['codepoints_with_variants'] != 0:
        stats['average_variants'] = round(stats['mapping_number'] / stats['codepoints_with_variants'], 1)
    return stats

def _variant_stats(stats, char):
    if True:
        variants = list(char.get_variants())
        variant_set_len"""), ("""                stats['variants_by_type'][var.type] = 1
    if stats['codepoints_with_variants'] != 0:
        stats['average_variants'] = round(stats['mapping_number'] / stats['codepoints_with_variants'], 1)
    return stats
""", """                stats['variants_by_type'][var.type] = 1
"""))),
 ('meta_helper', R('metadata', ("""    if vend is not None and today > vend:
        logging.error('validity_end has expired')
        lgr.notify_error('validity_end_expiry')
        success = False
    lgr.notify_tested('validity_end_expiry')
    if vstart is not None and vend is not None and (vstart > vend):
        logging.error('validity_start is later than validity_end')
        lgr.notify_error('validity_start_end')
        success = False
    lgr.notify_tested('validity_start_end')
    if vstart is not None and vstart > today:
        logging.error('validity_start is in the future')
        lgr.notify_error('validity_started')
        success = False
    lgr.notify_tested('validity_started')
""", """    def check(failed, name, message):
        nonlocal success
        if failed:
            logging.error(message)
            lgr.notify_error(name)
            success = False
        lgr.notify_tested(name)

    check(vend is not None and today > vend, 'validity_end_expiry', 'validity_end has expired')
    check(vstart is not None and vend is not None and (vstart > vend), 'validity_start_end', 'validity_start is later than validity_end')
    check(vstart is not None and vstart > today, 'validity_started', 'validity_start is in the future')
"""))),
 ('meta_split', R('metadata', ("""    if lgr.metadata.description is not None:
        t = lgr.metadata.description.description_type
        if t is not None:
            if t not in mimetypes.types_map.values():
                logging.error("description has invalid mime type '%s'", t)
                lgr.notify_error('metadata_description_type')
                success = False
""", """    description = lgr.metadata.description
    mime = description.description_type if description is not None else None
    if mime is not None and mime not in mimetypes.types_map.values():
        logging.error("description has invalid mime type '%s'", mime)
        lgr.notify_error('metadata_description_type')
        success = False
"""), ("""        if not re.match('[1-9]\\\\d*$', lgr.metadata.version.value or ''):
            lgr.notify_error('metadata_version_integer')
            success = False
""", """        value = lgr.metadata.version.value or ''
        if re.match(r'[1-9]\\d*$', value) is None:
            success = False
            lgr.notify_error('metadata_version_integer')
"""))),
 ('meta_func', R('metadata', ("""    for s in lgr.metadata.scopes:
        if s.scope_type not in VALID_SCOPE_TYPES:
            logging.error("invalid scope type '%s'", s.scope_type)
            lgr.notify_error('metadata_scope_type')
            success = False
    lgr.notify_tested('metadata_scope_type')
""", """    success = _check_scopes(lgr) and success
"""), ("""def check_metadata(lgr, options):
""", """def _check_scopes(lgr):
    valid = True
    for s in lgr.metadata.scopes:
        if s.scope_type in VALID_SCOPE_TYPES:
            continue
        logging.error("invalid scope type '%s'", s.scope_type)
        lgr.notify_error('metadata_scope_type')
        valid = False
    lgr.notify_tested('metadata_scope_type')
    return valid

def check_metadata(lgr, options):
"""))),
 ('meta_order', R('metadata', ("""    vstart = lgr.metadata.validity_start
    vend = lgr.metadata.validity_end
    today = datetime.date.today().strftime('%Y-%m-%d')
    if vend is not None and today > vend:
        logging.error('validity_end has expired')
""", """    meta = lgr.metadata
    vstart = meta.validity_start
    vend = meta.validity_end
    today = datetime.date.today().isoformat()
    if vend is not None and vend < today:
        logging.error('validity_end has expired')
"""))),
 ('misc_type', R('miscellaneous', ("""            if v.type is not None:
                t = v.type
                if ' ' in t or t == '' or t[0] == '_':
                    logging.error("Bad variant type '%s'", t)
                    success = False
                    lgr.notify_error('data_variant_type')
""", """            t = v.type
            if t is not None and (not t or ' ' in t or t.startswith('_')):
                logging.error("Bad variant type '%s'", t)
                success = False
                lgr.notify_error('data_variant_type')
"""))),
 ('misc_tocheck', R('miscellaneous', ("""        to_check = set()
        for c in lgr.repertoire:
            if isinstance(c, lgr_char.RangeChar):
                to_check.update(range(c.first_cp, c.last_cp + 1))
            else:
                to_check.update(c.cp)
                for v in c.get_variants():
                    to_check.update(v.cp)
        _, invalid_cps""", """        to_check = get_code_points(lgr)
        _, invalid_cps"""), ("""def check_ref_ascending(lgr, reflist):
""", """def get_code_points(lgr):
    code_points = set()
    for c in lgr.repertoire:
        if isinstance(c, lgr_char.RangeChar):
            code_points.update(range(c.first_cp, c.last_cp + 1))
            continue
        code_points.update(c.cp)
        for v in c.get_variants():
            code_points.update(v.cp)
    return code_points

def check_ref_ascending(lgr, reflist):
"""))),
 ('misc_refs', R('miscellaneous', ("""        success = check_ref_ascending(lgr, c.references) and success
        for v in c.get_variants():
            success = check_ref_ascending(lgr, v.references) and success
""", """        for entry in [c] + list(c.get_variants()):
            if not check_ref_ascending(lgr, entry.references):
                success = False
"""))),
 ('misc_refs2', R('miscellaneous', ("""        success = check_ref_ascending(lgr, c.references) and success
        for v in c.get_variants():
            success = check_ref_ascending(lgr, v.references) and success
""", """        success &= check_ref_ascending(lgr, c.references)
        for v in c.get_variants():
            success &= check_ref_ascending(lgr, v.references)
"""))),
 ('misc_asc', R('miscellaneous', ("""        if not re.match('\\\\d+$', n):
            break
        if not int(n) > last:
            lgr.notify_error('ref_attribute_ascending')
            logging.warning('references not in ascending order: %d --> %d', last, int(n))
            return False
        last = int(n)
    return True
""", """        if re.match('\\\\d+$', n) is None:
            return True
        current = int(n)
        if current <= last:
            lgr.notify_error('ref_attribute_ascending')
            logging.warning('references not in ascending order: %d --> %d', last, current)
            return False
        last = current
    return True
"""))),
 ('misc_rules', R('miscellaneous', ("""    success = True
    for action in lgr.actions:
        disp = action.disp
        if not disp in STANDARD_DISPOSITIONS:
            lgr.notify_error('standard_dispositions')
            success = False
            logging.error('Action element has non-standard disposition ' + disp)
    lgr.notify_tested('standard_dispositions')
    return success
""", """    invalid = [a.disp for a in lgr.actions if a.disp not in STANDARD_DISPOSITIONS]
    for disp in invalid:
        lgr.notify_error('standard_dispositions')
        logging.error('Action element has non-standard disposition %s', disp)
    lgr.notify_tested('standard_dispositions')
    return not invalid
"""))),
 ('misc_bool', R('miscellaneous', ("""    success = check_lgr_rules(lgr)
    success = check_lgr_data(lgr) and success
    logger.info('Miscellaneous test done')
    return (success, result)
""", """    rules_ok = check_lgr_rules(lgr)
    data_ok = check_lgr_data(lgr)
    logger.info('Miscellaneous test done')
    return (rules_ok and data_ok, result)
"""))),
 ('misc_early', R('miscellaneous', ("""    unidb_version = lgr.unicode_database.get_unicode_version() if lgr.unicode_database is not None else None
    if unidb_version == lgr.metadata.unicode_version:
""", """    unidb = lgr.unicode_database
    unidb_version = None
    if unidb is not None:
        unidb_version = unidb.get_unicode_version()
    if lgr.metadata.unicode_version == unidb_version:
"""), ("""        _, invalid_cps = is_idna_valid_cp_or_sequence(to_check, lgr.unicode_database, check_all=True)
""", """        _, invalid_cps = is_idna_valid_cp_or_sequence(to_check, unidb, check_all=True)
"""))),
 ('reb_err', R('rebuild_lgr', ("""                    result['repertoire'].setdefault(char, {}).setdefault('errors', []).append(status)
                    range_ok = False
                in_script""", """                    add(char, 'errors', status)
                    range_ok = False
                in_script"""), ("""                    result['repertoire'].setdefault(char, {}).setdefault('warnings', []).append(CharNotInScript(cp))
""", """                    add(char, 'warnings', CharNotInScript(cp))
"""), ("""    for char in lgr.repertoire:
""", """    def add(char, kind, problem):
        result['repertoire'].setdefault(char, {}).setdefault(kind, []).append(problem)

    for char in lgr.repertoire:
"""))),
 ('reb_range', R('rebuild_lgr', ("""            if not range_ok:
                continue
            try:
                target_lgr.add_range(char.first_cp, char.last_cp, comment=char.comment, ref=char.references, tag=char.tags, when=char.when, not_when=char.not_when, validating_repertoire=validating_repertoire, override_repertoire=False)
            except LGRException as exc:
                result['repertoire'].setdefault(char, {}).setdefault('errors', []).append(exc)
                logger.error("Cannot add range '%s-%s'", format_cp(char.first_cp), format_cp(char.last_cp))
            continue
""", """            if range_ok:
                try:
                    target_lgr.add_range(char.first_cp, char.last_cp, comment=char.comment, ref=char.references, tag=char.tags, when=char.when, not_when=char.not_when, validating_repertoire=validating_repertoire, override_repertoire=False)
                except LGRException as exc:
                    logger.error("Cannot add range '%s-%s'", format_cp(char.first_cp), format_cp(char.last_cp))
                    result['repertoire'].setdefault(char, {}).setdefault('errors', []).append(exc)
            continue
"""))),
 ('reb_kwargs', R('rebuild_lgr', ("""            target_lgr.add_cp(char.cp, comment=char.comment, ref=char.references, tag=char.tags, when=char.when, not_when=char.not_when, validating_repertoire=validating_repertoire, override_repertoire=False)
""", """            kwargs = dict(comment=char.comment, ref=char.references, tag=char.tags, when=char.when, not_when=char.not_when)
            target_lgr.add_cp(char.cp, validating_repertoire=validating_repertoire, override_repertoire=False, **kwargs)
"""), ("""                target_lgr.add_cp(char.cp, comment=char.comment, ref=char.references, tag=char.tags, when=char.when, not_when=char.not_when, force=True)
""", """                target_lgr.add_cp(char.cp, force=True, **kwargs)
"""))),
 ('reb_func', R('rebuild_lgr', ("""        for var in char.get_variants():
            try:
                target_lgr.add_variant(""", """        _rebuild_variants(char, target_lgr, validating_repertoire, result)
    logger.info("Rebuilding LGR '%s done", lgr)
    return (True, result)

def _rebuild_variants(char, target_lgr, validating_repertoire, result):
    if 1:
        for var in char.get_variants():
            try:
                target_lgr.add_variant("""), ("""comment=var.comment, ref=var.references, force=True)
    logger.info("Rebuilding LGR '%s done", lgr)
    return (True, result)
""", """comment=var.comment, ref=var.references, force=True)
"""))),
 ('sym_reverse', R('symmetry', ("""            reverse = []
            for v in lgr.get_variants(b.cp):
                if a.cp == v.cp:
                    reverse.append(v)
            if not reverse:
""", """            reverse = [v for v in lgr.get_variants(b.cp) if v.cp == a.cp]
            if len(reverse) == 0:
"""))),
 ('sym_any', R('symmetry', ("""            if b.when and b.when not in [r.when for r in reverse]:
""", """            if b.when and not any(r.when == b.when for r in reverse):
"""), ("""            elif b.not_when and b.not_when not in [r.not_when for r in reverse]:
""", """            elif b.not_when and all(r.not_when != b.not_when for r in reverse):
"""))),
 ('sym_report', R('symmetry', ("""                logger.warning('CP %s: Variant %s is not in repertoire.', format_cp(a.cp), format_cp(b.cp))
                lgr.notify_error('basic_symmetry')
                result['repertoire'].append({'char': a, 'variant': b, 'rule_type': None, 'rule': None, 'type': 'not-in-repertoire'})
                success = False
                continue
""", """                logger.warning('CP %s: Variant %s is not in repertoire.', format_cp(a.cp), format_cp(b.cp))
                report(a, b, 'not-in-repertoire', 'basic_symmetry')
                success = False
                continue
"""), ("""                lgr.notify_error('basic_symmetry')
                result['repertoire'].append({'char': a, 'variant': b, 'rule_type': None, 'rule': None, 'type': 'missing-symmetric-variant'})
                continue
""", """                report(a, b, 'missing-symmetric-variant', 'basic_symmetry')
                continue
"""), ("""                result['repertoire'].append({'char': a, 'variant': b, 'rule_type': 'when', 'rule': b.when, 'type': 'variant-contextual-rule-missing'})
                lgr.notify_error('strict_symmetry')
""", """                report(a, b, 'variant-contextual-rule-missing', 'strict_symmetry', 'when', b.when)
"""), ("""                result['repertoire'].append({'char': a, 'variant': b, 'rule_type': 'not-when', 'rule': b.not_when, 'type': 'variant-contextual-rule-missing'})
                lgr.notify_error('strict_symmetry')
""", """                report(a, b, 'variant-contextual-rule-missing', 'strict_symmetry', 'not-when', b.not_when)
"""), ("""    for a in lgr.repertoire:
""", """
    def report(char, variant, kind, check, rule_type=None, rule=None):
        lgr.notify_error(check)
        result['repertoire'].append({'char': char, 'variant': variant, 'rule_type': rule_type, 'rule': rule, 'type': kind})

    for a in lgr.repertoire:
"""))),
 ('sym_opt', R('symmetry', ("""            if options and options.get('ignore_rules'):
                continue
            if b.when""", """            if ignore_rules:
                continue
            if b.when"""), ("""    success = True
""", """    success = True
    ignore_rules = bool(options) and options.get('ignore_rules')
"""))),
 ('trans_loop', R('transitivity', ("""            for c in [var for var in variants if var.cp != a.cp]:
                logger.debug("A: '%s' - B: '%s' - C: '%s'", format_cp(a.cp), format_cp(b.cp), format_cp(c.cp))
                if c.cp not in [var.cp for var in a_variants]:
""", """            for c in variants:
                if c.cp == a.cp:
                    continue
                logger.debug("A: '%s' - B: '%s' - C: '%s'", format_cp(a.cp), format_cp(b.cp), format_cp(c.cp))
                if c.cp not in a_cps:
"""), ("""        a_variants = list(a.get_variants())
""", """        a_variants = list(a.get_variants())
        a_cps = {var.cp for var in a_variants}
"""))),
 ('trans_else', R('transitivity', ("""                lgr.notify_error('basic_transitivity')
                continue
            for c in [var for var in variants if var.cp != a.cp]:
                logger.debug("A: '%s' - B: '%s' - C: '%s'", format_cp(a.cp), format_cp(b.cp), format_cp(c.cp))
                if c.cp not in [var.cp for var in a_variants]:
                    success = False
                    logger.warning('CP %s should have CP %s in its variants.', format_cp(a.cp), format_cp(c.cp))
                    lgr.notify_error('basic_transitivity')
                    result['repertoire'].append({'char': a, 'variant': c})
""", """                lgr.notify_error('basic_transitivity')
            else:
                for c in variants:
                    logger.debug("A: '%s' - B: '%s' - C: '%s'", format_cp(a.cp), format_cp(b.cp), format_cp(c.cp))
                    if c.cp != a.cp and all(c.cp != var.cp for var in a_variants):
                        success = False
                        logger.warning('CP %s should have CP %s in its variants.', format_cp(a.cp), format_cp(c.cp))
                        result['repertoire'].append({'char': a, 'variant': c})
                        lgr.notify_error('basic_transitivity')
"""))),
 ('trans_helper', R('transitivity', ("""            for c in [var for var in variants if var.cp != a.cp]:
                logger.debug("A: '%s' - B: '%s' - C: '%s'", format_cp(a.cp), format_cp(b.cp), format_cp(c.cp))
                if c.cp not in [var.cp for var in a_variants]:
                    success = False
""", """            for c in missing(a, a_variants, variants):
                if True:
                    success = False
"""), ("""def check_transitivity(lgr, options):
""", """def missing(a, a_variants, variants):
    known = [a.cp] + [var.cp for var in a_variants]
    return [c for c in variants if c.cp not in known]

def check_transitivity(lgr, options):
"""))),
]
