P = 'lgr/populate/__init__.py'
V = 'lgr/tools/idn_review/variant_sets.py'
U = 'lgr/tools/utils.py'
def r(name, f, *pairs):
    return (name, [(f, None, list(pairs))])
REFS = [
 r('p_in', P, ('''            try:
                lgr.get_variants(b.cp)
            except NotInLGR:
                logger.info("Add missing''', '''            try:
                lgr.get_char(b.cp)
            except NotInLGR:
                logger.info("Add missing''')),
 r('p_helper', P, ('''                lgr.add_cp(b.cp)
                # add current code point as variant for missing code point
                logger.info("Add code point '{}' as variant of '{}' for symmetry".format(format_cp(a.cp),
                                                                                         format_cp(b.cp)))
                lgr.add_variant(b.cp, a.cp, variant_type='blocked')

    # Need''', '''                _add_missing(lgr, a, b)

    # Need'''), ('''def _add_symmetry(lgr):
''', '''def _add_missing(lgr, a, b):
    lgr.add_cp(b.cp)
    # add current code point as variant for missing code point
    logger.info("Add code point '{}' as variant of '{}' for symmetry".format(format_cp(a.cp),
                                                                             format_cp(b.cp)))
    lgr.add_variant(b.cp, a.cp, variant_type='blocked')


def _add_symmetry(lgr):
''')),
 r('p_while', P, ('''    while not check_symmetry(lgr, {'ignore_rules': True})[0] or not check_transitivity(lgr, None)[0]:
''', '''    while not (check_symmetry(lgr, {'ignore_rules': True})[0] and check_transitivity(lgr, None)[0]):
''')),
 r('p_while2', P, ('''    while not check_symmetry(lgr, {'ignore_rules': True})[0] or not check_transitivity(lgr, None)[0]:
''', '''    while True:
        if check_symmetry(lgr, {'ignore_rules': True})[0] and check_transitivity(lgr, None)[0]:
            break
''')),
 r('p_while3', P, ('''    while not check_symmetry(lgr, {'ignore_rules': True})[0] or not check_transitivity(lgr, None)[0]:
''', '''    def is_complete():
        symmetric, _ = check_symmetry(lgr, {'ignore_rules': True})
        if not symmetric:
            return False
        transitive, _ = check_transitivity(lgr, None)
        return transitive

    while not is_complete():
''')),
 r('p_rev', P, ('''            reverse = []
            for v in lgr.get_variants(b.cp):
                if a.cp == v.cp:
                    reverse.append(v)
''', '''            reverse = [v for v in lgr.get_variants(b.cp) if v.cp == a.cp]
''')),
 r('p_rev_filter', P, ('''            reverse = []
            for v in lgr.get_variants(b.cp):
                if a.cp == v.cp:
                    reverse.append(v)
''', '''            reverse = list(filter(lambda v: v.cp == a.cp, lgr.get_variants(b.cp)))
''')),
 r('p_rev_fn', P, ('''            reverse = []
            for v in lgr.get_variants(b.cp):
                if a.cp == v.cp:
                    reverse.append(v)
''', '''            reverse = _get_reverse(lgr, a, b)
'''), ('''def _add_symmetry(lgr):
''', '''def _get_reverse(lgr, a, b):
    result = []
    for v in lgr.get_variants(b.cp):
        if v.cp != a.cp:
            continue
        result.append(v)
    return result


def _add_symmetry(lgr):
''')),
 r('p_rule', P, ('''            when_rule = None
            not_when_rule = None
            for r in reverse:
                if r.when:
                    when_rule = r.when
                if r.not_when:
                    not_when_rule = r.not_when
''', '''            when_rule = None
            for r in reverse:
                if r.when:
                    when_rule = r.when
            not_when_rule = None
            for r in reverse:
                if r.not_when:
                    not_when_rule = r.not_when
''')),
 r('p_rule_fn', P, ('''            when_rule = None
            not_when_rule = None
            for r in reverse:
                if r.when:
                    when_rule = r.when
                if r.not_when:
                    not_when_rule = r.not_when
''', '''            when_rule, not_when_rule = _get_rules(reverse)
'''), ('''def _add_symmetry(lgr):
''', '''def _get_rules(variants):
    when_rule = None
    not_when_rule = None
    for r in variants:
        when_rule = r.when or when_rule
        not_when_rule = r.not_when or not_when_rule
    return when_rule, not_when_rule


def _add_symmetry(lgr):
''')),
 r('p_update', P, ('''                    # remove variant then replace it with the one with when rule
                    lgr.del_variant(b.cp, r.cp)
                    lgr.add_variant(b.cp, r.cp, variant_type=r.type, when=b.when, comment=r.comment,
                                    ref=r.references)
''', '''                    _replace(lgr, b.cp, r, when=b.when)
'''), ('''                    # remove variant then replace it with the one with not_when rule
                    lgr.del_variant(b.cp, r.cp)
                    lgr.add_variant(b.cp, r.cp, variant_type=r.type, not_when=b.not_when, comment=r.comment,
                                    ref=r.references)
''', '''                    _replace(lgr, b.cp, r, not_when=b.not_when)
'''), ('''def _add_symmetry(lgr):
''', '''def _replace(lgr, cp, variant, when=None, not_when=None):
    lgr.del_variant(cp, variant.cp)
    lgr.add_variant(cp, variant.cp, variant_type=variant.type, when=when, not_when=not_when,
                    comment=variant.comment, ref=variant.references)


def _add_symmetry(lgr):
''')),
 r('p_nest', P, ('''            if b.when and when_rule and b.when != when_rule:
                logger.warning("Could not achieve rule symmetry for variant '{}' of code point '{}' as it already has "
                               "a when rule".format(format_cp(a.cp), format_cp(b.cp)))
            elif b.when and not when_rule:
''', '''            if b.when and when_rule:
                if b.when != when_rule:
                    logger.warning("Could not achieve rule symmetry for variant '%s' of code point '%s' as it already "
                                   "has a when rule", format_cp(a.cp), format_cp(b.cp))
            elif b.when:
''')),
 r('p_trans', P, ('''            for c in [var for var in lgr.get_variants(b.cp) if var.cp != a.cp]:
                # Iterate through all second-level variants
                # which are not the original code point
                if c.cp not in [var.cp for var in a.get_variants()]:
''', '''            for c in [var for var in lgr.get_variants(b.cp)]:
                # Iterate through all second-level variants
                # which are not the original code point
                if c.cp == a.cp:
                    continue
                if c.cp not in {var.cp for var in a.get_variants()}:
''')),
 r('p_trans_any', P, ('''                if c.cp not in [var.cp for var in a.get_variants()]:
''', '''                if not any(var.cp == c.cp for var in a.get_variants()):
''')),
 r('p_trans_all', P, ('''                if c.cp not in [var.cp for var in a.get_variants()]:
''', '''                if all(c.cp != var.cp for var in a.get_variants()):
''')),
 r('v_next', V, ('''    def get_not_when_type(self) -> str:
        for v in self.get_vars():
            if v.not_when:
                return v.type
        return ''
''', '''    def get_not_when_type(self) -> str:
        return next((v.type for v in self.get_vars() if v.not_when), '')
''')),
 r('v_cond', V, ('''        for v in self.get_vars():
            if not v.when and not v.not_when:
                return v.type
        return ''
''', '''        for v in self.get_vars():
            if v.when or v.not_when:
                continue
            return v.type
        return ''
''')),
 r('v_helper', V, ('''    def get_rev_when_type(self) -> str:
        for v in self.get_rev_vars():
            if v.when:
                return v.type
        return ''
''', '''    @staticmethod
    def _first_type(variants, test):
        for v in variants:
            if test(v):
                return v.type
        return ''

    def get_rev_when_type(self) -> str:
        return self._first_type(self.get_rev_vars(), lambda v: v.when)
''')),
 r('v_sym', V, ('''        if self.idn_var_data.has_variant() and self.ref_var_data.has_variant():
            return (self.idn_var_data.get_types() == self.idn_var_data.get_rev_types() and
                    self.ref_var_data.get_types() == self.ref_var_data.get_rev_types())
        if self.idn_var_data.has_variant():
            return self.idn_var_data.get_types() == self.idn_var_data.get_rev_types()
        if self.ref_var_data.has_variant():
            return self.ref_var_data.get_types() == self.ref_var_data.get_rev_types()

        return None  # should not happen
''', '''        idn_symmetric = self.idn_var_data.get_types() == self.idn_var_data.get_rev_types()
        ref_symmetric = self.ref_var_data.get_types() == self.ref_var_data.get_rev_types()
        if self.idn_var_data.has_variant() and self.ref_var_data.has_variant():
            return idn_symmetric and ref_symmetric
        if self.idn_var_data.has_variant():
            return idn_symmetric
        if self.ref_var_data.has_variant():
            return ref_symmetric
        return None
''')),
 r('v_sym2', V, ('''        if self.idn_var_data.has_variant() and self.ref_var_data.has_variant():
            return (self.idn_var_data.get_types() == self.idn_var_data.get_rev_types() and
                    self.ref_var_data.get_types() == self.ref_var_data.get_rev_types())
        if self.idn_var_data.has_variant():
            return self.idn_var_data.get_types() == self.idn_var_data.get_rev_types()
        if self.ref_var_data.has_variant():
            return self.ref_var_data.get_types() == self.ref_var_data.get_rev_types()

        return None  # should not happen
''', '''        to_check = [d for d in (self.idn_var_data, self.ref_var_data) if d.has_variant()]
        if not to_check:
            return None
        return all(d.get_types() == d.get_rev_types() for d in to_check)
''')),
 r('v_same', V, ('''        if direction == self.Direction.FORWARD:
            return self.idn_var_data.get_types() == self.ref_var_data.get_types()
        else:
            return self.idn_var_data.get_rev_types() == self.ref_var_data.get_rev_types()
''', '''        if direction == self.Direction.FORWARD:
            idn_types, ref_types = self.idn_var_data.get_types(), self.ref_var_data.get_types()
        else:
            idn_types, ref_types = self.idn_var_data.get_rev_types(), self.ref_var_data.get_rev_types()
        return idn_types == ref_types
''')),
 r('v_rules_fn', V, ('''        if direction == self.Direction.FORWARD:
            idn_wle = {
                'when': self.idn_var_data.get_when(),
                'not-when': self.idn_var_data.get_not_when()
            }
            ref_wle = {
                'when': self.ref_var_data.get_when(),
                'not-when': self.ref_var_data.get_not_when()
            }
        else:
            idn_wle = {
                'when': self.idn_var_data.get_rev_when(),
                'not-when': self.idn_var_data.get_rev_not_when()
            }
            ref_wle = {
                'when': self.ref_var_data.get_rev_when(),
                'not-when': self.ref_var_data.get_rev_not_when()
            }
''', '''        def get_wle(data):
            if direction == self.Direction.FORWARD:
                return {'when': data.get_when(), 'not-when': data.get_not_when()}
            return {'when': data.get_rev_when(), 'not-when': data.get_rev_not_when()}

        idn_wle = get_wle(self.idn_var_data)
        ref_wle = get_wle(self.ref_var_data)
''')),
 r('v_rules_tuple', V, ('''        if idn_wle == ref_wle:
            return self.IdnRuleCheck.MATCH
        # check multiple when/not-when
        if (idn_wle['when'] and idn_wle['not-when']) or (ref_wle['when'] and ref_wle['not-when']):
            return self.IdnRuleCheck.DIFFERENT
        if (idn_wle['when'] or idn_wle['not-when']) and not ref_wle['when'] and not ref_wle['not-when']:
            return self.IdnRuleCheck.LESS_CONSERVATIVE
''', '''        idn_when, idn_not_when = idn_wle['when'], idn_wle['not-when']
        ref_when, ref_not_when = ref_wle['when'], ref_wle['not-when']
        if idn_when == ref_when and idn_not_when == ref_not_when:
            return self.IdnRuleCheck.MATCH
        # check multiple when/not-when
        if (idn_when and idn_not_when) or (ref_when and ref_not_when):
            return self.IdnRuleCheck.DIFFERENT
        if (idn_when or idn_not_when) and not (ref_when or ref_not_when):
            return self.IdnRuleCheck.LESS_CONSERVATIVE
''')),
 r('v_type_else', V, ('''                if self.VARIANT_TYPES_ORDER.index(idn_type[r]) < self.VARIANT_TYPES_ORDER.index(ref_type[r]):
                    new_result = self.IdnTypeCheck.LESS_CONSERVATIVE
                else:
                    new_result = self.IdnTypeCheck.MORE_CONSERVATIVE
''', '''                idn_rank = self.VARIANT_TYPES_ORDER.index(idn_type[r])
                ref_rank = self.VARIANT_TYPES_ORDER.index(ref_type[r])
                new_result = (self.IdnTypeCheck.LESS_CONSERVATIVE if idn_rank < ref_rank
                              else self.IdnTypeCheck.MORE_CONSERVATIVE)
''')),
 r('v_type_in', V, ('''            if idn_type[r] == '' or ref_type[r] == '':
''', '''            if '' in (idn_type[r], ref_type[r]):
''')),
 r('v_type_loop', V, ('''        for r in ['when', 'not-when', 'none']:
            if''', '''        for r in idn_type:
            if''')),
 r('u_cp_strip', U, ('''    if len(s) == 1:
        # unicode char
        return ord(s)
    else:
        if s[:2].upper() == 'U+':
            # U+XXXX
            v = int(s[2:], 16)
        else:
            v = int(s, 16)

        # check bounds
        if v < 0 or v > 0x10FFFF:
            raise ValueError("code point value must be in the range [0, U+10FFFF]")

        return v
''', '''    if len(s) == 1:
        # unicode char
        return ord(s)
    digits = s[2:] if s[:2].upper() == 'U+' else s
    v = int(digits, 16)
    # check bounds
    if not 0 <= v <= 0x10FFFF:
        raise ValueError("code point value must be in the range [0, U+10FFFF]")
    return v
''')),
 r('u_cp_starts', U, ('''        if s[:2].upper() == 'U+':
''', '''        if s.upper().startswith('U+'):
''')),
 r('u_cp_maxuni', U, ('''        if v < 0 or v > 0x10FFFF:
''', '''        if not (0 <= v <= sys.maxunicode):
''')),
 r('u_cpi', U, ('''    return [parse_single_cp_input(x) for x in s.split()]
''', '''    return list(map(parse_single_cp_input, s.split()))
''')),
 r('u_lab_lower', U, ('''    if s.lower().startswith('xn--'):
        if as_cp:
            return [ord(c) for c in idna_decoder(s.lower())]
        else:
            return idna_decoder(s.lower())
''', '''    lowered = s.lower()
    if lowered.startswith('xn--'):
        decoded = idna_decoder(lowered)
        return [ord(c) for c in decoded] if as_cp else decoded
''')),
 r('u_lab_fn', U, ('''    # treat as unicode
    if as_cp:
        return [ord(c) for c in s]
    else:
        return s


def merge_lgrs''', '''    # treat as unicode
    return _from_unicode(s, as_cp)


def _from_unicode(s, as_cp):
    if not as_cp:
        return s
    return [ord(c) for c in s]


def merge_lgrs'''), ('''        if as_cp:
            return [ord(c) for c in idna_decoder(s.lower())]
        else:
            return idna_decoder(s.lower())
''', '''        return _from_unicode(idna_decoder(s.lower()), as_cp)
''')),
 r('u_lab_try', U, ('''            if ' ' not in s:
                raise

            if not keep_spaces:
                raise ValueError("Label '{}' contains spaces "
                                 "that are not PVALID for IDNA2008".format(s))
        else:
            if as_cp:
                return label_cp
            else:
                return cp_to_ulabel(label_cp)
''', '''            if ' ' not in s:
                raise
            if not keep_spaces:
                raise ValueError(f"Label '{s}' contains spaces that are not PVALID for IDNA2008")
        else:
            return label_cp if as_cp else cp_to_ulabel(label_cp)
''')),
 r('u_pli', U, ('''    parsed_label = ''
    valid = True
    exception = None
    try:
        parsed_label = _parse_label_input(s, idna_decoder, as_cp, keep_spaces)
    except BaseException as ex:
        if do_raise:
            raise
        try:
            parsed_label = [ord(c) for c in s] if as_cp else s
        except:
            pass
        valid = False
        exception = ex
    return parsed_label, valid, exception
''', '''    try:
        return _parse_label_input(s, idna_decoder, as_cp, keep_spaces), True, None
    except BaseException as ex:
        if do_raise:
            raise
        parsed_label = ''
        try:
            parsed_label = [ord(c) for c in s] if as_cp else s
        except:
            pass
        return parsed_label, False, ex
''')),
 r('u_merge', U, ('''    if not name:
        name = 'merged-lgr-set'

    merged_lgr = merge_lgr_set(lgr_set, name)
''', '''    merged_lgr = merge_lgr_set(lgr_set, name or 'merged-lgr-set')
''')),
 r('u_script', U, ('''        for character in label[1:]:
            if unidb.get_script(character, alpha4=True) in ['Hira', 'Kana']:
                script = 'Jpan'
                break
''', '''        if any(unidb.get_script(character, alpha4=True) in ('Hira', 'Kana') for character in label[1:]):
            script = 'Jpan'
''')),
 r('u_script_const', U, ('''    elif script in [COMMON_SCRIPT, INHERITED_SCRIPT]:
''', '''    elif script == COMMON_SCRIPT or script == INHERITED_SCRIPT:
'''), ('''            if script not in [COMMON_SCRIPT, INHERITED_SCRIPT]:
                break
''', '''            if script not in {COMMON_SCRIPT, INHERITED_SCRIPT}:
                break
''')),
 r('u_script_fn', U, ('''    if script in ['Hira', 'Kana']:
        script = 'Jpan'
    elif script == 'Hang':
        script = 'Kore'

    return f'und-{script}'
''', '''    return 'und-' + {'Hira': 'Jpan', 'Kana': 'Jpan', 'Hang': 'Kore'}.get(script, script)
''')),
]
