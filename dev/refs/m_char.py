P = 'lgr/char.py'
REFS = [
 ('char_iter_flag', [(P, 'Repertoire.__iter__', '''
    def __iter__(self):
        range_end = None
        for index in sorted(self._chardict):
            if range_end is not None and index > range_end:
                range_end = None
            for char in sorted(self._chardict[index], key=len):
                if not isinstance(char, RangeChar):
                    yield char
                elif range_end is None:
                    range_end = char.last_cp
                    yield char
''')]),
 ('char_contains', [(P, 'Repertoire.__contains__', '''
    def __contains__(self, k):
        if isinstance(k, CharBase):
            cp, index = k.cp, k.as_index()
        elif isinstance(k, int):
            cp, index = (k,), k
        else:
            cp, index = tuple(k), _to_index(k)
        if index not in self._chardict:
            return False
        return any(c.cp == cp for c in self._chardict[index])
''')]),
 ('char_contains2', [(P, None, [('''        return cp in [c.cp for c in set(self._chardict[k])]
''', '''        for candidate in self._chardict[k]:
            if candidate.cp == cp:
                return True
        return False
''')])]),
 ('char_all_rep', [(P, 'Repertoire.all_repertoire', '''
    def all_repertoire(self, include_sequences=True, include_ranges=True):
        for char_list in self._chardict.values():
            for char in char_list:
                is_sequence = isinstance(char, CharSequence)
                is_range = isinstance(char, RangeChar)
                if (include_sequences or not is_sequence) and (include_ranges or not is_range):
                    yield char
''')]),
 ('char_all_rep2', [(P, 'Repertoire.all_repertoire', '''
    def all_repertoire(self, include_sequences=True, include_ranges=True):
        def _is_wanted(char):
            if isinstance(char, CharSequence):
                return include_sequences
            if isinstance(char, RangeChar):
                return include_ranges
            return True

        for char_list in self._chardict.values():
            for char in filter(_is_wanted, char_list):
                yield char
''')]),
 ('char_all_rep3', [(P, 'Repertoire.all_repertoire', '''
    def all_repertoire(self, include_sequences=True, include_ranges=True):
        excluded = ()
        if not include_sequences:
            excluded += (CharSequence,)
        if not include_ranges:
            excluded += (RangeChar,)
        for char_list in self._chardict.values():
            for char in char_list:
                if not isinstance(char, excluded):
                    yield char
''')]),
 ('char_getchar', [(P, 'Repertoire.get_char', '''
    def get_char(self, cp_or_sequence):
        assert len(cp_or_sequence), "there should be at least one char"
        origin = CharBase.from_cp_or_sequence(cp_or_sequence)
        idx = origin.as_index()
        if idx not in self._chardict:
            raise NotInLGR(cp_or_sequence)
        for char in self._chardict[idx]:
            if char == origin:
                return char
        logger.error("Code point '%s' does not exist", format_cp(cp_or_sequence))
        raise NotInLGR(cp_or_sequence)
''')]),
 ('char_getchar2', [(P, 'Repertoire.get_char', '''
    def get_char(self, cp_or_sequence):
        assert len(cp_or_sequence), "there should be at least one char"
        origin = CharBase.from_cp_or_sequence(cp_or_sequence)
        try:
            chars = self._chardict[origin.as_index()]
        except KeyError:
            raise NotInLGR(cp_or_sequence)
        try:
            return chars[chars.index(origin)]
        except ValueError:
            logger.error("Code point '%s' does not exist", format_cp(cp_or_sequence))
            raise NotInLGR(cp_or_sequence)
''')]),
 ('char_addvar', [(P, 'CharBase.add_variant', '''
    def add_variant(self, cp_or_sequence, variant_type=None, when=None, not_when=None, comment=None, ref=None):
        assert len(cp_or_sequence), "there should be at least one char"
        var = Variant(cp_or_sequence, variant_type=variant_type,
                      when=when, not_when=not_when,
                      comment=comment, ref=ref)
        existing = self._variants.setdefault(tuple(cp_or_sequence), [])
        if var in existing:
            logger.error("%r: Variant '%s' already exists", self, format_cp(cp_or_sequence))
            raise VariantAlreadyExists(self.cp, var.cp)
        existing.append(var)
''')]),
 ('char_addvar2', [(P, 'CharBase.add_variant', '''
    def add_variant(self, cp_or_sequence, variant_type=None, when=None, not_when=None, comment=None, ref=None):
        assert len(cp_or_sequence), "there should be at least one char"
        var = Variant(cp_or_sequence, variant_type, when, not_when, comment, ref)
        if self._has_same_variant(var):
            logger.error("%r: Variant '%s' already exists", self, format_cp(cp_or_sequence))
            raise VariantAlreadyExists(self.cp, var.cp)
        self._variants.setdefault(var.cp, []).append(var)

    def _has_same_variant(self, var):
        return var in self._variants.get(var.cp, [])
''')]),
 ('char_delvar', [(P, 'CharBase.del_variant', '''
    def del_variant(self, cp_or_sequence, when=None, not_when=None):
        assert len(cp_or_sequence), "there should be at least one char"
        var = Variant(cp_or_sequence, when=when, not_when=not_when)
        variants = self._variants.get(var.cp)
        if variants is None or var not in variants:
            return False
        variants.remove(var)
        if not variants:
            del self._variants[var.cp]
        return True
''')]),
 ('char_delvar2', [(P, 'CharBase.del_variant', '''
    def del_variant(self, cp_or_sequence, when=None, not_when=None):
        assert len(cp_or_sequence), "there should be at least one char"
        idx = tuple(cp_or_sequence)
        var = Variant(cp_or_sequence, when=when, not_when=not_when)
        if idx not in self._variants or var not in self._variants[idx]:
            return False

        self._variants[idx].remove(var)
        if not self._variants[idx]:
            self._variants.pop(idx)
        return True
''')]),
 ('char_prefix', [(P, 'CharBase.is_prefix_of', '''
    def is_prefix_of(self, cp_sequence):
        n = len(self.cp)
        return tuple(cp_sequence[:n]) == self.cp
''')]),
 ('char_prefix2', [(P, 'CharBase.is_prefix_of', '''
    def is_prefix_of(self, cp_sequence):
        if len(cp_sequence) < len(self.cp):
            return False
        return all(a == b for a, b in zip(self.cp, cp_sequence))
''')]),
 ('char_getvariants', [(P, 'CharBase.get_variants', '''
    def get_variants(self):
        for _, variants in sorted(self._variants.items(), key=lambda item: item[0]):
            for var in variants:
                yield var
''')]),
 ('char_getvariants2', [(P, 'CharBase.get_variants', '''
    def get_variants(self):
        for variant_cp in sorted(self._variants):
            yield from self._variants[variant_cp]
''')]),
 ('char_from_cp', [(P, 'CharBase.from_cp_or_sequence', '''
    @staticmethod
    def from_cp_or_sequence(cp_or_sequence, *args, **kwargs):
        if isinstance(cp_or_sequence, int):
            return Char(cp_or_sequence, *args, **kwargs)
        if len(cp_or_sequence) > 1:
            return CharSequence(cp_or_sequence, *args, **kwargs)
        return Char(cp_or_sequence[0], *args, **kwargs)
''')]),
 ('char_to_index', [(P, '_to_index', '''
def _to_index(i):
    return i if isinstance(i, int) else i[0]
''')]),
 ('char_add_range', [(P, 'Repertoire.add_range', '''
    def add_range(self, first_cp, last_cp, comment=None, ref=None, tag=None, when=None, not_when=None, skip_check=False):
        assert first_cp < last_cp, "range must be defined in order"
        overlapping = False if skip_check else self._check_range_overlap(first_cp, last_cp)
        if overlapping:
            logger.error("Range '%s - %s' already exists", format_cp(first_cp), format_cp(last_cp))
            raise RangeAlreadyExists(first_cp, last_cp)
        options = dict(comment=comment, ref=ref, tag=tag, when=when, not_when=not_when)
        for cp in range(first_cp, last_cp + 1):
            self._add_char(RangeChar(cp, first_cp, last_cp, **options))
        self.ranges.append((first_cp, last_cp))
''')]),
 ('char_del_range', [(P, 'Repertoire.del_range', '''
    def del_range(self, first_cp, last_cp):
        assert first_cp < last_cp, "range must be defined in order"
        bounds = (first_cp, last_cp)
        if bounds not in self.ranges:
            logger.error("Range '%s - %s' does not exist", format_cp(first_cp), format_cp(last_cp))
            raise NotInLGR(first_cp)
        for cp in range(first_cp, last_cp + 1):
            if self._del_char(RangeChar(cp, first_cp, last_cp)):
                continue
            logger.critical("Range '%s - %s' is missing code point %s", format_cp(first_cp), format_cp(last_cp), format_cp(cp))
            raise NotInLGR(cp)
        self.ranges.remove(bounds)
''')]),
 ('char_overlap', [(P, 'Repertoire._check_range_overlap', '''
    def _check_range_overlap(self, first_cp, last_cp):
        self.ranges.sort()
        return any(first_cp <= range_last and last_cp >= range_first
                   for range_first, range_last in self.ranges)
''')]),
 ('char_overlap3', [(P, 'Repertoire._check_range_overlap', '''
    def _check_range_overlap(self, first_cp, last_cp):
        self.ranges.sort()
        for other in self.ranges:
            disjoint = first_cp > other[1] or last_cp < other[0]
            if not disjoint:
                return True
        return False
''')]),
 ('char_prefixchars', [(P, 'Repertoire.get_chars_from_prefix', '''
    def get_chars_from_prefix(self, cp, only_variants=False):
        if cp not in self._chardict:
            raise NotInLGR(cp)
        chars = self._chardict[cp]
        if only_variants:
            chars = [c for c in chars if c.has_variant()]
        return sorted(chars, key=len, reverse=True)
''')]),
 ('char_prefixchars2', [(P, 'Repertoire.get_chars_from_prefix', '''
    def get_chars_from_prefix(self, cp, only_variants=False):
        chars = self._chardict.get(cp)
        if chars is None:
            raise NotInLGR(cp)
        selected = []
        for char in chars:
            if only_variants and not char.has_variant():
                continue
            selected.append(char)
        selected.sort(key=lambda c: len(c), reverse=True)
        return selected
''')]),
 ('char_delref', [(P, 'Repertoire.del_reference', '''
    def del_reference(self, ref_id):
        def _without(references):
            return [ref for ref in references if str(ref) != str(ref_id)]

        for cp_list in self._chardict.values():
            for char in cp_list:
                char.references = _without(char.references)
                for variant in char.get_variants():
                    variant.references = _without(variant.references)
''')]),
 ('char_delref2', [(P, 'Repertoire.del_reference', '''
    def del_reference(self, ref_id):
        removed = str(ref_id)
        for char in self.all_repertoire():
            char.references = [ref for ref in char.references if str(ref) != removed]
            for variant in char.get_variants():
                variant.references = [ref for ref in variant.references if str(ref) != removed]
''')]),
 ('char_deltag', [(P, 'Repertoire.del_tag', '''
    def del_tag(self, tag_id):
        for char in self.all_repertoire():
            if tag_id in char.tags:
                char.tags.remove(tag_id)
''')]),
 ('char_addchar', [(P, 'Repertoire._add_char', '''
    def _add_char(self, char):
        siblings = self._chardict.setdefault(char.as_index(), [])
        if char in siblings:
            logger.error("Char '%s' already exists", char)
            raise CharAlreadyExists(char.cp)
        siblings.append(char)
''')]),
 ('char_addchar2', [(P, 'Repertoire._add_char', '''
    def _add_char(self, char):
        idx = char.as_index()
        known = idx in self._chardict and char in self._chardict[idx]
        if known:
            logger.error("Char '%s' already exists", char)
            raise CharAlreadyExists(char.cp)
        if idx not in self._chardict:
            self._chardict[idx] = []
        self._chardict[idx].append(char)
''')]),
 ('char_delchar', [(P, 'Repertoire._del_char', '''
    def _del_char(self, char):
        idx = char.as_index()
        if idx not in self._chardict or char not in self._chardict[idx]:
            return False
        chars = self._chardict[idx]
        chars.remove(char)
        if not chars:
            del self._chardict[idx]
        return True
''')]),
 ('char_varsets', [(P, 'Repertoire.get_variant_sets', '''
    def get_variant_sets(self, force=False):
        def dfs(char, visited):
            visited.add(char.cp)
            for variant in char.get_variants():
                if variant.cp in visited:
                    continue
                try:
                    next_char = self.get_char(variant.cp)
                except NotInLGR:
                    if not force:
                        continue
                    next_char = CharBase(variant.cp)
                dfs(next_char, visited)
            return visited

        variant_sets = set()
        for index in sorted(self._chardict.keys()):
            for char in self._chardict[index]:
                variant_set = tuple(sorted(dfs(char, set())))
                if len(variant_set) > 1:
                    variant_sets.add((min(variant_set), variant_set))
        return [variants for _, variants in sorted(variant_sets)]
''')]),
 ('char_len', [(P, 'Repertoire.__len__', '''
    def __len__(self):
        total = 0
        for chars in self._chardict.values():
            total += len(chars)
        return total
''')]),
 ('char_len2', [(P, 'Repertoire.__len__', '''
    def __len__(self):
        return sum(map(len, self._chardict.values()))
''')]),
 ('char_eq', [(P, 'Variant.__eq__', '''
    def __eq__(self, other):
        return (self.cp, self.when, self.not_when) == (other.cp, other.when, other.not_when)
''')]),
 ('char_hash', [(P, 'Variant.__hash__', '''
    def __hash__(self):
        return hash((self.cp, self.when, self.not_when))
''')]),
]
