# Reference behaviour of lgr.char (parsed by the checks, never executed).
from __future__ import unicode_literals
import logging
from lgr import text_type
from lgr.exceptions import CharAlreadyExists, NotInLGR, RangeAlreadyExists, LGRFormatException, VariantAlreadyExists
from lgr.utils import cp_to_str, format_cp, cp_to_ulabel


def _to_index(i):
    if isinstance(i, int):
        index = i
    else:
        index = i[0]
    return index


class Variant(object):

    def __init__(self, cp_or_sequence, variant_type=None, when=None, not_when=None, comment=None, ref=None):
        self.cp = tuple(cp_or_sequence)
        self.type = variant_type
        self.when = when
        self.not_when = not_when
        self.comment = comment
        self.references = ref if ref is not None else []

    def __unicode__(self):
        return cp_to_ulabel(self.cp)
    __str__ = __unicode__

    def __repr__(self):
        return '<Variant: %s>' % ' '.join((cp_to_str(c) for c in self.cp))

    def __eq__(self, other):
        return self.cp == other.cp and self.when == other.when and (self.not_when == other.not_when)

    def __hash__(self):
        return hash(self.cp) + hash(self.when) + hash(self.not_when)


class CharBase(object):

    def __init__(self, cp_or_sequence, comment=None, ref=None, tag=None, when=None, not_when=None):
        assert len(cp_or_sequence), 'there should be at least one char'
        self.cp = tuple(cp_or_sequence)
        self.comment = comment
        self.references = ref if ref is not None else []
        self.tags = tag if tag is not None else []
        self.when = when
        self.not_when = not_when
        self._variants = {}

    def as_index(self):
        return _to_index(self.cp)

    def add_variant(self, cp_or_sequence, variant_type=None, when=None, not_when=None, comment=None, ref=None):
        assert len(cp_or_sequence), 'there should be at least one char'
        var = Variant(cp_or_sequence, variant_type=variant_type, when=when, not_when=not_when, comment=comment, ref=ref)
        idx = tuple(cp_or_sequence)
        if idx in self._variants and var in set(self._variants[idx]):
            raise VariantAlreadyExists(self.cp, var.cp)
        else:
            self._variants.setdefault(idx, []).append(var)

    def del_variant(self, cp_or_sequence, when=None, not_when=None):
        assert len(cp_or_sequence), 'there should be at least one char'
        var = Variant(cp_or_sequence, when=when, not_when=not_when)
        idx = tuple(cp_or_sequence)
        if idx in self._variants and var in set(self._variants[idx]):
            self._variants[idx].remove(var)
            if len(self._variants[idx]) == 0:
                del self._variants[idx]
            return True
        else:
            return False

    def __eq__(self, other):
        return self.cp == other.cp

    def __hash__(self):
        return hash(self.cp)

    def __unicode__(self):
        return cp_to_ulabel(self.cp)
    __str__ = __unicode__

    def __repr__(self):
        return '<%s: %s>' % (self.__class__.__name__, ' '.join((cp_to_str(c) for c in self.cp)))

    def __len__(self):
        return len(self.cp)

    def has_variant(self):
        return len(self._variants) > 0

    def is_prefix_of(self, cp_sequence):
        return len(cp_sequence) >= len(self.cp) and list(self.cp) == list(cp_sequence[:len(self)])

    def get_variants(self):
        for variant_cp in sorted(self._variants):
            variants = self._variants[variant_cp]
            for var in variants:
                yield var

    def get_variant(self, var_cp):
        return self._variants.get(var_cp, None)

    def get_reflexive_variants(self):
        return self._variants.get(self.cp, [])

    @staticmethod
    def from_cp_or_sequence(cp_or_sequence, *args, **kwargs):
        cls = Char
        cp_value = cp_or_sequence
        if not isinstance(cp_or_sequence, int):
            if len(cp_or_sequence) > 1:
                cls = CharSequence
            else:
                cp_value = cp_or_sequence[0]
        char = cls(cp_value, *args, **kwargs)
        return char


class Char(CharBase):

    def __init__(self, cp, *args, **kwargs):
        super(Char, self).__init__((cp,), *args, **kwargs)


class RangeChar(Char):

    def __init__(self, cp, first_cp, last_cp, *args, **kwargs):
        super(RangeChar, self).__init__(cp, *args, **kwargs)
        self.first_cp = first_cp
        self.last_cp = last_cp

    def add_variant(self, *args, **kwargs):
        raise LGRFormatException(LGRFormatException.LGRFormatReason.RANGE_NO_CHILD)

    def del_variant(self, *args, **kwargs):
        raise LGRFormatException(LGRFormatException.LGRFormatReason.RANGE_NO_CHILD)

    def __repr__(self):
        return '<RangeChar: %s (%s - %s)>' % (' '.join((cp_to_str(c) for c in self.cp)), cp_to_str(self.first_cp), cp_to_str(self.last_cp))


class CharSequence(CharBase):
    pass


class Repertoire(object):

    def __init__(self):
        self.ranges = []
        self._chardict = dict()

    def __contains__(self, k):
        if isinstance(k, CharBase):
            cp = k.cp
            k = k.as_index()
        elif isinstance(k, int):
            cp = (k,)
            k = _to_index(k)
        else:
            cp = tuple(k)
            k = _to_index(k)
        if k not in self._chardict:
            return False
        return cp in [c.cp for c in set(self._chardict[k])]

    def __getitem__(self, k):
        if isinstance(k, CharBase):
            k = k.cp
        elif isinstance(k, int):
            k = (k,)
        return self.get_char(k)

    def __iter__(self):
        last_cp = None
        for index in sorted(self._chardict.keys()):
            char_list = self._chardict[index]
            if last_cp is not None and last_cp < index:
                last_cp = None
            for char in sorted(char_list, key=lambda c: len(c.cp)):
                if isinstance(char, RangeChar):
                    if last_cp is not None:
                        continue
                    else:
                        last_cp = char.last_cp
                yield char

    def all_repertoire(self, include_sequences=True, include_ranges=True):
        for char_list in self._chardict.values():
            for char in char_list:
                if isinstance(char, CharSequence) and (not include_sequences):
                    continue
                if isinstance(char, RangeChar) and (not include_ranges):
                    continue
                yield char

    def __len__(self):
        return sum((len(c) for c in self._chardict.values()))

    def add_char(self, cp_or_sequence, comment=None, ref=None, tag=None, when=None, not_when=None):
        assert len(cp_or_sequence), 'there should be at least one char'
        char = CharBase.from_cp_or_sequence(cp_or_sequence, comment, ref, tag, when, not_when)
        self._add_char(char)
        return char

    def del_char(self, cp_or_sequence):
        assert len(cp_or_sequence), 'there should be at least one char'
        char = CharBase.from_cp_or_sequence(cp_or_sequence)
        if not self._del_char(char):
            raise NotInLGR(cp_or_sequence)

    def add_range(self, first_cp, last_cp, comment=None, ref=None, tag=None, when=None, not_when=None, skip_check=False):
        assert first_cp < last_cp, 'range must be defined in order'
        if not skip_check and self._check_range_overlap(first_cp, last_cp):
            raise RangeAlreadyExists(first_cp, last_cp)
        for cp in range(first_cp, last_cp + 1):
            char = RangeChar(cp, first_cp, last_cp, comment=comment, ref=ref, tag=tag, when=when, not_when=not_when)
            self._add_char(char)
        self.ranges.append((first_cp, last_cp))

    def del_range(self, first_cp, last_cp):
        assert first_cp < last_cp, 'range must be defined in order'
        if (first_cp, last_cp) not in self.ranges:
            raise NotInLGR(first_cp)
        for cp in range(first_cp, last_cp + 1):
            char = RangeChar(cp, first_cp, last_cp)
            if not self._del_char(char):
                raise NotInLGR(cp)
        self.ranges.remove((first_cp, last_cp))

    def get_char(self, cp_or_sequence):
        assert len(cp_or_sequence), 'there should be at least one char'
        origin = CharBase.from_cp_or_sequence(cp_or_sequence)
        idx = origin.as_index()
        if idx not in self._chardict:
            raise NotInLGR(cp_or_sequence)
        chars = self._chardict[idx]
        try:
            list_idx = chars.index(origin)
        except ValueError:
            raise NotInLGR(cp_or_sequence)
        char = chars[list_idx]
        return char

    def add_variant(self, cp_or_sequence, variant_cp_or_sequence, variant_type=None, when=None, not_when=None, comment=None, ref=None):
        char = self.get_char(cp_or_sequence)
        char.add_variant(variant_cp_or_sequence, variant_type=variant_type, when=when, not_when=not_when, comment=comment, ref=ref)

    def del_variant(self, cp_or_sequence, variant_cp_or_sequence, when=None, not_when=None):
        char = self.get_char(cp_or_sequence)
        return char.del_variant(variant_cp_or_sequence, when, not_when)

    def get_variants(self, cp_or_sequence):
        char = self.get_char(cp_or_sequence)
        return char.get_variants()

    def get_variant(self, cp_or_sequence, var_cp):
        char = self.get_char(cp_or_sequence)
        return char.get_variant(var_cp)

    def get_variant_sets(self, force=False):

        def dfs(char, visited=None):
            if visited is None:
                visited = set()
            visited.add(char.cp)
            for variant in char.get_variants():
                if variant.cp in visited:
                    continue
                try:
                    reverse_char = self.get_char(variant.cp)
                except NotInLGR:
                    if force:
                        dfs(CharBase(variant.cp), visited)
                    continue
                dfs(reverse_char, visited)
            return visited
        variant_sets = set()
        for index in sorted(self._chardict.keys()):
            for char in self._chardict[index]:
                variant_set = tuple(sorted(dfs(char)))
                if len(variant_set) > 1:
                    lowest = min(variant_set)
                    variant_sets.add((lowest, variant_set))
        return [variants for _, variants in sorted(variant_sets)]

    def del_reference(self, ref_id):
        for cp_list in self._chardict.values():
            for char in cp_list:
                char.references = [ref for ref in char.references if str(ref) != str(ref_id)]
                for variant in char.get_variants():
                    variant.references = [ref for ref in variant.references if str(ref) != str(ref_id)]

    def del_tag(self, tag_id):
        for cp_list in self._chardict.values():
            for char in cp_list:
                if tag_id in char.tags:
                    char.tags.remove(tag_id)

    def get_chars_from_prefix(self, cp, only_variants=False):
        if cp not in self._chardict:
            raise NotInLGR(cp)
        if not only_variants:
            iterable = self._chardict[cp]
        else:
            iterable = [v for v in self._chardict[cp] if v.has_variant()]
        return sorted(iterable, key=lambda x: len(x), reverse=True)

    def _check_range_overlap(self, first_cp, last_cp):
        self.ranges.sort()
        for range_first, range_last in self.ranges:
            if first_cp > range_last or last_cp < range_first:
                continue
            return True
        return False

    def _add_char(self, char):
        idx = char.as_index()
        if idx in self._chardict and char in set(self._chardict[idx]):
            raise CharAlreadyExists(char.cp)
        else:
            self._chardict.setdefault(idx, []).append(char)

    def _del_char(self, char):
        idx = char.as_index()
        if idx in self._chardict and char in set(self._chardict[idx]):
            self._chardict[idx].remove(char)
            if len(self._chardict[idx]) == 0:
                del self._chardict[idx]
            return True
        else:
            return False
