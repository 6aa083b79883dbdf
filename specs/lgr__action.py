# Reference behaviour of lgr.action (parsed by the checks, never executed).
import logging
from lgr.utils import format_cp
from lgr.exceptions import LGRFormatException


class Action(object):

    def __init__(self, disp, comment=None, ref=None, match=None, not_match=None, any_variant=None, all_variants=None, only_variants=None):
        self.disp = disp
        self.comment = comment
        self.references = ref or []
        self.match = match
        self.not_match = not_match
        self.any_variant = frozenset(any_variant) if any_variant else None
        self.all_variants = frozenset(all_variants) if all_variants else None
        self.only_variants = frozenset(only_variants) if only_variants else None
        if match is not None and not_match is not None:
            raise LGRFormatException(LGRFormatException.LGRFormatReason.MATCH_NOT_MATCH)

    def apply(self, label, disp_set, only_variants, rules_lookup, classes_lookup, unicode_database):
        rule_matched = True
        if self.match is not None:
            rule = rules_lookup[self.match]
            rule_matched = rule.matches(label, rules_lookup, classes_lookup, unicode_database)
        elif self.not_match is not None:
            rule = rules_lookup[self.not_match]
            rule_matched = not rule.matches(label, rules_lookup, classes_lookup, unicode_database)
        variant_matched = True
        if self.any_variant is not None:
            variant_matched = len(self.any_variant & disp_set) > 0
        elif self.all_variants is not None:
            variant_matched = len(disp_set) > 0 and disp_set.issubset(self.all_variants)
        elif self.only_variants is not None:
            variant_matched = only_variants and len(disp_set) > 0 and disp_set.issubset(self.only_variants)
        if rule_matched and variant_matched:
            return self.disp
        return None

    def __repr__(self):
        return '<Action: {}>'.format(self.comment or 'anon')

    def __eq__(self, other):
        return self.disp == other.disp and self.match == other.match and (self.not_match == other.not_match) and (self.any_variant == other.any_variant) and (self.all_variants == other.all_variants) and (self.only_variants == other.only_variants)

    def __hash__(self):
        return hash((self.disp, self.match, self.not_match, self.any_variant, self.all_variants, self.only_variants))
