# Reference behaviour of lgr.rule (parsed by the checks, never executed).
from __future__ import unicode_literals
import re
import logging
import io
from picu.exceptions import PICUException
from lgr.utils import format_cp, cp_to_ulabel
from lgr.exceptions import LGRFormatException, RuleError


class Rule(object):

    def __init__(self, name=None, comment=None, ref=None, by_ref=None):
        self.name = name
        self.comment = comment
        self.references = ref or []
        self.by_ref = by_ref
        self.children = []
        self._pattern_cache = {}
        if name is not None and by_ref is not None:
            raise LGRFormatException(LGRFormatException.LGRFormatReason.BY_REF_AND_OTHER)

    def iter_children(self):
        return iter(self.children)

    def can_add_child(self):
        return True

    def add_child(self, child):
        if self.by_ref is not None:
            raise LGRFormatException(LGRFormatException.LGRFormatReason.BY_REF_AND_OTHER)
        self.children.append(child)

    def get_pattern(self, rules_lookup, classes_lookup, unicode_database, is_look_behind=False):
        cache_key = (id(rules_lookup), id(classes_lookup), id(unicode_database), is_look_behind)
        if cache_key in self._pattern_cache:
            return self._pattern_cache[cache_key]
        if self.by_ref is not None:
            if self.by_ref not in rules_lookup:
                raise RuleError(self, "%s cannot reference inexisting rule '%s'" % (self, self.by_ref))
            return rules_lookup[self.by_ref].get_pattern(rules_lookup, classes_lookup, unicode_database, is_look_behind)
        pattern_io = io.StringIO()
        for m in self.children:
            pattern_io.write(m.get_pattern(rules_lookup, classes_lookup, unicode_database, is_look_behind))
        self._pattern_cache[cache_key] = pattern_io.getvalue()
        return pattern_io.getvalue()

    def precalculate_patterns(self, rules_lookup, classes_lookup, unicode_database):
        for is_look_behind in [True, False]:
            self.get_pattern(rules_lookup, classes_lookup, unicode_database, is_look_behind)
        for child in self.children:
            if isinstance(child, Rule):
                child.precalculate_patterns(rules_lookup, classes_lookup, unicode_database)

    def matches(self, label, rules_lookup, classes_lookup, unicode_database, anchor=None, index=0):
        try:
            pattern = self.get_pattern(rules_lookup, classes_lookup, unicode_database)
        except (re.error, PICUException) as re_exc:
            raise RuleError(self.name, re_exc)
        if len(pattern) == 0:
            return False
        if anchor is not None:
            if '%(anchor)s' not in pattern:
                index = 0
                anchor = None
            else:
                pattern = pattern % {'anchor': ''.join(map(lambda c: '\\x{{{:X}}}'.format(c), anchor))}
        try:
            regex = unicode_database.compile_regex(pattern)
        except (re.error, PICUException) as re_exc:
            raise RuleError(self.name, re_exc)
        label_u = cp_to_ulabel(label)
        result = regex.search(label_u, index=index)
        if result is None:
            return False
        if anchor is not None:
            match_index = result.start()
            if match_index > index:
                return False
        return True

    def validate(self, parents, rules_lookup, classes_lookup):
        if self.by_ref is not None:
            if self.by_ref not in rules_lookup:
                raise LGRFormatException(LGRFormatException.LGRFormatReason.INVALID_BY_REF)
        is_top_level = len(parents) == 0
        if is_top_level and self.name is None or (not is_top_level and self.name is not None):
            raise LGRFormatException(LGRFormatException.LGRFormatReason.INVALID_TOP_LEVEL_NAME)
        for child in self.children:
            child.validate(parents + [self], rules_lookup, classes_lookup)

    def __repr__(self):
        if self.name is None:
            return '<Anonymous rule>'
        else:
            return '<Rule: %s>' % self.name

    def __str__(self):
        if self.by_ref is not None:
            return '(:rule-ref-{}:)'.format(self.by_ref)
        return ' '.join(('{}'.format(m) for m in self.children))
