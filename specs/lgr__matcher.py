# Reference behaviour of lgr.matcher (parsed by the checks, never executed).
from __future__ import unicode_literals
import logging
from lgr.exceptions import LGRFormatException
from lgr.utils import format_cp_collapsed
from lgr.core import PROTOCOL_LABEL_MAX_LENGTH


class Matcher(object):

    def __init__(self, comment=None):
        self.comment = comment

    def get_pattern(self, rules_lookup, classes_lookup, unicode_database, is_look_behind=False):
        raise NotImplementedError()

    def validate(self, parents, rules_lookup, classes_lookup):
        pass

    def iter_children(self):
        return iter([])

    def __repr__(self):
        return '<Matcher>'


class CompoundMatcher(Matcher):
    MAX_CHILDREN = None

    def __init__(self, comment=None):
        super(CompoundMatcher, self).__init__(comment)
        self._children = []

    def add_child(self, child):
        if self.MAX_CHILDREN is not None and len(self._children) >= self.MAX_CHILDREN:
            raise LGRFormatException(LGRFormatException.LGRFormatReason.INVALID_CHILDREN_NUMBER)
        self._children.append(child)

    def validate(self, parents, rules_lookup, classes_lookup):
        super(CompoundMatcher, self).validate(parents, rules_lookup, classes_lookup)
        for child in self._children:
            child.validate(parents + [self], rules_lookup, classes_lookup)

    def iter_children(self):
        return iter(self._children)

    def can_add_child(self):
        return self.MAX_CHILDREN and len(self._children) < self.MAX_CHILDREN


class StartMatcher(Matcher):
    MAX_CHILDREN = 0

    def get_pattern(self, rules_lookup, classes_lookup, unicode_database, is_look_behind=False):
        return '^'

    def __str__(self):
        return '(start)'

    def __repr__(self):
        return '<StartMatcher>'


class EndMatcher(Matcher):
    MAX_CHILDREN = 0

    def get_pattern(self, rules_lookup, classes_lookup, unicode_database, is_look_behind=False):
        return '$'

    def __str__(self):
        return '(end)'

    def __repr__(self):
        return '<EndMatcher>'


class AnchorMatcher(Matcher):
    MAX_CHILDREN = 0

    def get_pattern(self, rules_lookup, classes_lookup, unicode_database, is_look_behind=False):
        return '%(anchor)s'

    def __str__(self):
        return '⚓'

    def __repr__(self):
        return '<AnchorMatcher>'


class LookAroundMatcher(CompoundMatcher):
    pass


class LookAheadMatcher(LookAroundMatcher):

    def validate(self, parents, rules_lookup, classes_lookup):
        super(LookAheadMatcher, self).validate(parents, rules_lookup, classes_lookup)

    def get_pattern(self, rules_lookup, classes_lookup, unicode_database, is_look_behind=False):
        sub_regex = ''.join([m.get_pattern(rules_lookup, classes_lookup, unicode_database) for m in self._children])
        return '(?=%s)' % sub_regex

    def __str__(self):
        return '→({})'.format(''.join(('{}'.format(m) for m in self._children)))

    def __repr__(self):
        return '<LookAheadMatcher>'


class LookBehindMatcher(LookAroundMatcher):

    def validate(self, parents, rules_lookup, classes_lookup):
        super(LookBehindMatcher, self).validate(parents, rules_lookup, classes_lookup)

    def get_pattern(self, rules_lookup, classes_lookup, unicode_database, is_look_behind=False):
        sub_regex = ''.join([m.get_pattern(rules_lookup, classes_lookup, unicode_database, True) for m in self._children])
        return '(?<=%s)' % sub_regex

    def __str__(self):
        return '({})←'.format(''.join(('{}'.format(m) for m in self._children)))

    def __repr__(self):
        return '<LookBehindMatcher>'


class CountMatcher(Matcher):

    def __init__(self, comment=None, count=None):
        super(CountMatcher, self).__init__(comment)
        self.count = count

    def get_pattern(self, rules_lookup=None, classes_lookup=None, unicode_database=None, is_look_behind=False):
        if not self.count:
            return ''
        if ':' in self.count:
            min, max = self.count.split(':')
            return '{%s,%s}' % (min, max)
        elif self.count.endswith('+'):
            if is_look_behind:
                return '{%s,%s}' % (self.count[:-1], PROTOCOL_LABEL_MAX_LENGTH)
            else:
                return '{%s,}' % self.count[:-1]
        return '{%s}' % self.count


class ChoiceMatcher(CountMatcher, CompoundMatcher):

    def __init__(self, comment=None, count=None):
        super(ChoiceMatcher, self).__init__(comment, count)

    def validate(self, parents, rules_lookup, classes_lookup):
        CompoundMatcher.validate(self, parents, rules_lookup, classes_lookup)

    def get_pattern(self, rules_lookup, classes_lookup, unicode_database, is_look_behind=False):
        count = CountMatcher.get_pattern(self, is_look_behind=is_look_behind)
        choice = '(?:' + '(?:' + ')|(?:'.join([m.get_pattern(rules_lookup, classes_lookup, unicode_database, is_look_behind) for m in self._children]) + ')' + ')'
        if len(count) > 0:
            return '%s%s' % (choice, count)
        else:
            return choice

    def __str__(self):
        count = CountMatcher.get_pattern(self)
        return '({}){}'.format('|'.join(('{}'.format(m) for m in self._children)), count)

    def __repr__(self):
        count = super(ChoiceMatcher, self).get_pattern()
        return '<ChoiceMatcher %s>' % count


class AnyMatcher(CountMatcher):
    MAX_CHILDREN = 0

    def get_pattern(self, rules_lookup, classes_lookup, unicode_database, is_look_behind=False):
        count = super(AnyMatcher, self).get_pattern(is_look_behind=is_look_behind)
        return '.%s' % count

    def __str__(self):
        count = CountMatcher.get_pattern(self)
        return '(any){}'.format(count)

    def __repr__(self):
        count = super(AnyMatcher, self).get_pattern()
        return '<AnyMatcher: %s>' % count


class CharMatcher(CountMatcher):
    MAX_CHILDREN = 0

    def __init__(self, cp_or_sequence, comment=None, count=None, ref=None):
        super(CharMatcher, self).__init__(comment, count)
        self.cp_or_sequence = cp_or_sequence
        self.comment = comment
        self.references = ref

    def get_pattern(self, rules_lookup, classes_lookup, unicode_database, is_look_behind=False):
        count = super(CharMatcher, self).get_pattern(is_look_behind=is_look_behind)
        regex = ''.join(('\\x{%X}' % x for x in self.cp_or_sequence))
        if len(count) > 0:
            return '(%s)%s' % (regex, count)
        else:
            return regex

    def __str__(self):
        count = CountMatcher.get_pattern(self)
        if len(count) > 1:
            return '({}){}'.format(format_cp_collapsed(self.cp_or_sequence), count)
        return format_cp_collapsed(self.cp_or_sequence)

    def __repr__(self):
        count = super(CharMatcher, self).get_pattern()
        return '<CharMatcher: %s%s>' % (self.cp_or_sequence, count)


class RuleMatcher(CountMatcher):

    def __init__(self, rule, comment=None, count=None):
        super(RuleMatcher, self).__init__(comment, count)
        self._rule = rule

    def get_pattern(self, rules_lookup, classes_lookup, unicode_database, is_look_behind=False):
        count = super(RuleMatcher, self).get_pattern(is_look_behind=is_look_behind)
        regex = self._rule.get_pattern(rules_lookup, classes_lookup, unicode_database, is_look_behind)
        if len(count) > 0:
            return '(%s)%s' % (regex, count)
        else:
            return regex

    def validate(self, parents, rules_lookup, classes_lookup):
        super(RuleMatcher, self).validate(parents, rules_lookup, classes_lookup)
        self._rule.validate(parents + [self], rules_lookup, classes_lookup)

    def __str__(self):
        count = CountMatcher.get_pattern(self)
        if len(count) > 1:
            return '({}){}'.format(self._rule, count)
        return '{}'.format(self._rule)

    def __repr__(self):
        count = super(RuleMatcher, self).get_pattern()
        return '<RuleMatcher: %s%s>' % (self._rule, count)

    def iter_children(self):
        return self._rule.iter_children()

    def can_add_child(self):
        return self._rule.can_add_child()

    @property
    def by_ref(self):
        return self._rule.by_ref


class ClassMatcher(CountMatcher):

    def __init__(self, cls, comment=None, count=None):
        super(ClassMatcher, self).__init__(comment, count)
        self._cls = cls

    def get_pattern(self, rules_lookup, classes_lookup, unicode_database, is_look_behind=False):
        count = super(ClassMatcher, self).get_pattern(is_look_behind=is_look_behind)
        regex = self._cls.get_pattern(rules_lookup, classes_lookup, unicode_database, is_look_behind)
        if len(count) > 0:
            return '(%s)%s' % (regex, count)
        else:
            return regex

    def validate(self, parents, rules_lookup, classes_lookup):
        super(ClassMatcher, self).validate(parents, rules_lookup, classes_lookup)
        self._cls.validate(parents + [self], rules_lookup, classes_lookup)

    def __str__(self):
        count = CountMatcher.get_pattern(self)
        if len(count) > 1:
            return '({}){}'.format(self._cls, count)
        return '{}'.format(self._cls)

    def __repr__(self):
        count = super(ClassMatcher, self).get_pattern()
        return '<ClassMatcher: %s%s>' % (self._cls, count)
