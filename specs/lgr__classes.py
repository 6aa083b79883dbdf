# Reference behaviour of lgr.classes (parsed by the checks, never executed).
from __future__ import unicode_literals
import logging
from lgr import text_type
from lgr.exceptions import LGRFormatException, RuleError
from lgr.utils import format_cp_collapsed
TAG_CLASSNAME_PREFIX = '#__internal_tag_'


def set_to_rvalue(cp_set, as_set):
    if as_set:
        return cp_set
    elif len(cp_set) == 0:
        return ''
    else:
        return text_type(cp_set)


class Class(object):

    def __init__(self, name=None, comment=None, ref=None, from_tag=None, unicode_property=None, codepoints=None, by_ref=None, implicit=False):
        self.name = name
        self.comment = comment
        self.references = ref or []
        self.from_tag = from_tag
        self.unicode_property = unicode_property
        self.codepoints = set(codepoints or [])
        self.by_ref = by_ref
        self.implicit = implicit
        if by_ref is not None:
            if name is not None:
                raise LGRFormatException(LGRFormatException.LGRFormatReason.BY_REF_AND_OTHER)
            elif from_tag is not None:
                raise LGRFormatException(LGRFormatException.LGRFormatReason.BY_REF_AND_OTHER)
            elif unicode_property is not None:
                raise LGRFormatException(LGRFormatException.LGRFormatReason.BY_REF_AND_OTHER)
            elif ref:
                raise LGRFormatException(LGRFormatException.LGRFormatReason.BY_REF_AND_OTHER)

    def add_codepoint(self, cp):
        if self.by_ref is not None:
            raise LGRFormatException(LGRFormatException.LGRFormatReason.BY_REF_AND_OTHER)
        if isinstance(cp, int):
            cp = [cp]
        self.codepoints.update(cp)

    def del_codepoint(self, cp):
        if self.by_ref is not None:
            raise LGRFormatException(LGRFormatException.LGRFormatReason.BY_REF_AND_OTHER)
        if isinstance(cp, int):
            cp = [cp]
        for c in cp:
            self.codepoints.discard(c)

    def get_pattern(self, rules_lookup, classes_lookup, unicode_database, is_look_behind=False, as_set=False):
        if self.by_ref is not None:
            if self.by_ref not in classes_lookup:
                raise RuleError(self, "%s cannot reference inexisting class '%s'" % (self, self.by_ref))
            cp_set = classes_lookup[self.by_ref].get_pattern(rules_lookup, classes_lookup, unicode_database, is_look_behind, as_set)
        elif self.from_tag is not None:
            tag_classname = TAG_CLASSNAME_PREFIX + self.from_tag
            if tag_classname not in classes_lookup:
                cp_set = unicode_database.get_set()
            else:
                cp_set = classes_lookup[tag_classname].get_pattern(rules_lookup, classes_lookup, unicode_database, is_look_behind, as_set)
        elif self.unicode_property is not None:
            name, value = self.unicode_property.split(':')
            cp_set = unicode_database.get_set(pattern='\\p{%s=%s}' % (name, value))
        else:
            cp_set = unicode_database.get_set(self.codepoints)
        return set_to_rvalue(cp_set, as_set)

    def validate(self, parents, rules_lookup, classes_lookup):
        if self.by_ref is not None:
            if self.by_ref not in classes_lookup:
                raise LGRFormatException(LGRFormatException.LGRFormatReason.INVALID_BY_REF)
        is_top_level = len(parents) == 0
        if is_top_level and self.name is None or (not is_top_level and self.name is not None):
            raise LGRFormatException(LGRFormatException.LGRFormatReason.INVALID_TOP_LEVEL_NAME)
        if self.from_tag is not None:
            tag_classname = TAG_CLASSNAME_PREFIX + self.from_tag
            if tag_classname not in classes_lookup:
                pass

    def __str__(self):
        if self.by_ref is not None:
            return '[:class-ref-{}:]'.format(self.by_ref)
        if self.from_tag is not None:
            return '[:class tag={}:]'.format(self.from_tag)
        if self.unicode_property is not None:
            name, value = self.unicode_property.split(':')
            return '[:class property:{}={}:]'.format(name, value)
        return format_cp_collapsed(self.codepoints)

    def __repr__(self):
        return '<Class %s>' % (self.name or self.from_tag or self.by_ref)


class CombinatorClass(Class):
    MAX_CHILDREN = 0

    def __init__(self, name=None, comment=None):
        super(CombinatorClass, self).__init__(name=name, comment=comment)
        self._children = []
        self.symbol = None

    def add_child(self, cls):
        if self.MAX_CHILDREN > 0 and len(self._children) >= self.MAX_CHILDREN:
            raise LGRFormatException(LGRFormatException.LGRFormatReason.INVALID_CHILDREN_NUMBER)
        self._children.append(cls)

    def validate(self, parents, rules_lookup, classes_lookup):
        super(CombinatorClass, self).validate(parents, rules_lookup, classes_lookup)
        for child in self._children:
            child.validate(parents + [self], rules_lookup, classes_lookup)

    def __str__(self):
        if not self._children:
            return 'Ø'
        return '({})'.format(self.symbol.join(['{}'.format(m) for m in self._children]))

    def __repr__(self):
        return '<Combinator>'


class ComplementClass(CombinatorClass):
    MAX_CHILDREN = 1

    def __init__(self, *args, **kwargs):
        super(ComplementClass, self).__init__(*args, **kwargs)

    def get_pattern(self, rules_lookup, classes_lookup, unicode_database, is_look_behind=False, as_set=False):
        child = self._children[0]
        cp_set = unicode_database.get_set(child.get_pattern(rules_lookup, classes_lookup, unicode_database, is_look_behind, as_set=True))
        cp_set.complement()
        return set_to_rvalue(cp_set, as_set)

    def validate(self, parents, rules_lookup, classes_lookup):
        super(ComplementClass, self).validate(parents, rules_lookup, classes_lookup)
        if len(self._children) != 1:
            raise LGRFormatException(LGRFormatException.LGRFormatReason.INVALID_CHILDREN_NUMBER)

    def __str__(self):
        return '^{{{}}}'.format(self._children[0])

    def __repr__(self):
        return '<ComplementClass %s: %s>' % (self.name, self._children)


class UnionClass(CombinatorClass):

    def __init__(self, *args, **kwargs):
        super(UnionClass, self).__init__(*args, **kwargs)
        self.symbol = '∪'

    def get_pattern(self, rules_lookup, classes_lookup, unicode_database, is_look_behind=False, as_set=False):
        cp_set = unicode_database.get_set()
        for child in self._children:
            cp_set.update(child.get_pattern(rules_lookup, classes_lookup, unicode_database, is_look_behind, as_set=True))
        return set_to_rvalue(cp_set, as_set)

    def validate(self, parents, rules_lookup, classes_lookup):
        super(UnionClass, self).validate(parents, rules_lookup, classes_lookup)
        if len(self._children) < 2:
            raise LGRFormatException(LGRFormatException.LGRFormatReason.INVALID_CHILDREN_NUMBER)

    def __repr__(self):
        return '<UnionClass %s: %s>' % (self.name, self._children)


class IntersectionClass(CombinatorClass):
    MAX_CHILDREN = 2

    def __init__(self, *args, **kwargs):
        super(IntersectionClass, self).__init__(*args, **kwargs)
        self.symbol = '∩'

    def get_pattern(self, rules_lookup, classes_lookup, unicode_database, is_look_behind=False, as_set=False):
        set_1 = self._children[0].get_pattern(rules_lookup, classes_lookup, unicode_database, is_look_behind, as_set=True)
        set_2 = self._children[1].get_pattern(rules_lookup, classes_lookup, unicode_database, is_look_behind, as_set=True)
        cp_set = set_1 & set_2
        return set_to_rvalue(cp_set, as_set)

    def validate(self, parents, rules_lookup, classes_lookup):
        super(IntersectionClass, self).validate(parents, rules_lookup, classes_lookup)
        if len(self._children) != 2:
            raise LGRFormatException(LGRFormatException.LGRFormatReason.INVALID_CHILDREN_NUMBER)

    def __repr__(self):
        return '<IntersectionClass %s: %s>' % (self.name, self._children)


class DifferenceClass(CombinatorClass):
    MAX_CHILDREN = 2

    def __init__(self, *args, **kwargs):
        super(DifferenceClass, self).__init__(*args, **kwargs)
        self.symbol = '\\'

    def get_pattern(self, rules_lookup, classes_lookup, unicode_database, is_look_behind=False, as_set=False):
        set_1 = self._children[0].get_pattern(rules_lookup, classes_lookup, unicode_database, is_look_behind, as_set=True)
        set_2 = self._children[1].get_pattern(rules_lookup, classes_lookup, unicode_database, is_look_behind, as_set=True)
        cp_set = set_1 - set_2
        return set_to_rvalue(cp_set, as_set)

    def validate(self, parents, rules_lookup, classes_lookup):
        super(DifferenceClass, self).validate(parents, rules_lookup, classes_lookup)
        if len(self._children) != 2:
            raise LGRFormatException(LGRFormatException.LGRFormatReason.INVALID_CHILDREN_NUMBER)

    def __repr__(self):
        return '<DifferenceClass %s: %s>' % (self.name, self._children)


class SymmetricDifferenceClass(CombinatorClass):
    MAX_CHILDREN = 2

    def __init__(self, *args, **kwargs):
        super(SymmetricDifferenceClass, self).__init__(*args, **kwargs)
        self.symbol = '△'

    def get_pattern(self, rules_lookup, classes_lookup, unicode_database, is_look_behind=False, as_set=False):
        set_1 = self._children[0].get_pattern(rules_lookup, classes_lookup, unicode_database, is_look_behind, as_set=True)
        set_2 = self._children[1].get_pattern(rules_lookup, classes_lookup, unicode_database, is_look_behind, as_set=True)
        cp_set = (set_1 | set_2) - (set_1 & set_2)
        return set_to_rvalue(cp_set, as_set)

    def validate(self, parents, rules_lookup, classes_lookup):
        super(SymmetricDifferenceClass, self).validate(parents, rules_lookup, classes_lookup)
        if len(self._children) != 2:
            raise LGRFormatException(LGRFormatException.LGRFormatReason.INVALID_CHILDREN_NUMBER)

    def __repr__(self):
        return '<SymmetricDifferenceClass %s: %s>' % (self.name, self._children)
