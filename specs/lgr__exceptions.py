# Reference behaviour of lgr.exceptions (parsed by the checks, never executed).
from __future__ import unicode_literals


class LGRException(Exception):

    def __str__(self):
        return self.__class__.__name__


class LGRApiException(LGRException):
    pass


class LGRApiInvalidParameter(LGRApiException):

    def __init__(self, parameter):
        super(LGRApiInvalidParameter, self).__init__()
        self.parameter = parameter


class LGRFormatException(LGRException):

    def __init__(self, reason):
        super(LGRFormatException, self).__init__()
        self.reason = reason


class CharLGRException(LGRException):

    def __init__(self, cp):
        super(CharLGRException, self).__init__()
        self.cp = cp


class CharInvalidContextRule(CharLGRException):

    def __init__(self, cp, rule=None):
        super(CharInvalidContextRule, self).__init__(cp)
        self.rule = rule


class CharInvalidIdnaProperty(CharLGRException):
    pass


class CharNotInScript(CharLGRException):
    pass


class CharAlreadyExists(CharLGRException):
    pass


class RangeException(LGRException):

    def __init__(self, first_cp, last_cp):
        super(RangeException, self).__init__()
        self.first_cp = first_cp
        self.last_cp = last_cp


class RangeAlreadyExists(RangeException):
    pass


class RangeInvalidContextRule(RangeException):
    pass


class VariantException(CharLGRException):

    def __init__(self, cp, variant):
        super(VariantException, self).__init__(cp)
        self.variant = variant


class VariantAlreadyExists(VariantException):
    pass


class VariantInvalidContextRule(VariantException):
    pass


class NotInRepertoire(CharLGRException):
    pass


class NotInLGR(CharLGRException):
    pass


class DuplicateReference(CharLGRException):
    pass


class ReferenceNotDefined(LGRException):

    def __init__(self, ref_id):
        super(ReferenceNotDefined, self).__init__()
        self.ref_id = ref_id


class ReferenceAlreadyExists(LGRException):

    def __init__(self, ref_id):
        super(ReferenceAlreadyExists, self).__init__()
        self.ref_id = ref_id


class ReferenceInvalidId(LGRException):

    def __init__(self, ref_id):
        super(ReferenceInvalidId, self).__init__()
        self.ref_id = ref_id


class InvalidSymmetry(LGRException):
    pass


class RuleError(LGRException):

    def __init__(self, rule_name, message):
        super(RuleError, self).__init__(message)
        self.rule_name = rule_name
        self.message = message

    def __unicode__(self):
        return '<rule %s>: %s' % (self.rule_name, self.message)
    __str__ = __unicode__


class MissingLanguage(LGRException):

    def __init__(self, message):
        super(MissingLanguage, self).__init__(message)
        self.message = message


class LGRInvalidLabelException(LGRException):

    def __init__(self, label, message):
        super(LGRInvalidLabelException, self).__init__()
        self.label = label
        self.message = message


class LGRLabelCollisionException(LGRException):

    def __init__(self):
        super(LGRLabelCollisionException, self).__init__()


class LGRCrossScriptMissingDataException(LGRException):

    def __init__(self, missing_part):
        super(LGRCrossScriptMissingDataException, self).__init__()
        self.missing_part = missing_part
