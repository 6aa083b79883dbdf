# Reference behaviour of lgr.tools.compare.utils (parsed by the checks, never executed).
import re
from collections import namedtuple
from lgr.utils import format_cp
VariantProperties = namedtuple('VariantProperties', ['cp', 'type', 'when', 'not_when', 'comment'])


def display_variant(variant):
    return 'Variant {}: type={} - when={} - not-when={} - comment={}'.format(format_cp(variant.cp), variant.type, variant.when, variant.not_when, variant.comment)


def compare_objects(first, second, cmp_fct):
    if first is None:
        return second
    if second is None:
        return first
    return cmp_fct(first, second)


def latest_unicode_version(first, second):
    return max(first, second, key=lambda version: [int(n) for n in re.findall('\\d+', version)])
