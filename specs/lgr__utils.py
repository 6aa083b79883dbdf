# Reference behaviour of lgr.utils (parsed by the checks, never executed).
from __future__ import unicode_literals
import logging
from language_tags import tags
from pycountry import languages
from lgr import text_type, wide_unichr
VALID_IDNA_PROPERTY_VALUES = {'PVALID', 'CONTEXTJ', 'CONTEXTO'}
COMMON_SCRIPT = 'Zyyy'
INHERITED_SCRIPT = 'Zinh'


def cp_to_ulabel(cp_or_sequence):
    if cp_or_sequence is None:
        return 'None'
    if isinstance(cp_or_sequence, int):
        cp_or_sequence = [cp_or_sequence]
    return ''.join((wide_unichr(c) for c in cp_or_sequence))


def cp_to_str(cp):
    return '%04X' % cp


def format_cp(cp_or_sequence):
    if cp_or_sequence is None:
        return 'None'
    if isinstance(cp_or_sequence, int):
        cp_or_sequence = [cp_or_sequence]
    return ' '.join(['U+{0}'.format(cp_to_str(c)) for c in cp_or_sequence])


def format_cp_collapsed(cp_or_sequence):
    if cp_or_sequence is None:
        return 'None'
    if isinstance(cp_or_sequence, int):
        cp_or_sequence = [cp_or_sequence]
    collapsed = collapse_codepoints(cp_or_sequence)
    formatted = []
    for start, end in collapsed:
        if start == end:
            formatted.append('U+{0}'.format(cp_to_str(start)))
        elif end == start + 1:
            formatted.extend(['U+{0}'.format(cp_to_str(start)), 'U+{0}'.format(cp_to_str(end))])
        else:
            formatted.append('-'.join(['U+{0}'.format(cp_to_str(start)), 'U+{0}'.format(cp_to_str(end))]))
    return ' '.join(formatted)


def collapse_codepoints(codepoints):
    result = []
    if not codepoints:
        return result
    codepoints = sorted(codepoints)
    first_cp = codepoints[0]
    last_cp = codepoints[0]
    for cp in codepoints[1:]:
        if cp == last_cp + 1:
            last_cp = cp
        else:
            result.append((first_cp, last_cp))
            first_cp = cp
            last_cp = cp
    result.append((first_cp, last_cp))
    return result


def script_iso15924_to_unicode(script):
    if script == 'Aran':
        return ['Arab']
    elif script == 'Geok':
        return ['Geor']
    elif script in ['Hans', 'Hant']:
        return ['Hani']
    elif script == 'Hrkt':
        return ['Hira', 'Kana']
    elif script == 'Jpan':
        return ['Hani', 'Hira', 'Kana']
    elif script == 'Kore':
        return ['Hani', 'Hang']
    elif script in ['Latf', 'Latg']:
        return ['Latn']
    elif script in ['Syre', 'Syrj', 'Syrn']:
        return ['Syrc']
    return [script]


def let_user_choose(first, second, separator='|'):
    if first is None:
        return second
    if second is None:
        return first
    if first == second:
        return first
    return '{0!s}{1!s}{2!s}'.format(first, separator, second)


def tag_to_language_script(tag, use_suppress_script=False):
    if '-' in tag:
        splitted = tag.split('-', 1)
        lang = splitted[0]
        try:
            lang_lookup = languages.lookup(lang)
            lang_2 = lang_lookup.alpha_2
        except (LookupError, AttributeError):
            lang_2 = lang
        splitted[0] = lang_2
        tag = '-'.join(splitted)
    tag = tags.tag(tag)
    script = str(tag.script) if tag.script else ''
    language = tag.language
    if use_suppress_script and language and (not script):
        suppress_script = language.data.get('record', {}).get('Suppress-Script')
        script = suppress_script
    language = str(tag.language) if tag.language else ''
    if language.lower() == 'und':
        language = ''
    if language == 'zh' and (not script):
        script = 'Hani'
    return (language, script)


def is_idna_valid_cp_or_sequence(cp_or_sequence, udata, check_all=False):
    all_invalid = dict()
    for cp in cp_or_sequence:
        prop = udata.get_idna_prop(cp)
        if prop not in VALID_IDNA_PROPERTY_VALUES:
            all_invalid[cp] = prop
            if not check_all:
                return (False, all_invalid)
    return (len(all_invalid) == 0, all_invalid)
