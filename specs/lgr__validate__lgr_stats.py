# Reference behaviour of lgr.validate.lgr_stats (parsed by the checks, never executed).
from __future__ import unicode_literals
import logging
from lgr.char import Char, CharSequence, RangeChar


def generate_stats(lgr):
    stats = {'codepoint_number': 0, 'range_number': 0, 'largest_range': None, 'largest_range_len': 0, 'sequence_number': 0, 'largest_sequence': None, 'largest_sequence_len': 0, 'codepoints_with_variants': 0, 'mapping_number': 0, 'variants_by_type': {}, 'largest_variant_set': 0, 'average_variants': 0, 'codepoints_by_tag': {}, 'rule_number': len(lgr.rules)}
    for char in lgr.repertoire:
        range_len = 1
        if isinstance(char, RangeChar):
            range_len = char.last_cp - char.first_cp + 1
            stats['codepoint_number'] += range_len
            stats['range_number'] += 1
            if range_len > stats['largest_range_len']:
                stats['largest_range_len'] = range_len
                stats['largest_range'] = char
        elif isinstance(char, CharSequence):
            stats['codepoint_number'] += 1
            stats['sequence_number'] += 1
            sequence_len = len(char.cp)
            if sequence_len > stats['largest_sequence_len']:
                stats['largest_sequence_len'] = sequence_len
                stats['largest_sequence'] = char
        elif isinstance(char, Char):
            stats['codepoint_number'] += 1
        for t in char.tags:
            if t in stats['codepoints_by_tag']:
                stats['codepoints_by_tag'][t] += range_len
            else:
                stats['codepoints_by_tag'][t] = range_len
        variants = list(char.get_variants())
        variant_set_len = len(frozenset((v.cp for v in variants + ([char] if len(variants) > 0 else []))))
        stats['mapping_number'] += len(frozenset((v.cp for v in variants)))
        stats['largest_variant_set'] = max(stats['largest_variant_set'], variant_set_len)
        if variant_set_len > 0:
            stats['codepoints_with_variants'] += 1
        for var in variants:
            if var.type in stats['variants_by_type']:
                stats['variants_by_type'][var.type] += 1
            else:
                stats['variants_by_type'][var.type] = 1
    if stats['codepoints_with_variants'] != 0:
        stats['average_variants'] = round(stats['mapping_number'] / stats['codepoints_with_variants'], 1)
    return stats


def compute_stats(lgr, options):
    stats = generate_stats(lgr)
    result = {'description': 'Generate stats', 'stats': stats}
    if logger.isEnabledFor(logging.DEBUG):
        output = '\nGeneral summary:\n\tNumber of code points: {codepoint_number}.\n\n\tNumber of ranges: {range_number}.\n\tLargest range: {largest_range} (length: {largest_range_len}).\n\n\tNumber of sequences: {sequence_number}.\n\tLargest sequence: {largest_sequence} (length: {largest_sequence_len}).\n'.format(**stats)
        output += '\nVariants:\n\tTotal number of variant mappings: {mapping_number}.\n\tAverage number of variants per code point: {average_variants}.\n\tLargest variant set: {largest_variant_set}.\n\n'.format(**stats)
        for variant_type, number in stats['variants_by_type'].items():
            output += "\tNumber of variants for type '{0}': {1}.\n".format(variant_type, number)
        output += '\nTags:\n'
        for tag_name, number in stats['codepoints_by_tag'].items():
            output += "\tNumber of code points for tag '{0}': {1}.\n".format(tag_name, number)
        output += '\nRules:\n'
        output += '\tNumber of rules defined: {0}.\n'.format(stats['rule_number'])
    return (True, result)
