# Reference behaviour of lgr.tools.annotate (parsed by the checks, never executed).
from __future__ import unicode_literals
import logging
from lgr.tools.utils import read_labels


def _out_valid_label(lgr, label, eligible, label_invalid_parts, disp, action_idx):
    yield ('%s: %s\n' % (label, disp))
    if not eligible and action_idx >= 0:
        yield (' Rule %s: %s\n' % (action_idx, lgr.effective_actions[action_idx]))
    for cp_not_in_lgr, rules in label_invalid_parts:
        yield ' Code point {cp} {reason}\n'.format(cp='U+{:04X}'.format(cp_not_in_lgr), reason='not in repertoire' if rules is None else "does not comply with rules '{}'".format(','.join(rules)))


def annotate(lgr, labels_input):
    for __, label, valid, error in read_labels(labels_input, lgr.unicode_database):
        if valid:
            label_cp = tuple([ord(c) for c in label])
            eligible, _, label_invalid_parts, disp, action_idx, _ = lgr.test_label_eligible(label_cp, collect_log=False)
            for l in _out_valid_label(lgr, label, eligible, label_invalid_parts, disp, action_idx):
                yield l
        else:
            yield ('%s: %s\n' % (label, error))


def lgr_set_annotate(lgr, script_lgr, set_labels_input, labels_input):
    from lgr.tools.diff_collisions import get_collisions
    yield '# The following labels from the set labels are invalid\n'
    filtered_set = []
    for __, label, valid, error in read_labels(set_labels_input, lgr.unicode_database):
        if not valid:
            yield ('%s: %s\n' % (label, error))
        else:
            label_cp = tuple([ord(c) for c in label])
            if not lgr._test_preliminary_eligibility(label_cp)[0]:
                yield ('%s: invalid\n' % label)
            else:
                filtered_set.append(label)
    yield '# End of filtered set labels\n\n'
    for __, label, valid, error in read_labels(labels_input, script_lgr.unicode_database):
        if not valid:
            out = error
            yield ('%s: %s\n' % (label, out))
        else:
            label_cp = tuple([ord(c) for c in label])
            eligible, _, label_invalid_parts, disp, action_idx, _ = script_lgr.test_label_eligible(label_cp, collect_log=False)
            collision = ''
            if eligible:
                if label in filtered_set:
                    collision = 'Label is in the LGR set labels'
                indexes = get_collisions(lgr, filtered_set + [label], quiet=False)
                if any((l['label'] == label for collisions in indexes.values() for l in collisions)):
                    collision = 'Label collides with the LGR set labels'
            out = disp
            if collision:
                out = '{} - {}'.format(disp, collision)
            for l in _out_valid_label(lgr, label, eligible, label_invalid_parts, out, action_idx):
                yield l
