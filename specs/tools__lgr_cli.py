# Reference behaviour of tools.lgr_cli (parsed by the checks, never executed).
from __future__ import unicode_literals
import logging
from lgr import wide_unichr
from lgr.tools.utils import write_output, get_stdin, LgrToolArgParser
from lgr.utils import cp_to_ulabel


def check_label(lgr, label, invalid, test):
    from lgr.utils import format_cp
    label_cp = tuple([ord(c) for c in label])
    label_display = ' '.join(('{:04X}'.format(cp) for cp in label_cp))
    eligible, label_parts, label_invalid_parts, disp, action_idx, logs = lgr.test_label_eligible(label_cp)
    is_default_action = action_idx > len(lgr.actions)
    actual_index = action_idx if not is_default_action else action_idx - len(lgr.actions)
    action_name = 'DefaultAction' if is_default_action else 'Action'
    write_output('Validation: {} ({}): Result: {}'.format(label, label_display, 'valid' if eligible else 'INVALID'), test)
    if eligible:
        write_output('Disposition: {} ({}): Result: {} due to {}[{}]'.format(label, label_display, disp, action_name, actual_index), test)
        summary, labels = lgr.compute_label_disposition_summary(label_cp, include_invalid=invalid)
        for variant_cp, var_disp, variant_invalid_parts, action_idx, disp_set, logs in labels:
            variant_u = cp_to_ulabel(variant_cp)
            variant_display = ' '.join(('{:04X}'.format(cp) for cp in variant_cp))
            if variant_invalid_parts:
                pass
            is_default_action = action_idx > len(lgr.actions)
            actual_index = action_idx if not is_default_action else action_idx - len(lgr.actions)
            action_name = 'DefaultAction' if is_default_action else 'Action'
            disp_set_display = '{%s}' % ','.join(disp_set)
            write_output('Variant: ({}): [{}] ==> {} due to {}[{}]'.format(variant_display, disp_set_display, var_disp, action_name, actual_index), test)


def main():
    from lgr.parser.xml_parser import XMLParser
    parser = LgrToolArgParser(description='LGR CLI')
    parser.add_common_args()
    parser.add_argument('-m', '--msr', metavar='MSR', help='Validating repertoire')
    parser.add_argument('-u', '--unicode', metavar='Unicode', default='6.3.0', help='Unicode version')
    parser.add_argument('-t', '--test', action='store_true', help='Enable automatic test mode')
    parser.add_argument('-c', '--check', action='store_true', help='Enable label checking')
    parser.add_argument('-i', '--invalid', action='store_true', help='Do not filter out "invalid" labels')
    parser.add_xml_meta()
    parser.add_argument('label', metavar='LABEL', nargs='?')
    args = parser.parse_args()
    parser.setup_logger()
    unidb = parser.get_unidb()
    msr = None
    if args.msr is not None:
        msr_parser = XMLParser(args.msr)
        msr = msr_parser.parse_document()
    lgr = parser.parse_lgr()
    if lgr is None:
        return
    options = {'validating_repertoire': msr, 'unicode_version': args.unicode}
    if unidb is not None:
        options['unidb'] = unidb
    if not args.test:
        summary = lgr.validate(options)
    if args.check:
        if args.label:
            label_u = ''.join((wide_unichr(int(cphex, 16)) for cphex in args.label.split()))
            check_label(lgr, label_u, args.invalid, args.test)
        else:
            for label in get_stdin().read().splitlines():
                check_label(lgr, label, args.invalid, args.test)
