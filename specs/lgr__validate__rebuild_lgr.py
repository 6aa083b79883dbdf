# Reference behaviour of lgr.validate.rebuild_lgr (parsed by the checks, never executed).
from __future__ import unicode_literals
import logging
import copy
from lgr.char import RangeChar
from lgr.utils import format_cp
from lgr.exceptions import LGRException, CharNotInScript, CharInvalidIdnaProperty


def rebuild_lgr(lgr, options):
    from lgr.core import LGR
    unicode_version = options.get('unicode_version', lgr.metadata.unicode_version)
    validating_repertoire = options.get('validating_repertoire', None)
    result = {'description': 'Rebuilding LGR', 'unicode_version': unicode_version, 'validating_repertoire': validating_repertoire, 'unidb_version': None, 'repertoire': {}}
    unidb = options.get('unidb', None)
    if unidb is not None:
        unidb_version = unidb.get_unicode_version()
        result['unidb_version'] = unidb_version
        if unidb_version != unicode_version:
            pass
    target_metadata = copy.deepcopy(lgr.metadata)
    target_metadata.unicode_version = unicode_version
    target_reference_manager = copy.deepcopy(lgr.reference_manager)
    target_lgr = LGR(name=lgr.name, metadata=target_metadata, reference_manager=target_reference_manager, unicode_database=unidb)
    for char in lgr.repertoire:
        if isinstance(char, RangeChar):
            range_ok = True
            for cp, status in target_lgr.check_range(char.first_cp, char.last_cp, validating_repertoire):
                if status is not None:
                    result['repertoire'].setdefault(char, {}).setdefault('errors', []).append(status)
                    range_ok = False
                in_script, _ = lgr.cp_in_script([cp])
                if not in_script:
                    result['repertoire'].setdefault(char, {}).setdefault('warnings', []).append(CharNotInScript(cp))
                    range_ok = False
            if not range_ok:
                continue
            try:
                target_lgr.add_range(char.first_cp, char.last_cp, comment=char.comment, ref=char.references, tag=char.tags, when=char.when, not_when=char.not_when, validating_repertoire=validating_repertoire, override_repertoire=False)
            except LGRException as exc:
                result['repertoire'].setdefault(char, {}).setdefault('errors', []).append(exc)
            continue
        in_script, _ = lgr.cp_in_script(char.cp)
        if not in_script:
            result['repertoire'].setdefault(char, {}).setdefault('warnings', []).append(CharNotInScript(char.cp))
        try:
            target_lgr.add_cp(char.cp, comment=char.comment, ref=char.references, tag=char.tags, when=char.when, not_when=char.not_when, validating_repertoire=validating_repertoire, override_repertoire=False)
        except LGRException as exc:
            result['repertoire'].setdefault(char, {}).setdefault('errors', []).append(exc)
            if not isinstance(exc, CharInvalidIdnaProperty):
                target_lgr.add_cp(char.cp, comment=char.comment, ref=char.references, tag=char.tags, when=char.when, not_when=char.not_when, force=True)
        for var in char.get_variants():
            try:
                target_lgr.add_variant(char.cp, variant_cp=var.cp, variant_type=var.type, when=var.when, not_when=var.not_when, comment=var.comment, ref=var.references, validating_repertoire=validating_repertoire, override_repertoire=True)
            except LGRException as exc:
                result['repertoire'].setdefault(char, {}).setdefault('variants', {}).setdefault(var, []).append(exc)
                if not isinstance(exc, CharInvalidIdnaProperty):
                    target_lgr.add_variant(char.cp, variant_cp=var.cp, variant_type=var.type, when=var.when, not_when=var.not_when, comment=var.comment, ref=var.references, force=True)
    return (True, result)
