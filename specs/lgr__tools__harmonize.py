# Reference behaviour of lgr.tools.harmonize (parsed by the checks, never executed).
from __future__ import unicode_literals
import logging
from copy import deepcopy
from lgr.populate import populate_lgr


def harmonize(lgr_1, lgr_2, rz_lgr=None, _copy=True):
    h_lgr_1 = deepcopy(lgr_1) if _copy else lgr_1
    h_lgr_2 = deepcopy(lgr_2) if _copy else lgr_2
    h_lgr_1.expand_ranges()
    h_lgr_2.expand_ranges()
    for lgr in (h_lgr_1, h_lgr_2):
        if lgr.metadata.version is not None:
            lgr.metadata.version.comment = (lgr.metadata.version.comment or '') + ' - Harmonized'
    if rz_lgr is not None:
        rz_lgr_work = deepcopy(rz_lgr)
        harmonize(h_lgr_1, rz_lgr_work, _copy=False)
        rz_lgr_work = deepcopy(rz_lgr)
        harmonize(h_lgr_2, rz_lgr_work, _copy=False)
    lgr_1_repertoire = {c.cp for c in h_lgr_1.repertoire}
    lgr_2_repertoire = {c.cp for c in h_lgr_2.repertoire}
    for cp in lgr_2_repertoire & lgr_1_repertoire:
        char_lgr_1 = h_lgr_1.get_char(cp)
        char_lgr_2 = h_lgr_2.get_char(cp)
        lgr_1_variants = {v.cp for v in char_lgr_1.get_variants()}
        lgr_2_variants = {v.cp for v in char_lgr_2.get_variants()}
        for variant_cp in lgr_1_variants - lgr_2_variants:
            if variant_cp not in h_lgr_2.repertoire:
                h_lgr_2.add_cp(variant_cp, comment='Out-of-repertoire')
                h_lgr_2.add_variant(variant_cp, variant_cp, variant_type='out-of-repertoire', comment='Out-of-repertoire')
            elif variant_cp == cp:
                continue
            h_lgr_2.add_variant(cp, variant_cp, variant_type='blocked')
        for variant_cp in lgr_2_variants - lgr_1_variants:
            if variant_cp not in h_lgr_1.repertoire:
                h_lgr_1.add_cp(variant_cp, comment='Out-of-repertoire')
                h_lgr_1.add_variant(variant_cp, variant_cp, variant_type='out-of-repertoire', comment='Out-of-repertoire')
            elif variant_cp == cp:
                continue
            h_lgr_1.add_variant(cp, variant_cp, variant_type='blocked')
    populate_lgr(h_lgr_1)
    populate_lgr(h_lgr_2)
    not_touched_cp = lgr_1_repertoire ^ lgr_2_repertoire
    return (h_lgr_1, h_lgr_2, (lgr_1_repertoire & not_touched_cp, lgr_2_repertoire & not_touched_cp))
