# Reference behaviour of lgr.tools.idn_review.classes (parsed by the checks, never executed).
import logging
from typing import Dict, Set, Tuple, List
from lgr.classes import TAG_CLASSNAME_PREFIX
from lgr.core import LGR
from lgr.tools.idn_review.utils import IdnReviewResult
from lgr.utils import cp_to_ulabel


class ClassReport:

    def __init__(self, class_name: str, idn_table_cp, ref_lgr_cp, idn_table_repertoire: Set, reference_lgr_repertoire: Set):
        self.class_name = class_name
        self.idn_table_cp = idn_table_cp
        self.ref_lgr_cp = ref_lgr_cp
        self.idn_table_repertoire = idn_table_repertoire
        self.reference_lgr_repertoire = reference_lgr_repertoire

    def compute_result_and_remark(self):
        if not self.idn_table_cp ^ self.ref_lgr_cp:
            return (IdnReviewResult.MATCH, 'Classes and their members are matched')
        extra_idn = self.idn_table_cp - self.ref_lgr_cp
        extra_ref = self.ref_lgr_cp - self.idn_table_cp
        if not self.idn_table_cp:
            assert self.ref_lgr_cp & self.idn_table_repertoire
            return (IdnReviewResult.MANUAL_CHECK, 'Mismatch class (class does not exist in IDN Table; check for different class names)')
        if not self.ref_lgr_cp:
            if self.idn_table_cp & self.reference_lgr_repertoire:
                return (IdnReviewResult.MANUAL_CHECK, 'Mismatch class (class does not exist in ref. LGR; check for different class names)')
            if self.idn_table_cp ^ self.reference_lgr_repertoire:
                return (IdnReviewResult.MANUAL_CHECK, 'Mismatch class with only additional code points.')
        result = None
        remark = []
        if extra_idn and extra_idn & self.reference_lgr_repertoire:
            result = IdnReviewResult.REVIEW
            remark.append('Mismatch class members (extra member(s) in IDN Table)')
        if extra_ref and extra_ref & self.idn_table_repertoire:
            result = IdnReviewResult.REVIEW
            remark.append('Mismatch class members (missing member(s) in IDN Table)')
        if result:
            return (result, '\n'.join(remark))
        if extra_idn:
            return (IdnReviewResult.MANUAL_CHECK, 'Mismatch class members (extra member(s) in IDN Table which are not in Ref. LGR repertoire)')
        if extra_ref:
            return (IdnReviewResult.SUBSET, 'Extra members in Ref. LGR not in IDN Table')

    def to_dict(self) -> Dict:
        if not self.idn_table_cp and (not self.ref_lgr_cp & self.idn_table_repertoire):
            return {}
        result, remark = self.compute_result_and_remark()
        return {'name': self.class_name.replace(TAG_CLASSNAME_PREFIX, ''), 'idn_members': sorted((cp_to_ulabel(cp) for cp in self.idn_table_cp)), 'ref_members': sorted((cp_to_ulabel(cp) for cp in self.ref_lgr_cp)), 'result': result.name, 'remark': remark}


def get_repertoire_and_class_members(lgr) -> Tuple[Dict[str, Set], Set]:
    members = {}
    repertoire = lgr.unicode_database.get_set((c.cp[0] for c in lgr.repertoire.all_repertoire(include_sequences=False)), freeze=True)
    for clz_name in sorted(lgr.classes_lookup.keys(), key=lambda x: (x.startswith(TAG_CLASSNAME_PREFIX), x)):
        clz = lgr.classes_lookup[clz_name]
        if clz.implicit:
            continue
        try:
            clz_members = clz.get_pattern(lgr.rules_lookup, lgr.classes_lookup, lgr.unicode_database, as_set=True) & repertoire
        except RuntimeError:
            clz_members = []
        members[clz_name] = clz_members
    return (members, repertoire)


def generate_classes_report(idn_table: LGR, reference_lgr: LGR) -> List[Dict]:
    idn_table_members, idn_table_repertoire = get_repertoire_and_class_members(idn_table)
    ref_lgr_members, ref_lgr_repertoire = get_repertoire_and_class_members(reference_lgr)
    reports = []
    for clz_name in sorted(idn_table_members.keys() | ref_lgr_members.keys(), key=lambda x: (x.startswith(TAG_CLASSNAME_PREFIX), x)):
        report = ClassReport(clz_name, set(idn_table_members.get(clz_name, set())), set(ref_lgr_members.get(clz_name, set())), set(idn_table_repertoire), set(ref_lgr_repertoire)).to_dict()
        if report:
            reports.append(report)
    return reports
