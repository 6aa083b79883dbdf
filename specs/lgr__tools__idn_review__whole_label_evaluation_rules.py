# Reference behaviour of lgr.tools.idn_review.whole_label_evaluation_rules (parsed by the checks, never executed).
import logging
from typing import Dict, Set, Tuple, List
from language_tags import tags
from lgr.char import Char, CharSequence
from lgr.core import LGR
from lgr.exceptions import NotInLGR
from lgr.rule import Rule
from lgr.tools.idn_review.utils import IdnReviewResult, cp_report
SAME_SCRIPTS = {'Aran': 'Arab', 'Cyrs': 'Cyrl', 'ace': 'zh', 'yue': 'zh', 'wuu': 'zh', 'gan': 'zh', 'och': 'zh', 'cjy': 'zh', 'hak': 'zh', 'hsn': 'zh', 'cpx': 'zh', 'czh': 'zh', 'mnp': 'zh', 'nan': 'zh', 'cdo': 'zh', 'cmn': 'zh', 'lzh': 'zh', 'zhx': 'zh', 'czo': 'zh', 'ltc': 'zh', 'csl': 'zh', 'cpi': 'zh', 'kvk': 'ko', 'oko': 'ko', 'okm': 'ko', 'ka': 'Knda', 'kan': 'Knda', 'he': 'Hebr', 'iw': 'Hebr', 'hbo': 'Hebr', 'ojp': 'ja', 'jpx': 'ja', 'jsl': 'ja', 'Jpan': 'ja', 'Kana': 'ja', 'Hira': 'ja', 'Latg': 'Latn', 'Latf': 'Latn'}
COMBINING_MARK_LABELS = {'Arab': [], 'Armn': [], 'Beng': [[2497, 2478, 2478]], 'Cyrl': [], 'Deva': [[2376, 2348, 2348]], 'Ethi': [], 'Geor': [], 'Grek': [], 'Gujr': [[2748, 2732]], 'Guru': [[2562, 2592]], 'zh': [], 'Knda': [[3203, 3222]], 'ko': [], 'Hebr': [], 'ja': [], 'Khmr': [[6071, 6026]], 'Laoo': [[3764, 3741, 3741]], 'Latn': [], 'Mlym': [[3330, 3356]], 'Mymr': [[4146, 4101]], 'Orya': [[2819, 2837]], 'Sinh': [[3458, 3496]], 'Taml': [[3006, 2970]], 'Telu': [[3075, 3094]], 'Thaa': [[1958, 1926]], 'Thai': [[3639, 3585]], 'Tibt': [[3968, 3904]]}
CONSECUTIVE_HYPHEN_LABELS = {'Arab': [[45, 1578, 1578], [1578, 1578, 45], [1578, 1578, 45, 45, 1578, 1578]], 'Armn': [[45, 1377, 1377], [1377, 1377, 45], [1377, 1377, 45, 45, 1377, 1377]], 'Beng': [[45, 2478, 2478], [2478, 2478, 45], [2478, 2478, 45, 45, 2478, 2478]], 'Cyrl': [[45, 1076, 1076], [1076, 1076, 45], [1076, 1076, 45, 45, 1076, 1076]], 'Deva': [[45, 2348, 2348], [2348, 2348, 45], [2348, 2348, 45, 45, 2348, 2348]], 'Ethi': [[45, 4648, 4648], [4648, 4648, 45], [4648, 4648, 45, 45, 4648, 4648]], 'Geor': [[45, 4305, 4305], [4305, 4305, 45], [4305, 4305, 45, 45, 4305, 4305]], 'Grek': [[45, 960, 960], [960, 960, 45], [960, 960, 45, 45, 960, 960]], 'Gujr': [[45, 2732, 2732], [2732, 2732, 45], [2732, 2732, 45, 45, 2732, 2732]], 'Guru': [[45, 2592, 2592], [2592, 2592, 45], [2592, 2592, 45, 45, 2592, 2592]], 'zh': [[45, 20004, 20004], [20004, 20004, 45], [20004, 20004, 45, 45, 20004, 20004]], 'Knda': [[45, 3221, 3221], [3221, 3221, 45], [3221, 3221, 45, 45, 3221, 3221]], 'ko': [[45, 44032, 44032], [44032, 44032, 45], [44032, 44032, 45, 45, 44032, 44032]], 'Hebr': [[45, 1489, 1489], [1489, 1489, 45], [1489, 1489, 45, 45, 1489, 1489]], 'ja': [[45, 12388, 12388], [12388, 12388, 45], [12388, 12388, 45, 45, 12388, 12388]], 'Khmr': [[45, 6026, 6026], [6026, 6026, 45], [6026, 6026, 45, 45, 6026, 6026]], 'Laoo': [[45, 3741, 3741], [3741, 3741, 45], [3741, 3741, 45, 45, 3741]], 'Latn': [[45, 109, 109], [109, 109, 45], [109, 109, 45, 45, 109, 109]], 'Mlym': [[45, 3356, 3356], [3356, 3356, 45], [3356, 3356, 45, 45, 3356, 3356]], 'Mymr': [[45, 4101, 4101], [4101, 4101, 45], [4101, 4101, 45, 45, 4101, 4101]], 'Orya': [[45, 2837, 2837], [2837, 2837, 45], [2837, 2837, 45, 45, 2837, 2837]], 'Sinh': [[45, 3496, 3496], [3496, 3496, 45], [3496, 3496, 45, 45, 3496, 3496]], 'Taml': [[45, 2970, 2970], [2970, 2970, 45], [2970, 2970, 45, 45, 2970, 2970]], 'Telu': [[45, 3094, 3094], [3094, 3094, 45], [3094, 3094, 45, 45, 3094, 3094]], 'Thaa': [[45, 1926, 1926], [1926, 1926, 45], [1926, 1926, 45, 45, 1926, 1926]], 'Thai': [[45, 3585, 3585], [3585, 3585, 45], [3585, 3585, 45, 45, 3585, 3585]], 'Tibt': [[45, 3904, 3904], [3904, 3904, 45], [3904, 3904, 45, 45, 3904, 3904]]}
BEGIN_DIGIT_LABELS = {'Arab': [[50, 1578, 1578], [1632, 1578, 1578], [1781, 1578, 1578]], 'Armn': [], 'Beng': [], 'Cyrl': [], 'Deva': [], 'Ethi': [], 'Geor': [], 'Grek': [], 'Gujr': [], 'Guru': [], 'zh': [], 'ko': [], 'Knda': [], 'Hebr': [[51, 1489, 1489]], 'ja': [], 'Khmr': [], 'Laoo': [], 'Latn': [], 'Mlym': [], 'Mymr': [], 'Orya': [], 'Taml': [], 'Telu': [], 'Thaa': [[52, 1926]], 'Thai': [], 'Tibt': []}
MULTIPLE_DIGIT_SETS_LABELS = {'Arab': [[1578, 1578, 50, 1634], [1578, 1578, 50, 1781], [1578, 1578, 1634, 1781]], 'Armn': [], 'Beng': [[2478, 2478, 50, 2537]], 'Cyrl': [], 'Deva': [[2349, 50, 2406]], 'Ethi': [], 'Geor': [], 'Grek': [], 'Gujr': [[2732, 50, 2798]], 'Guru': [], 'zh': [], 'ko': [], 'Knda': [[3205, 3303, 49]], 'Hebr': [], 'ja': [], 'Khmr': [[6026, 50, 6117]], 'Laoo': [[3741, 3801, 51]], 'Latn': [], 'Mlym': [], 'Mymr': [[4101, 4162, 53], [4101, 53, 4245], [4101, 4162, 4245]], 'Orya': [], 'Sinh': [], 'Taml': [], 'Telu': [], 'Thaa': [], 'Thai': [[3585, 3667, 51]], 'Tibt': [[3904, 51, 3879]]}
JAPANESE_CONTEXTJ_LABELS = {'Arab': [], 'Armn': [], 'Beng': [], 'Cyrl': [], 'Deva': [], 'Ethi': [], 'Geor': [], 'Grek': [], 'Gujr': [], 'Guru': [], 'zh': [], 'ko': [], 'Knda': [], 'Hebr': [], 'ja': [[98, 12539, 97]], 'Khmr': [], 'Laoo': [], 'Latn': [], 'Mlym': [], 'Mymr': [], 'Orya': [], 'Sinh': [], 'Taml': [], 'Telu': [], 'Thaa': [], 'Thai': [], 'Tibt': []}
ARABIC_NO_EXTENDED_END_LABELS = {'Arab': [['TODO']], 'Armn': [], 'Beng': [], 'Cyrl': [], 'Deva': [], 'Ethi': [], 'Geor': [], 'Grek': [], 'Gujr': [], 'Guru': [], 'zh': [], 'ko': [], 'Knda': [], 'Hebr': [], 'ja': [], 'Khmr': [], 'Laoo': [], 'Latn': [], 'Mlym': [], 'Mymr': [], 'Orya': [], 'Sinh': [], 'Taml': [], 'Telu': [], 'Thaa': [], 'Thai': [], 'Tibt': []}


class WholeLabelEvaluationRuleReport:

    def __init__(self, idn_table: LGR, idn_table_rule: Rule, reference_lgr_rule: Rule, idn_table_context: Set, reference_lgr_context: Set):
        self.idn_table = idn_table
        self.idn_table_rule = idn_table_rule
        self.reference_lgr_rule = reference_lgr_rule
        self.idn_table_context = idn_table_context
        self.reference_lgr_context = reference_lgr_context
        self.idn_table_repertoire = set((c.cp for c in self.idn_table.repertoire))

    def compare_wle(self) -> Tuple[IdnReviewResult, str]:
        if not self.idn_table_rule:
            if self.reference_lgr_context and (not self.idn_table_repertoire & self.reference_lgr_context):
                return (IdnReviewResult.SUBSET, 'Match as a subset (for the rules missing in IDN Table, applicable code points in Ref. LGR are not in IDN Table)')
            return (IdnReviewResult.MANUAL_CHECK, 'Mismatch (WLE rule only exists in Ref. LGR)')
        if not self.reference_lgr_rule:
            return (IdnReviewResult.MANUAL_CHECK, 'Mismatch (WLE rule only exists in IDN Table)')
        if str(self.idn_table_rule) == str(self.reference_lgr_rule):
            if not self.idn_table_context ^ self.reference_lgr_context:
                return (IdnReviewResult.MATCH, 'Exact Match (matched names and content)')
        return (IdnReviewResult.MANUAL_CHECK, 'Check the content of the rule')

    def to_dict(self) -> Dict:
        result, remark = self.compare_wle()
        return {'name': self.idn_table_rule.name if self.idn_table_rule else self.reference_lgr_rule.name, 'idn_table': self.idn_table_rule is not None, 'reference_lgr': self.reference_lgr_rule is not None, 'result': result.name, 'remark': remark}


class WholeLabelEvaluationRulesCheck:
    ASCII_RANGE_MAX = 255

    def __init__(self, idn_table: LGR, reference_lgr: LGR):
        self.idn_table = idn_table
        self.reference_lgr = reference_lgr
        self.idn_table_context_rules: Dict[str, Set] = dict()
        self.idn_table_char_without_rule: Set[Char] = set()
        self.reference_lgr_context_rules: Dict[str, Set] = dict()
        self.combining_mark = False
        self.has_hyphen = 45 in self.idn_table.repertoire
        self.has_digits = False
        self.has_multiple_digits_sets = False
        self.is_rtl = False
        self.check_rtl()
        self.language_tags = []
        self.get_language_tags(self.idn_table)
        if not self.language_tags and self.reference_lgr:
            self.get_language_tags(self.reference_lgr)
        self.get_context_rules()

    def check_rtl(self):
        self.is_rtl = False
        for script in self.idn_table.metadata.get_scripts(allow_invalid=True):
            if self.idn_table.unicode_database.is_script_rtl(script):
                self.is_rtl = True

    def get_language_tags(self, table):
        for language_tag in sorted(table.metadata.languages):
            tag = tags.tag(language_tag)
            if tag.language:
                self.language_tags.append(tag.language.format)
        self.language_tags.extend(table.metadata.get_scripts(allow_invalid=True))

    def get_context_rules(self):
        nbr_digits = 0
        for char in self.idn_table.repertoire.all_repertoire():
            if len(char.cp) == 1:
                cp = char.cp[0]
                if self.idn_table.unicode_database.is_digit(cp):
                    nbr_digits += 1
                    self.has_digits = True
                if self.idn_table.unicode_database.is_combining_mark(cp):
                    self.combining_mark = True
                if not self.language_tags and self.idn_table.unicode_database.is_rtl(cp):
                    self.is_rtl = True
            if char.when:
                self.idn_table_context_rules.setdefault(char.when, set()).add(char.cp)
            elif char.not_when:
                self.idn_table_context_rules.setdefault(char.not_when, set()).add(char.cp)
            elif self.reference_lgr and char not in self.reference_lgr.repertoire:
                self.idn_table_char_without_rule.add(char)
        self.has_multiple_digits_sets = nbr_digits > 10
        if self.reference_lgr:
            for char in self.reference_lgr.repertoire:
                if char.when:
                    self.reference_lgr_context_rules.setdefault(char.when, set()).add(char.cp)
                if char.not_when:
                    self.reference_lgr_context_rules.setdefault(char.not_when, set()).add(char.cp)

    def get_labels(self, collection):
        labels = []
        for ls in self.language_tags:
            ls = SAME_SCRIPTS.get(ls, ls)
            l = collection.get(ls)
            if l:
                labels.extend(l)
        return labels

    def make_report(self, condition, collection):
        result = None
        if condition:
            for label in self.get_labels(collection):
                if not self.check_label_cp_in_repertoire(label):
                    result = None
                    break
                result = not self.test_label(label)
                if not result:
                    break
        return {'applicable': condition, 'exists': result}

    def check_label_cp_in_repertoire(self, label):
        if not label:
            # a sequence ends with the label
            return True

        result = False
        cp = label[0]
        try:
            char_list = self.idn_table.repertoire.get_chars_from_prefix(cp)
        except NotInLGR:
            return False
        for char in char_list:
            if isinstance(char, CharSequence):
                if not char.is_prefix_of(label):
                    continue
                else:
                    result |= self.check_label_cp_in_repertoire(label[len(char):])
            elif len(label) > 1:
                result |= self.check_label_cp_in_repertoire(label[1:])
            else:
                return True
        return result

    def combining_mark_report(self) -> Dict:
        return self.make_report(self.combining_mark, COMBINING_MARK_LABELS)

    def consecutive_hyphens_report(self) -> Dict:
        return self.make_report(self.has_hyphen, CONSECUTIVE_HYPHEN_LABELS)

    def rtl_report(self) -> Dict:
        return self.make_report(self.is_rtl and self.has_digits, BEGIN_DIGIT_LABELS)

    def digits_set_report(self) -> Dict:
        return self.make_report(self.has_multiple_digits_sets, MULTIPLE_DIGIT_SETS_LABELS)

    def japanese_contextj_report(self) -> Dict:
        contains_katakana_middle_dot = 12539 in self.idn_table.repertoire
        return self.make_report(contains_katakana_middle_dot, JAPANESE_CONTEXTJ_LABELS)

    def arabic_no_extended_report(self):
        is_arabic = self.check_language('Arab')
        return self.make_report(is_arabic, ARABIC_NO_EXTENDED_END_LABELS)

    def check_language(self, language_code):
        is_language = False
        for ls in self.language_tags:
            if SAME_SCRIPTS.get(ls, ls) == language_code:
                is_language = True
        return is_language

    def test_label(self, label):
        result, a, b, c, d, e = self.idn_table.test_label_eligible(label)
        return result

    def additional_cp_report(self) -> List[Dict]:
        unidb = self.idn_table.unicode_database
        return cp_report(unidb, sorted(self.idn_table_char_without_rule, key=lambda x: x.cp))


def generate_additional_general_rules(check):
    return {'additional_general_rules': {'combining_mark': check.combining_mark_report(), 'consecutive_hyphens': check.consecutive_hyphens_report(), 'rtl': check.rtl_report(), 'digits_set': check.digits_set_report(), 'japanese_contextj': check.japanese_contextj_report()}}


def generate_whole_label_evaluation_rules_report(idn_table: LGR, reference_lgr: LGR) -> Dict:
    check = WholeLabelEvaluationRulesCheck(idn_table, reference_lgr)
    reports = []
    for rule_name in sorted(idn_table.rules_lookup.keys() | reference_lgr.rules_lookup.keys()):
        report = WholeLabelEvaluationRuleReport(idn_table, idn_table.rules_lookup.get(rule_name), reference_lgr.rules_lookup.get(rule_name), check.idn_table_context_rules.get(rule_name, set()), check.reference_lgr_context_rules.get(rule_name, set()))
        reports.append(report.to_dict())
    result = {'comparison': reports, 'additional_cp': check.additional_cp_report()}
    result.update(generate_additional_general_rules(check))
    return result


def generate_whole_label_evaluation_rules_core_report(idn_table: LGR) -> Dict:
    return generate_additional_general_rules(WholeLabelEvaluationRulesCheck(idn_table, None))
