# Reference behaviour of lgr.core (parsed by the checks, never executed).
from __future__ import unicode_literals
import collections
import logging
from collections import OrderedDict
from io import StringIO
from lgr.action import Action
from lgr.char import CharSequence, RangeChar, Repertoire
from lgr.classes import Class, TAG_CLASSNAME_PREFIX
from lgr.exceptions import LGRApiInvalidParameter, CharAlreadyExists, CharInvalidContextRule, NotInRepertoire, NotInLGR, CharInvalidIdnaProperty, CharNotInScript, RangeInvalidContextRule, VariantInvalidContextRule, ReferenceNotDefined, DuplicateReference, LGRFormatException, LGRApiException, LGRException
from lgr.metadata import Metadata, ReferenceManager
from lgr.mixed_scripts_variant_filter import BaseMixedScriptsVariantFilter, MixedScriptsVariantFilter
from lgr.populate import populate_lgr
from lgr.utils import COMMON_SCRIPT, INHERITED_SCRIPT, collapse_codepoints, format_cp, is_idna_valid_cp_or_sequence
from lgr.validate import validate_lgr
DEFAULT_DISPOSITION = 'allocatable'
INVALID_DISPOSITION = 'invalid'
DEFAULT_ACTIONS = (Action(disp='invalid', comment='Default action for invalid', any_variant=['invalid']), Action(disp='blocked', comment='Default action for blocked', any_variant=['blocked']), Action(disp='allocatable', comment='Default action for allocatable', any_variant=['allocatable']), Action(disp='activated', comment='Default action for activated', all_variants=['activated']), Action(disp='valid', comment='Default catch-all'))
DEFAULT_ACTIONS_XML = ('<action disp="invalid" comment="Default action for invalid" any-variant="invalid"/>', '<action disp="blocked" comment="Default action for blocked" any-variant="blocked"/>', '<action disp="allocatable" comment="Default action for allocatable" any-variant="allocatable"/>', '<action disp="activated" comment="Default action for activated" all-variants="activated"/>', '<action disp="valid" comment="Default catch-all" />')
MAX_NUMBER_GENERATED_VARIANTS = 1000
PROTOCOL_LABEL_MAX_LENGTH = 63


class LGR(object):

    def __init__(self, name='New File', metadata=None, reference_manager=None, unicode_database=None, allow_invalid_property=False):
        self.name = name or 'New File'
        if metadata is None:
            self.metadata = Metadata()
        else:
            self.metadata = metadata
        self.repertoire = Repertoire()
        self._unicode_database = unicode_database
        self.raise_on_invalid_property = not allow_invalid_property
        self.types = set()
        self.rules = []
        self.rules_lookup = OrderedDict()
        self.rules_xml = []
        self.classes = []
        self.classes_lookup = OrderedDict()
        self.classes_xml = []
        self.actions = []
        self.actions_xml = []
        if reference_manager is None:
            self.reference_manager = ReferenceManager()
        else:
            self.reference_manager = reference_manager

    def __getstate__(self):
        odict = self.__dict__.copy()
        del odict['_unicode_database']
        return odict

    def __setstate__(self, idict):
        self.__dict__.update(idict)
        self.__dict__['_unicode_database'] = None

    @property
    def effective_actions(self):
        return self.actions + list(DEFAULT_ACTIONS)

    @property
    def effective_actions_xml(self):
        return self.actions_xml + list(DEFAULT_ACTIONS_XML)

    @property
    def unicode_database(self):
        return self._unicode_database

    @unicode_database.setter
    def unicode_database(self, unidb):
        unidb_version = unidb.get_unicode_version()
        if unidb_version != self.metadata.unicode_version:
            pass
        self._unicode_database = unidb

    def add_reference(self, value, comment=None, ref_id=None):
        return self.reference_manager.add_reference(value, comment=comment, ref_id=ref_id)

    def del_reference(self, ref_id):
        self.reference_manager.del_reference(ref_id)
        self.repertoire.del_reference(ref_id)

    def del_tag(self, tag_id):
        self.repertoire.del_tag(tag_id)
        self.classes_lookup.pop(TAG_CLASSNAME_PREFIX + tag_id, None)

    def add_cp(self, cp_or_sequence, comment=None, ref=None, tag=None, when=None, not_when=None, validating_repertoire=None, override_repertoire=False, force=False):
        cp_or_sequence = self._check_convert_cp(cp_or_sequence)
        if not force and when is not None and (not_when is not None):
            raise CharInvalidContextRule(cp_or_sequence)
        if validating_repertoire is not None:
            for cp in cp_or_sequence:
                cp_valid = validating_repertoire.check_cp(cp)
                if not cp_valid:
                    if not override_repertoire and (not force):
                        raise NotInRepertoire(cp_or_sequence)
        references = []
        for ref_id in ref if ref is not None else []:
            if ref_id in self.reference_manager:
                references.append(ref_id)
            elif not force:
                raise ReferenceNotDefined(ref_id)
        ref_set = set(references)
        if len(ref_set) != len(references):
            if not force:
                raise DuplicateReference(cp_or_sequence)
        tags = list(tag) if tag is not None else []
        if len(cp_or_sequence) > 1 and len(tags) > 0:
            if not force:
                raise LGRFormatException(LGRFormatException.LGRFormatReason.SEQUENCE_NO_TAG)
        duplicates = [t for t, count in collections.Counter(tags).items() if count > 1]
        if len(duplicates) > 0:
            if not force:
                raise LGRFormatException(LGRFormatException.LGRFormatReason.DUPLICATE_TAG)
        self.repertoire.add_char(cp_or_sequence, comment=comment, ref=references, tag=tags, when=when, not_when=not_when)
        self._add_cp_to_tag_classes(cp_or_sequence, tags)

    def check_cp(self, cp_or_sequence):
        cp_or_sequence = self._check_convert_cp(cp_or_sequence)
        return cp_or_sequence in self.repertoire

    def del_cp(self, cp_or_sequence):
        cp_or_sequence = self._check_convert_cp(cp_or_sequence)
        char = self.repertoire.get_char(cp_or_sequence)
        if isinstance(char, RangeChar):
            self.expand_range(char.first_cp, char.last_cp)
        self.repertoire.del_char(cp_or_sequence)
        self._del_cp_from_tag_classes(cp_or_sequence, char.tags)

    def add_range(self, first_cp, last_cp, comment=None, ref=None, tag=None, when=None, not_when=None, validating_repertoire=None, override_repertoire=False, force=False):
        if first_cp > last_cp:
            raise LGRApiInvalidParameter('first_cp')
        if not force and when is not None and (not_when is not None):
            raise RangeInvalidContextRule(first_cp, last_cp)
        check_range = self.check_range(first_cp, last_cp, validating_repertoire)
        codepoints = []
        for cp, status in check_range:
            if status is None:
                codepoints.append(cp)
            elif isinstance(status, NotInRepertoire):
                if not override_repertoire and (not force):
                    raise status
                else:
                    codepoints.append(cp)
            elif isinstance(status, CharInvalidIdnaProperty):
                if not self.raise_on_invalid_property:
                    codepoints.append(cp)
                elif not force:
                    raise status
            elif isinstance(status, CharAlreadyExists):
                if not force:
                    raise status
            else:
                raise LGRException()
        present = [cp for cp in codepoints if cp in self.repertoire]
        if present and (not force):
            raise CharAlreadyExists([present[0]])
        codepoints = [cp for cp in codepoints if cp not in self.repertoire]
        references = []
        for ref_id in ref if ref is not None else []:
            if ref_id in self.reference_manager:
                references.append(ref_id)
            elif not force:
                raise ReferenceNotDefined(ref_id)
        ref_set = set(references)
        if len(ref_set) != len(references):
            if not force:
                raise DuplicateReference(first_cp)
        tags = list(tag) if tag is not None else []
        duplicates = [t for t, count in collections.Counter(tags).items() if count > 1]
        if len(duplicates) > 0:
            if not force:
                raise LGRFormatException(LGRFormatException.LGRFormatReason.DUPLICATE_TAG)
        self._insert_list(codepoints, comment=comment, ref=references, tag=tags, when=when, not_when=not_when)
        for cp in codepoints:
            self._add_cp_to_tag_classes(cp, tags)

    def del_range(self, first_cp, last_cp):
        if first_cp > last_cp:
            raise LGRApiInvalidParameter('first_cp')
        tags = []
        if first_cp in self.repertoire:
            tags = self.repertoire.get_char([first_cp]).tags
        self.repertoire.del_range(first_cp, last_cp)
        for cp in range(first_cp, last_cp + 1):
            self._del_cp_from_tag_classes(cp, tags)

    def expand_ranges(self):
        for first_cp, last_cp in self.repertoire.ranges[:]:
            self.expand_range(first_cp, last_cp)

    def expand_range(self, first_cp, last_cp):
        if first_cp > last_cp:
            raise LGRApiInvalidParameter('first_cp')
        range_char = self.get_char(first_cp)
        self.repertoire.del_range(first_cp, last_cp)
        for cp in range(first_cp, last_cp + 1):
            self.repertoire.add_char([cp], comment=range_char.comment, ref=range_char.references, tag=range_char.tags, when=range_char.when, not_when=range_char.not_when)

    def add_variant(self, cp_or_sequence, variant_cp, variant_type=None, when=None, not_when=None, comment=None, ref=None, validating_repertoire=None, override_repertoire=False, force=False):
        cp_or_sequence = self._check_convert_cp(cp_or_sequence)
        var_cp_or_sequence = self._check_convert_cp(variant_cp)
        if not force and when is not None and (not_when is not None):
            raise VariantInvalidContextRule(cp_or_sequence, var_cp_or_sequence)
        if validating_repertoire is not None:
            for var_cp in var_cp_or_sequence:
                cp_valid = validating_repertoire.check_cp(var_cp)
                if not cp_valid:
                    if not override_repertoire and (not force):
                        raise NotInRepertoire(cp_or_sequence)
        references = []
        for ref_id in ref if ref is not None else []:
            if ref_id in self.reference_manager:
                references.append(ref_id)
            elif not force:
                raise ReferenceNotDefined(ref_id)
        ref_set = set(references)
        if len(ref_set) != len(references):
            if not force:
                raise DuplicateReference(cp_or_sequence)
        self.repertoire.add_variant(cp_or_sequence, var_cp_or_sequence, variant_type=variant_type, when=when, not_when=not_when, comment=comment, ref=references)
        self.types.add(variant_type)

    def del_variant(self, cp_or_sequence, variant_cp, when=None, not_when=None):
        cp_or_sequence = self._check_convert_cp(cp_or_sequence)
        return self.repertoire.del_variant(cp_or_sequence, variant_cp, when, not_when)

    def get_variants(self, cp_or_sequence):
        cp_or_sequence = self._check_convert_cp(cp_or_sequence)
        return self.repertoire.get_variants(cp_or_sequence)

    def get_variant(self, cp_or_sequence, var_cp):
        cp_or_sequence = self._check_convert_cp(cp_or_sequence)
        return self.repertoire.get_variant(cp_or_sequence, var_cp)

    def get_char(self, cp_or_sequence):
        cp_or_sequence = self._check_convert_cp(cp_or_sequence)
        return self.repertoire.get_char(cp_or_sequence)

    def check_range(self, first_cp, last_cp, validating_repertoire=None):
        if first_cp > last_cp:
            raise LGRApiInvalidParameter('first_cp')
        result = []
        for cp in range(first_cp, last_cp + 1):
            keep_raise = self.raise_on_invalid_property
            try:
                self.raise_on_invalid_property = True
                cp_ = self._check_convert_cp(cp)
            except CharInvalidIdnaProperty as invalid:
                result.append((cp, invalid))
                continue
            finally:
                self.raise_on_invalid_property = keep_raise
            if validating_repertoire is not None:
                cp_valid = validating_repertoire.check_cp(cp)
                if not cp_valid:
                    result.append((cp, NotInRepertoire(cp)))
                    continue
            if cp_ in self.repertoire:
                result.append((cp, CharAlreadyExists(cp_)))
                continue
            result.append((cp, None))
        return result

    def add_codepoints(self, codepoints, comment=None, ref=None, tag=None):
        if not codepoints:
            return
        ranges = collapse_codepoints(codepoints)
        for first_cp, last_cp in ranges:
            if first_cp == last_cp:
                self.add_cp([first_cp], comment=comment, ref=ref, tag=tag)
            else:
                self.add_range(first_cp, last_cp, comment=comment, ref=ref, tag=tag)

    def validate(self, options):
        return validate_lgr(self, options)

    def add_rule(self, rule, force=False):
        try:
            rule.validate([], self.rules_lookup, self.classes_lookup)
        except LGRFormatException as exc:
            level = logging.WARNING if force else logging.ERROR
            if not force:
                raise exc
        self.rules_lookup[rule.name] = rule
        self.rules.append(rule.name)

    def add_action(self, action, force=False):
        self.actions.append(action)

    def add_class(self, cls, force=False):
        try:
            cls.validate([], self.rules_lookup, self.classes_lookup)
        except LGRFormatException as exc:
            level = logging.WARNING if force else logging.ERROR
            if not force:
                raise exc
        self.classes_lookup[cls.name] = cls
        self.classes.append(cls.name)

    def test_label_eligible(self, label, is_variant=False, collect_log=True, generate_chars=False):
        if not label:
            raise LGRApiInvalidParameter('label')
        log_output = StringIO()
        if not collect_log:
            return self._test_eligibility(label, is_variant, generate_chars, log_output)
        ch = logging.StreamHandler(log_output)
        ch.setLevel(logging.INFO)
        rule_logger.addHandler(ch)
        try:
            return self._test_eligibility(label, is_variant, generate_chars, log_output)
        finally:
            rule_logger.removeHandler(ch)

    def _test_eligibility(self, label, is_variant, generate_chars, log_output):
        chars = []
        if generate_chars:
            valid, label_parts, label_invalid_parts, chars = self._test_preliminary_eligibility(label, generate_chars=generate_chars)
        else:
            valid, label_parts, label_invalid_parts = self._test_preliminary_eligibility(label, generate_chars=generate_chars)
        if not valid:
            if generate_chars:
                return (False, label_parts, label_invalid_parts, INVALID_DISPOSITION, -1, log_output.getvalue(), chars)
            else:
                return (False, label_parts, label_invalid_parts, INVALID_DISPOSITION, -1, log_output.getvalue())
        disposition, action_idx = self._test_label_disposition(label, apply_reflexive_mapping=not is_variant)
        if disposition == INVALID_DISPOSITION:
            if generate_chars:
                return (False, [], [], disposition, action_idx, log_output.getvalue(), chars)
            else:
                return (False, [], [], disposition, action_idx, log_output.getvalue())
        if generate_chars:
            return (True, label, [], disposition, action_idx, log_output.getvalue(), chars)
        else:
            return (True, label, [], disposition, action_idx, log_output.getvalue())

    def compute_label_disposition(self, label, include_invalid=False, collect_log=True, hide_mixed_script_variants=False, with_labels=None, generate_chars=False):
        if self._unicode_database is None:
            raise LGRApiException()
        if len(label) > PROTOCOL_LABEL_MAX_LENGTH:
            raise LGRApiInvalidParameter('label')
        label = tuple(label)
        variant_set = self._generate_label_variants(label, hide_mixed_script_variants=hide_mixed_script_variants)
        original_label = None
        already_handled = set()
        for variant_cp, disp_set, only_variants, chars in variant_set:
            if not generate_chars and variant_cp in already_handled:
                continue
            if with_labels and variant_cp not in with_labels:
                continue
            already_handled.add(variant_cp)
            log_output = StringIO()
            if collect_log:
                ch = logging.StreamHandler(log_output)
                ch.setLevel(logging.DEBUG)
                rule_logger.addHandler(ch)
            try:
                eligible, _, variant_invalid_parts, _, idx, _ = self.test_label_eligible(variant_cp, is_variant=variant_cp != label, collect_log=collect_log)
                if not eligible:
                    variant_disp = INVALID_DISPOSITION
                else:
                    variant_disp, idx = self._apply_actions(variant_cp, disp_set, only_variants)
                    if variant_disp is None:
                        variant_disp = DEFAULT_DISPOSITION
            finally:
                if collect_log:
                    rule_logger.removeHandler(ch)
            if variant_disp != INVALID_DISPOSITION or include_invalid:
                if variant_cp == label:
                    if generate_chars:
                        original_label = (variant_cp, variant_disp, variant_invalid_parts, idx, disp_set, log_output.getvalue(), chars)
                    else:
                        original_label = (variant_cp, variant_disp, variant_invalid_parts, idx, disp_set, log_output.getvalue())
                elif generate_chars:
                    yield (variant_cp, variant_disp, variant_invalid_parts, idx, disp_set, log_output.getvalue(), chars)
                else:
                    yield (variant_cp, variant_disp, variant_invalid_parts, idx, disp_set, log_output.getvalue())
        if not original_label:
            if generate_chars:
                _, _, _, disposition, action_idx, log, chars = self.test_label_eligible(label, collect_log=collect_log, generate_chars=generate_chars)
                original_label = (label, disposition, None, action_idx, set(), log, chars)
            else:
                _, _, _, disposition, action_idx, log = self.test_label_eligible(label, collect_log=collect_log, generate_chars=generate_chars)
                original_label = (label, disposition, None, action_idx, set(), log)
        yield original_label

    def compute_label_disposition_summary(self, label, include_invalid=False, hide_mixed_script_variants=False):
        label_dispositions = list(self.compute_label_disposition(label, include_invalid=include_invalid, hide_mixed_script_variants=hide_mixed_script_variants))
        summary = collections.Counter([disp for _, disp, _, _, _, _ in label_dispositions])
        return (summary, label_dispositions)

    def estimate_variant_number(self, label, hide_mixed_script_variants=False):
        _, _, _, chars = self._test_preliminary_eligibility(label, generate_chars=True)
        variant_number = 1

        def vars_excl_reflexive(current_char):
            return [v for v in current_char.get_variants() if v.cp != current_char.cp]
        if hide_mixed_script_variants:
            try:
                mixed_script_filter = MixedScriptsVariantFilter(label, self.repertoire, unidb=self._unicode_database)
            except NotInLGR:
                return 0
            for char in chars:
                variant_number *= len([v for v in vars_excl_reflexive(char) if mixed_script_filter.cp_in_base_scripts(v.cp)]) + 1
            for script in mixed_script_filter.other_scripts:
                other_script_number = 1
                for char in chars:
                    other_script_number *= len([v for v in vars_excl_reflexive(char) if mixed_script_filter.cp_in_scripts(v.cp, {script})])
                variant_number += other_script_number
        else:
            for char in chars:
                variant_number *= len(vars_excl_reflexive(char)) + 1
        return variant_number

    def generate_index_label(self, label, max_recursion=0):
        if not label:
            return tuple()
        result, _, not_in_lgr, _ = self._test_preliminary_eligibility(label, generate_chars=True)
        if not result:
            raise NotInLGR(not_in_lgr[0][0])
        partitions = self._generate_label_partitions(label)
        indexes = []
        for partition in partitions:
            indexes.append(self._generate_index_label_on_partition(partition))
        index_label = min(indexes)
        if max_recursion > 0 and index_label != label:
            old_index_label = tuple(index_label)
            try:
                index_label = self.generate_index_label(index_label, max_recursion=max_recursion - 1)
                if index_label != old_index_label:
                    pass
            except Exception:
                pass
        return tuple(index_label)

    def _generate_index_label_on_partition(self, chars):
        index_label = []
        prefix = tuple()
        suffix = tuple((c for cp in chars[1:] for c in cp.cp))
        idx = 0
        for char in chars:
            ids = [list(char.cp)]
            for var in char.get_variants():
                var_label = prefix + var.cp + suffix
                if not self._test_context_rules(var, var_label, idx):
                    continue
                ids.append(list(var.cp))
            index_label.extend(list(min(ids)))
            prefix += char.cp
            suffix = suffix[len(char):]
            idx += len(char)
        return tuple(index_label)

    def _generate_label_partitions(self, label, prefix=None):
        all_partitions = []
        cp = label[0]
        prefix = prefix or ()
        original_label = prefix + tuple(label)
        try:
            char_list = self.repertoire.get_chars_from_prefix(cp)
        except NotInLGR:
            return []
        for char in char_list:
            if not char.is_prefix_of(label):
                continue
            if not self._test_context_rules(char, original_label, len(prefix)):
                continue
            if len(label) > len(char):
                partitions = self._generate_label_partitions(label[len(char):], prefix=prefix + char.cp)
                if not partitions:
                    continue
                for label_partition in partitions:
                    chars = [char] + label_partition
                    all_partitions.append(chars)
            else:
                all_partitions.append([char])
        return all_partitions

    def all_tags(self):
        prefix_len = len(TAG_CLASSNAME_PREFIX)
        out = []
        for clsname in self.classes_lookup:
            if clsname.startswith(TAG_CLASSNAME_PREFIX):
                out.append(clsname[prefix_len:])
        return out

    def get_rfc7940_validation(self, policy=None, verbose=False):
        return self.metadata.rfc7940_checks.get_final_result(policy, verbose)

    def notify_error(self, test_label):
        self.metadata.rfc7940_checks.error(test_label)

    def notify_tested(self, test_label):
        self.metadata.rfc7940_checks.tested(test_label)

    def get_tag_classes(self):
        prefix_len = len(TAG_CLASSNAME_PREFIX)
        out = {}
        for clsname, clz in self.classes_lookup.items():
            if clsname.startswith(TAG_CLASSNAME_PREFIX):
                out[clsname[prefix_len:]] = clz
        return out

    def populate_variants(self):
        return populate_lgr(self)

    def _test_preliminary_eligibility(self, label, generate_chars=False):
        i = 0
        label_length = len(label)
        label_parts = []
        label_invalid_parts = []
        chars = []
        result = True
        while i < label_length:
            cp = label[i]
            try:
                char_list = self.repertoire.get_chars_from_prefix(cp)
            except NotInLGR:
                result = False
                label_invalid_parts.append((cp, None))
                i += 1
                continue
            pending_rules_not_in_lgr = []
            valid = False
            for char in char_list:
                if isinstance(char, CharSequence):
                    if not char.is_prefix_of(label[i:]):
                        continue
                if not self._test_context_rules(char, label, i):
                    pending_rules_not_in_lgr.append(char.when or char.not_when)
                    continue
                i += len(char)
                valid = True
                label_parts += char.cp
                chars.append(char)
                break
            if not valid:
                result = False
                label_invalid_parts.append((cp, pending_rules_not_in_lgr or None))
                i += 1
        if not generate_chars:
            return (result, label_parts, label_invalid_parts)
        else:
            return (result, label_parts, label_invalid_parts, chars)

    def _test_label_disposition(self, label, apply_reflexive_mapping=True):
        only_variants = True
        disp_set = set()
        for i in range(len(label)):
            cp = label[i]
            try:
                char_list = self.repertoire.get_chars_from_prefix(cp)
            except NotInLGR:
                continue
            for char in char_list:
                if isinstance(char, CharSequence):
                    if not char.is_prefix_of(label[i:]):
                        continue
                if not self._test_context_rules(char, label, i):
                    continue
                is_variant = False
                if apply_reflexive_mapping:
                    for var in char.get_reflexive_variants():
                        if not self._test_context_rules(var, label, i):
                            continue
                        disp_set.add(var.type)
                        is_variant = True
                only_variants &= is_variant
        only_variants = only_variants if len(disp_set) > 0 else False
        return self._apply_actions(label, disp_set, only_variants)

    def _get_prefix_list(self, label, label_prefix):
        prefix_list = []
        for prefix in self.repertoire.get_chars_from_prefix(label[0], only_variants=True):
            if not prefix.is_prefix_of(label):
                continue
            prefixed_label = label_prefix + prefix.cp + tuple(label[len(prefix):])
            if not self._test_context_rules(prefix, prefixed_label, len(label_prefix)):
                continue
            prefix_list.append(prefix)
        return prefix_list

    def _generate_label_variants(self, label, orig_label=None, label_prefix=None, has_variant=False, mixed_script_filter: BaseMixedScriptsVariantFilter=None, hide_mixed_script_variants=False):
        first_call = False
        if orig_label is None:
            first_call = True
            orig_label = label
        if label_prefix is None:
            label_prefix = tuple()
        if len(label) == 0:
            return
        if hide_mixed_script_variants and (not mixed_script_filter):
            mixed_script_filter = MixedScriptsVariantFilter(label, self.repertoire, unidb=self._unicode_database)
        try:
            same_prefix = self._get_prefix_list(label, label_prefix)
        except NotInLGR:
            same_prefix = []
        else:
            if len(same_prefix) == 0:
                for cp in self.repertoire.get_chars_from_prefix(label[0]):
                    if cp.is_prefix_of(label) and self._test_context_rules(cp, label_prefix + tuple(label), len(label_prefix)):
                        same_prefix = [cp]
                        break
        for char in [ch for ch in same_prefix if isinstance(ch, CharSequence)]:
            for cp in self.repertoire.get_chars_from_prefix(label[0]):
                if len(cp) < len(char) and cp.is_prefix_of(label) and self._test_context_rules(cp, label_prefix + tuple(label), len(label_prefix)):
                    same_prefix.append(cp)
        for char in same_prefix:
            has_reflexive_mapping = False
            char_perms = []
            for var in char.get_variants():
                script_filter: BaseMixedScriptsVariantFilter = mixed_script_filter
                variant_label = label_prefix + var.cp + tuple(label[len(char):])
                if hide_mixed_script_variants:
                    if first_call and mixed_script_filter.cp_in_other_scripts(var.cp):
                        script_filter = mixed_script_filter.get_filter_for_other_script(self.unicode_database.get_script(var.cp[0]))
                    elif not mixed_script_filter.cp_in_base_scripts(var.cp):
                        continue
                if not self._test_context_rules(var, variant_label, len(label_prefix)):
                    continue
                if var.type is None:
                    var_disp = frozenset()
                else:
                    var_disp = frozenset([var.type])
                if var.cp == char.cp:
                    has_reflexive_mapping = True
                char_perms.append((var, var_disp, True, script_filter))
            if not has_reflexive_mapping and (not hide_mixed_script_variants or first_call or mixed_script_filter.cp_in_base_scripts(char.cp)):
                char_perms.insert(0, (char, frozenset(), False, mixed_script_filter))
            if len(label) > len(char):
                for char_perm, disp, is_variant, script_filter in char_perms:
                    for perm_cps, perm_disp, perm_only_variants, perm_chars in self._generate_label_variants(label[len(char):], orig_label, label_prefix + char_perm.cp, is_variant | has_variant, mixed_script_filter=script_filter, hide_mixed_script_variants=hide_mixed_script_variants):
                        yield (char_perm.cp + perm_cps, perm_disp | disp, is_variant & perm_only_variants, [char_perm] + perm_chars)
            elif has_variant or char.has_variant():
                for char_perm, disp, is_variant, chars in char_perms:
                    yield (char_perm.cp, disp, is_variant, [char_perm])

    def _apply_actions(self, label, disp_set, only_variants):
        action_list = self.effective_actions
        idx = 0
        for action in action_list:
            disp = action.apply(label, disp_set, only_variants, self.rules_lookup, self.classes_lookup, self._unicode_database)
            if disp is not None:
                return (disp, idx)
            idx += 1
        return (None, -1)

    def _test_context_rules(self, char, orig_label, index):
        when = char.when
        not_when = char.not_when
        if when is not None:
            rule = self.rules_lookup[when]
            if not rule.matches(orig_label, self.rules_lookup, self.classes_lookup, self._unicode_database, char.cp, index):
                return False
        elif not_when is not None:
            rule = self.rules_lookup[not_when]
            if rule.matches(orig_label, self.rules_lookup, self.classes_lookup, self._unicode_database, char.cp, index):
                return False
        return True

    def _check_convert_cp(self, cp_or_sequence, assert_in_script=False):
        if isinstance(cp_or_sequence, int):
            cp_or_sequence = [cp_or_sequence]
        else:
            try:
                if len(cp_or_sequence) < 1:
                    raise LGRApiInvalidParameter('cp_or_sequence')
            except TypeError:
                raise LGRApiInvalidParameter('cp_or_sequence')
        if self.unicode_database is not None:
            _, invalid_cps = is_idna_valid_cp_or_sequence(cp_or_sequence, self.unicode_database, check_all=True)
            for cp in invalid_cps.keys():
                if self.raise_on_invalid_property:
                    raise CharInvalidIdnaProperty(cp)
            in_script, _ = self.cp_in_script(cp_or_sequence)
            if assert_in_script and (not in_script):
                raise CharNotInScript(cp_or_sequence)
        return cp_or_sequence

    def cp_in_script(self, codepoints):
        in_script = True
        cp_scripts = set()
        lgr_scripts = self.metadata.get_scripts()
        for cp in codepoints:
            try:
                script = self.unicode_database.get_script(cp, alpha4=True)
                cp_scripts.add(script)
                if len(lgr_scripts) > 0 and script not in lgr_scripts and (script not in [COMMON_SCRIPT, INHERITED_SCRIPT]):
                    in_script = False
            except NotImplementedError:
                pass
        return (in_script, cp_scripts)

    def _insert_list(self, codepoints, comment=None, ref=None, tag=None, when=None, not_when=None):
        if not codepoints:
            return
        ranges = collapse_codepoints(codepoints)
        for first_cp, last_cp in ranges:
            if first_cp == last_cp:
                self.repertoire.add_char([first_cp], comment=comment, ref=ref, tag=tag, when=when, not_when=not_when)
            else:
                self.repertoire.add_range(first_cp, last_cp, comment=comment, ref=ref, tag=tag, when=when, not_when=not_when, skip_check=True)

    def _add_cp_to_tag_classes(self, cp_or_sequence, tags):
        for tag in tags:
            tag_classname = TAG_CLASSNAME_PREFIX + tag
            self.classes_lookup.setdefault(tag_classname, Class(name=tag, comment='Virtual class for tag %s' % tag, implicit=True)).add_codepoint(cp_or_sequence)

    def _del_cp_from_tag_classes(self, cp_or_sequence, tags):
        for tag in tags:
            tag_classname = TAG_CLASSNAME_PREFIX + tag
            if tag_classname in self.classes_lookup:
                self.classes_lookup[tag_classname].del_codepoint(cp_or_sequence)

    def __unicode__(self):
        return self.name
    __str__ = __unicode__
